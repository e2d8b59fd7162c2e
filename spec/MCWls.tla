-------------------------------- MODULE MCWls --------------------------------
(* The algorithm of wls.h on its storage S (a full matrix of which the upper  *)
(* triangle counts) against the sum of contributions: the upper triangle of S *)
(* is that of the sum after every history, all of it after compute(), and the *)
(* ways to give the same measurements agree, whatever order they come in.     *)
EXTENDS Wls, TLC
CONSTANTS Depth, Wide
VARIABLES st,      \* what is stored for each accumulator: [S, V]
          steps
mvars == <<objs, st, steps>>
Ids == {0, 1}
D == 3
Lims == 1          \* integers only: one limb
Blank == [S |-> MConst(D, D, 0), V |-> VConst(D, 0)]
MInit == objs = [i \in Ids |-> Zero(D, Lims)] /\ st = [i \in Ids |-> Blank] /\ steps = 0

Js == IF Wide THEN {<<1, -1, 0>>, <<0, 2, 1>>, <<1, 1, 1>>, <<0, 0, 0>>, <<0, 0, -3>>} ELSE {<<1, -1, 0>>, <<0, 2, 1>>, <<1, 1, 1>>}
Ws == {1, 2}
Ms == IF Wide THEN {-1, 0, 2} ELSE {-1, 2}
M2 == {[r |-> 2, c |-> 3, d |-> <<1, 0, 2, -1, 1, 0>>], [r |-> 2, c |-> 3, d |-> <<0, 1, 1, 0, 0, 1>>]}
C2 == {[r |-> 2, c |-> 2, d |-> <<2, 1, 1, 2>>], [r |-> 2, c |-> 2, d |-> <<1, 0, 0, 3>>]}
\* the loops of the implementation
UpperAdd(s, J, w, at) == LET F(i, j) == At(s.S, i, j) + (IF i > at /\ j >= i /\ j <= at + Len(J) THEN w * J[i - at] * J[j - at] ELSE 0) IN Mat(D, D, F)
VecAdd(s, J, w, m, at) == [i \in 1..D |-> s.V[i] + (IF i > at /\ i <= at + Len(J) THEN m * w * J[i - at] ELSE 0)]
Put(k, s) == st' = [st EXCEPT ![k] = s] /\ steps' = steps + 1
BlockAdd(S, r0, c0, b) == LET F(i, j) == At(S, i, j) + (IF i > r0 /\ i <= r0 + b.r /\ j > c0 /\ j <= c0 + b.c THEN At(b, i - r0, j - c0) ELSE 0) IN Mat(D, D, F)
BlockAddV(V, r0, b) == [i \in 1..D |-> V[i] + (IF i > r0 /\ i <= r0 + Len(b) THEN b[i - r0] ELSE 0)]

IPrior(k) == \E x \in {1, 3} : PriorScalar(k, x) /\ Put(k, [st[k] EXCEPT !.S = MAdd(@, PriorS(D, x))])
IPriorM(k) == LET x == [r |-> 3, c |-> 3, d |-> <<2, 1, 0, 1, 3, -1, 0, -1, 1>>] IN PriorMatrix(k, x) /\ Put(k, [st[k] EXCEPT !.S = MAdd(@, x)])
IMeasure(k) == \E J \in Js, w \in Ws, m \in Ms : Measure(k, m, J, w) /\ Put(k, [S |-> UpperAdd(st[k], J, w, 0), V |-> VecAdd(st[k], J, w, m, 0)])
ISparse(k) == \E at \in 0..1, w \in Ws : LET J == <<2, -1>> m == 1 IN SparseScalar(k, m, J, at, w) /\ Put(k, [S |-> UpperAdd(st[k], J, w, at), V |-> VecAdd(st[k], J, w, m, at)])
IRows(k) == \E J \in M2, W \in C2 : LET m == <<1, -2>> t == MMul(MT(J), W) IN
  MeasureRows(k, m, J, W) /\ Put(k, [S |-> MAdd(st[k].S, MMul(t, J)), V |-> VAdd(st[k].V, MVec(t, m))])
IRows2(k) == \E at1, at2 \in 0..2, W \in C2 :
  LET J1 == [r |-> 2, c |-> 1, d |-> <<1, 2>>] J2 == [r |-> 2, c |-> 1, d |-> <<-1, 1>>] m == <<1, 1>>
      t1 == MMul(MT(J1), W) t2 == MMul(MT(J2), W) mx == MMul(t1, J2)
  IN SparseRows2(k, m, J1, at1, J2, at2, W) /\
     Put(k, [S |-> BlockAdd(BlockAdd(BlockAdd(BlockAdd(st[k].S, at1, at1, MMul(t1, J1)), at2, at2, MMul(t2, J2)), at1, at2, mx), at2, at1, MT(mx)),
             V |-> BlockAddV(BlockAddV(st[k].V, at1, MVec(t1, m)), at2, MVec(t2, m))])
IMerge(k) == \E j \in Ids : Merge(k, j) /\ Put(k, [S |-> MAdd(st[k].S, st[j].S), V |-> VAdd(st[k].V, st[j].V)])
IClear(k) == Clear(k) /\ Put(k, Blank)
Filled(S) == LET F(i, j) == IF j >= i THEN At(S, i, j) ELSE At(S, j, i) IN Mat(D, D, F)
IntC(o) == LET G(x) == x[1] IN MMap(o.C, G)
ICompute(k) == objs' = [objs EXCEPT ![k].done = TRUE] /\ Put(k, [st[k] EXCEPT !.S = Filled(@)])
MNext == steps < Depth /\ \E k \in (IF steps = 0 THEN {0} ELSE Ids) : IPrior(k) \/ IPriorM(k) \/ IMeasure(k) \/ ISparse(k) \/ IRows(k) \/ IRows2(k) \/ IMerge(k) \/ IClear(k) \/ ICompute(k)
MSpec == MInit /\ [][MNext]_mvars

UpperRight == \A k \in Ids : Sees(objs[k], LET G(x) == <<x>> IN MMap(st[k].S, G), [i \in 1..D |-> <<st[k].V[i]>>], 0)
SumSym == \A k \in Ids : IsSym(IntC(objs[k]))
\* batches are the measurements one after the other; a block is the dense measurement with zeros elsewhere
Batches == \A J \in M2, w \in Ws : LET m == <<2, -1>> IN
  /\ SumInfo(J, w, m, 2) = InfoCov(MT(J), MScale(MId(2), w), m)
  /\ \A at \in 0..2 : LET K == MT([r |-> 1, c |-> 2, d |-> <<1, -2>>]) IN InfoCov(MT(Embed(K, D, at)), MScale(MId(2), w), m).m = MReplace(MConst(D, D, 0), at, at, [r |-> 1, c |-> 1, d |-> <<5 * w>>])
Commutes == \A J, K \in Js, w \in Ws : \A k \in Ids : LET o == objs[k] a == Info(J, w, 1) b == Info(K, 1, 2) IN Plus(Plus(o, a.m, a.v), b.m, b.v) = Plus(Plus(o, b.m, b.v), a.m, a.v)
=============================================================================
