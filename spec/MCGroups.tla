------------------------------ MODULE MCGroups -------------------------------
(* The component formulas of se2.h, se3.h, sim2.h and sim3.h (rotation,       *)
(* translation and scale apart, in-place forms as the sequence of their       *)
(* assignments, operands possibly the object itself) against the homogeneous  *)
(* matrices, over the integers modulo a prime: exact, with every inverse.     *)
EXTENDS LinAlg
CONSTANTS N,          \* 2 or 3: planar or spatial
          P,          \* prime
          Depth,
          Scales      \* scales that occur (1 alone: rigid motions)
VARIABLES ob, steps   \* ob: two objects [R, t, s]
vars == <<ob, steps>>
Md(x) == x % P
MM(m) == LET G(x) == Md(x) IN MMap(m, G)
VM(v) == [i \in 1..Len(v) |-> Md(v[i])]
X(a, b) == MM(MMul(a, b))
XV(a, v) == VM(MVec(a, v))
Inv(x) == CHOOSE y \in 1..(P - 1) : Md(x * y) = 1
\* rotations: c^2 + s^2 = 1 in a plane, and the cyclic permutation of the axes
Circle == {q \in (0..P - 1) \X (0..P - 1) : Md(q[1] * q[1] + q[2] * q[2]) = 1}
Rot2(q) == LET F(i, j) == IF i = j THEN q[1] ELSE IF i < j THEN Md(-q[2]) ELSE q[2] IN Mat(2, 2, F)
Turn(q) == IF N = 2 THEN Rot2(q) ELSE MReplace(MId(3), 0, 0, Rot2(q))
Cycle == Mat(3, 3, LAMBDA i, j : IF j = (i % 3) + 1 THEN 1 ELSE 0)
Starts == {Turn(q) : q \in Circle} \cup (IF N = 3 THEN {X(Turn(q), Cycle) : q \in Circle} ELSE {})
Ts == IF N = 2 THEN {<<1, 0>>, <<2, 3>>} ELSE {<<1, 2, 0>>, <<0, 1, 3>>}
Hom(x) == LET F(i, j) == IF i <= N /\ j <= N THEN Md(x.s * At(x.R, i, j)) ELSE IF i <= N THEN x.t[i] ELSE IF j > N THEN 1 ELSE 0 IN Mat(N + 1, N + 1, F)
IdE == [R |-> MId(N), t |-> VConst(N, 0), s |-> 1]

\* the implementation's formulas
ITimes(a, b) == [R |-> X(a.R, b.R), t |-> VM(VAdd(a.t, XV(a.R, VScale(b.t, a.s)))), s |-> Md(a.s * b.s)]
IInv(a) == LET r == MT(a.R) i == Inv(a.s) IN [R |-> r, t |-> VM(VNeg(XV(r, VScale(a.t, i)))), s |-> i]
\* in place, one assignment after the other; w is the object, r the other operand (possibly the same)
A1(o, w, r) == [o EXCEPT ![w].t = VM(VAdd(o[w].t, XV(o[w].R, VScale(o[r].t, o[w].s))))]
A2(o, w, r) == [o EXCEPT ![w].R = X(o[w].R, o[r].R)]
A3(o, w, r) == [o EXCEPT ![w].s = Md(o[w].s * o[r].s)]
ITimesAssign(o, w, r) == A3(A2(A1(o, w, r), w, r), w, r)
B1(o, w, r) == [o EXCEPT ![w].t = VM(VAdd(o[r].t, XV(o[r].R, VScale(o[w].t, o[r].s))))]
B2(o, w, r) == [o EXCEPT ![w].R = X(o[r].R, o[w].R)]
B3(o, w, r) == [o EXCEPT ![w].s = Md(o[r].s * o[w].s)]
ILeft(o, w, r) == B3(B2(B1(o, w, r), w, r), w, r)

Init == \E R \in Starts, t \in Ts, s \in Scales : ob = <<[R |-> R, t |-> t, s |-> s], IdE>> /\ steps = 0
Ids == {1, 2}
MNew(i) == \E R \in Starts, t \in Ts, s \in Scales : ob' = [ob EXCEPT ![i] = [R |-> R, t |-> t, s |-> s]]
Products == \A a, b \in Ids : Hom(ITimes(ob[a], ob[b])) = X(Hom(ob[a]), Hom(ob[b]))
InPlace == \A w, r \in Ids : /\ Hom(ITimesAssign(ob, w, r)[w]) = X(Hom(ob[w]), Hom(ob[r])) /\ Hom(ILeft(ob, w, r)[w]) = X(Hom(ob[r]), Hom(ob[w]))
                             /\ \A o \in Ids \ {w} : ITimesAssign(ob, w, r)[o] = ob[o]
Inverses == \A a \in Ids : X(Hom(IInv(ob[a])), Hom(ob[a])) = MId(N + 1) /\ X(Hom(ob[a]), Hom(IInv(ob[a]))) = MId(N + 1)
Rotation == \A a \in Ids : X(ob[a].R, MT(ob[a].R)) = MId(N) /\ Md(Det(ob[a].R)) = 1
Next == steps < Depth /\ steps' = steps + 1 /\
  \E i, j \in Ids : \/ (steps = 0 /\ i = 2 /\ MNew(i))
                    \/ ob' = [ob EXCEPT ![i] = ITimes(ob[1], ob[j])] \/ ob' = [ob EXCEPT ![i] = IInv(ob[j])]
                    \/ ob' = ITimesAssign(ob, i, j) \/ ob' = ILeft(ob, i, j)
Spec == Init /\ [][Next]_vars

\* actions
Vs == IF N = 2 THEN {<<1, 0, 2>>, <<0, 3, 1>>, <<2, 1, 0>>} ELSE {<<1, 0, 2, 1>>, <<0, 3, 1, 2>>, <<2, 1, 0, 0>>}
IActL(a, v) == LET u == VSlice(v, 0, N) IN VM(VAdd(XV(a.R, VScale(u, a.s)), VScale(a.t, v[N + 1]))) \o <<v[N + 1]>>
IActR(v, a) == LET u == VSlice(v, 0, N) IN VM(VMat(VScale(u, a.s), a.R)) \o <<Md(v[N + 1] + Dot(u, a.t))>>
Actions == \A a \in Ids, v \in Vs : IActL(ob[a], v) = VM(MVec(Hom(ob[a]), v)) /\ IActR(v, ob[a]) = VM(VMat(v, Hom(ob[a])))
\* adjoints: hat(Ad v) T = T hat(v); trinvadjoint is the inverse transpose
D == IF N = 2 THEN 4 ELSE 7
Hat(v) ==
  IF N = 2 THEN [r |-> 3, c |-> 3, d |-> <<v[4], -v[3], v[1], v[3], v[4], v[2], 0, 0, 0>>]
  ELSE [r |-> 4, c |-> 4, d |-> <<v[7], -v[6], v[5], v[1], v[6], v[7], -v[4], v[2], -v[5], v[4], v[7], v[3], 0, 0, 0, 0>>]
IAdj(a, v) ==
  IF N = 2 THEN LET u == XV(a.R, VScale(VSlice(v, 0, 2), a.s)) IN VM(<<u[1] + v[3] * a.t[2] - v[4] * a.t[1], u[2] - v[3] * a.t[1] - v[4] * a.t[2], v[3], v[4]>>)
  ELSE LET w == XV(a.R, VSlice(v, 3, 3)) u == XV(a.R, VScale(VSlice(v, 0, 3), a.s)) IN VM(VSub(VAdd(u, Cross(a.t, w)), VScale(a.t, v[7])) \o w \o <<v[7]>>)
ITri(a, v) == LET u == VM(VScale(XV(a.R, VSlice(v, 0, 3)), Inv(a.s))) IN VM(u \o VAdd(XV(a.R, VSlice(v, 3, 3)), Cross(a.t, u)) \o <<v[7] + Dot(a.t, u)>>)
Basis == {VUnit(D, k) : k \in 1..D}
Adjoints == \A a \in Ids : LET H == Hom(ob[a]) IN \A v \in Basis :
  /\ X(Hat(IAdj(ob[a], v)), H) = X(H, MM(Hat(v)))
  /\ N = 3 => \A u \in Basis : Md(Dot(ITri(ob[a], u), IAdj(ob[a], v))) = Md(Dot(u, v))
=============================================================================
