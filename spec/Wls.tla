-------------------------------- MODULE Wls ---------------------------------
(* Weighted least squares accumulators (C13): wls.h, irls.h.                 *)
(* An accumulator is the sum of the contributions that were made since it    *)
(* was last cleared: an information matrix C and an information vector v.    *)
(* A robust (IRLS) one has in addition the sum T of the measurements weighted *)
(* by the true scale, and the sum of the objectives of its measurements.     *)
(* All numbers are limb numbers (module Limb) of L limbs: the contributions  *)
(* themselves are integers, multiplied by a weight that the reweighting      *)
(* function computed.  Only the upper triangle of C is kept up to date by    *)
(* the implementation; compute() fills in the other half.                    *)
EXTENDS Limb

VARIABLE objs      \* accumulators, by number
Zero(n, lim) == [n |-> n, L |-> lim, C |-> Mat(n, n, LAMBDA i, j : LZero(lim)), v |-> [i \in 1..n |-> LZero(lim)],
                 T |-> Mat(n, n, LAMBDA i, j : LZero(lim)), res |-> LZero(lim), done |-> FALSE, mu |-> <<>>, nr |-> 0]      \* nr: robust measurements so far
Objects == DOMAIN objs

(* Contributions: an integer matrix and vector *)
NAdd(x, y) == Norm(LAdd(x, y))
LMAdd(x, y) == [x EXCEPT !.d = TLCEval([k \in 1..Len(x.d) |-> NAdd(x.d[k], y.d[k])])]
LVAdd(x, y) == TLCEval([k \in 1..Len(x) |-> NAdd(x[k], y[k])])
IntM(m, lim) == LET G(x) == LInt(x, lim) IN MMap(m, G)
IntV(v, lim) == [k \in 1..Len(v) |-> LInt(v[k], lim)]
\* integer matrix times one limb number
TimesL(m, w) == LET G(x) == Norm([k \in 1..Len(w) |-> x * w[k]]) IN MMap(m, G)
VTimesL(v, w) == TLCEval([i \in 1..Len(v) |-> Norm([k \in 1..Len(w) |-> v[i] * w[k]])])
Plus(o, m, v) == [o EXCEPT !.C = LMAdd(@, IntM(m, o.L)), !.v = LVAdd(@, IntV(v, o.L)), !.done = FALSE]

PriorS(n, x) == MDiag(VConst(n, x))
Info(J, w, m) == [m |-> MScale(Outer(J, J), w), v |-> VScale(J, w * m)]                        \* one measurement m with Jacobian J
InfoCov(J, W, m) == [m |-> MMul(MMul(J, W), MT(J)), v |-> MVec(MMul(J, W), m)]                  \* Jacobian's columns are the measurements
Embed(J, n, at) == LET F(i, j) == IF j > at /\ j <= at + J.c THEN At(J, i, j - at) ELSE 0 IN Mat(J.r, n, F)   \* a block of columns of a Jacobian's rows
EmbedV(J, n, at) == VReplace(VConst(n, 0), at, J)
RECURSIVE SumInfo(_, _, _, _)
SumInfo(J, w, m, k) ==
  IF k = 0 THEN [m |-> MConst(J.c, J.c, 0), v |-> VConst(J.c, 0)]
  ELSE LET a == SumInfo(J, w, m, k - 1) b == Info(Row(J, k), w, m[k]) IN [m |-> MAdd(a.m, b.m), v |-> VAdd(a.v, b.v)]

------------------------------------------------------------------------------
(* Actions.  k: the accumulator that is told; the others do not change *)
Set(k, o) == objs' = [objs EXCEPT ![k] = o]
New(k, n, lim) == objs' = (k :> Zero(n, lim)) @@ objs
Forget == objs' = <<>>
Clear(k) == LET z == Zero(objs[k].n, objs[k].L) IN Set(k, [z EXCEPT !.mu = objs[k].mu])
PriorScalar(k, x) == Set(k, Plus(objs[k], PriorS(objs[k].n, x), VConst(objs[k].n, 0)))
PriorVector(k, x) == Len(x) = objs[k].n /\ Set(k, Plus(objs[k], MDiag(x), VConst(objs[k].n, 0)))
PriorMatrix(k, x) == IsSym(x) /\ x.r = objs[k].n /\ Set(k, Plus(objs[k], x, VConst(objs[k].n, 0)))
Measure(k, m, J, w) == Len(J) = objs[k].n /\ LET c == Info(J, w, m) IN Set(k, Plus(objs[k], c.m, c.v))
MeasureAll(k, m, J, w) == J.c = objs[k].n /\ J.r = Len(m) /\ LET c == SumInfo(J, w, m, J.r) IN Set(k, Plus(objs[k], c.m, c.v))
MeasureCov(k, m, J, W) == IsSym(W) /\ J.r = objs[k].n /\ LET c == InfoCov(J, W, m) IN Set(k, Plus(objs[k], c.m, c.v))
MeasureRows(k, m, J, W) == MeasureCov(k, m, MT(J), W)
SparseScalar(k, m, J, at, w) == Measure(k, m, EmbedV(J, objs[k].n, at), w)
SparseRows(k, m, J, at, W) == MeasureRows(k, m, Embed(J, objs[k].n, at), W)
SparseRows2(k, m, J1, at1, J2, at2, W) == MeasureRows(k, m, MAdd(Embed(J1, objs[k].n, at1), Embed(J2, objs[k].n, at2)), W)
Merge(k, j) == LET a == objs[k] b == objs[j] IN
  a.n = b.n /\ Set(k, [a EXCEPT !.C = LMAdd(@, b.C), !.v = LVAdd(@, b.v), !.T = LMAdd(@, b.T), !.res = NAdd(@, b.res), !.nr = @ + b.nr, !.done = FALSE])
CopyOf(k, j) == objs' = (k :> objs[j]) @@ objs
(* A robust measurement: weight w, true scale ts and objective ob are what the reweighting functions gave for m *)
Robust(k, m, J, w, ts, ob) == LET o == objs[k] jj == Outer(J, J) IN
  Len(J) = o.n /\ Set(k, [o EXCEPT !.C = LMAdd(@, TimesL(jj, w)), !.v = LVAdd(@, VTimesL(VScale(J, m), w)), !.T = LMAdd(@, TimesL(jj, ts)), !.res = NAdd(@, ob), !.nr = @ + 1, !.done = FALSE])

(* compute(): mu solves C mu = v, and the lower half is filled in *)
Eps(lim, k) == IF lim = 3 THEN 12 * k + 8 ELSE IF lim = 4 THEN k \div 4500 + 8 ELSE 11 * k + 8
LSize(s) == Abs(Norm(s)[1]) + 1
RECURSIVE LVMax(_, _)
LVMax(v, k) == IF k = 0 THEN 1 ELSE Max2(LVMax(v, k - 1), LSize(v[k]))
RowOfL(m, i) == [j \in 1..m.c |-> At(m, i, j)]
RECURSIVE RowSumL(_, _)
RowSumL(r, k) == IF k = 0 THEN 0 ELSE RowSumL(r, k - 1) + LSize(r[k])
Norm1L(m) == IF m.r = 0 THEN 1 ELSE MaxSeq([i \in 1..m.r |-> RowSumL(RowOfL(m, i), m.c)])
\* the product of matrix and vector, to one more limb than their own
LMatVec(m, u) == TLCEval([i \in 1..m.r |-> Norm(LDot(RowOfL(m, i), u))])
Solved(o, u) ==
  LET nm == Norm1L(o.C) IN
  /\ Len(u) = o.n /\ \A i \in 1..o.n : ~LBad(u[i])
  /\ o.n > 0 => LET t == Eps(o.L, 8 * o.n * nm * LVMax(u, o.n)) + nm + 4 * o.n IN
       \A i \in 1..o.n : SmallUnits(LSub(Trunc(LMatVec(o.C, u)[i], o.L), o.v[i])) <= t
Compute(k, u) == LET o == objs[k] IN Solved(o, u) /\ Set(k, [o EXCEPT !.done = TRUE, !.mu = u])

------------------------------------------------------------------------------
(* What an observer sees *)
ClosedTo(x, y, tol) == ~LBad(x) /\ (IF tol = 0 THEN x = y ELSE SmallUnits(LSub(x, y)) <= tol)
Sees(o, C, v, tol) ==
  /\ C.r = o.n /\ C.c = o.n /\ Len(C.d) = o.n * o.n /\ Len(v) = o.n
  /\ \A i \in 1..o.n : ClosedTo(v[i], o.v[i], tol)
  /\ \A i, j \in 1..o.n : (j >= i \/ o.done) => ClosedTo(At(C, i, j), IF j >= i THEN At(o.C, i, j) ELSE At(o.C, j, i), tol)
SeesTrue(o, T, res, tol) ==
  /\ T.r = o.n /\ T.c = o.n /\ \A k \in 1..Len(T.d) : ClosedTo(T.d[k], o.T.d[k], tol)
  /\ ClosedTo(res, o.res, tol)
SeesMu(o, u) == o.mu # <<>> => u = o.mu
------------------------------------------------------------------------------
(* The reweighting functions, at integer x for integer noise parameter s: x w(x) is the derivative of the objective, *)
(* and the true scale is the derivative of x w(x) *)
NearRatio(y, num, den, tol) == ~LBad(y) /\ NearInt(Norm([k \in 1..Len(y) |-> y[k] * den]), num, tol)
Ln2(lim) == SubSeq(<<0, 6931, 4718, 559, 9453, 942>>, 1, lim)
RECURSIVE Log2(_)
Log2(x) == IF x = 1 THEN 0 ELSE 1 + Log2(x \div 2)
IsPow2(x) == x \in {2^i : i \in 0..20}
TimesLn2(n, lim) == Norm([k \in 1..lim |-> Ln2(6)[k] * n])
WeightOK(f, s, x, w, t) ==
  CASE f = "I" -> NearRatio(w, 1, s + Abs(x), t)                  \* 1 / (s + |x|)
    [] f = "II" -> NearRatio(w, 1, s * s + x * x, t)              \* 1 / (s^2 + x^2)
    [] f = "III" -> NearRatio(w, s * s * s * s, (s * s + x * x) * (s * s + x * x), t)   \* 1 / (1 + x^2/s^2)^2
    [] f = "L" -> NearInt(w, 1, 0)
    [] OTHER -> FALSE
ScaleOK(f, s, x, ts, t) ==
  CASE f = "I" -> NearRatio(ts, s, (s + Abs(x)) * (s + Abs(x)), t)
    [] f = "II" -> NearRatio(ts, s * s - x * x, (s * s + x * x) * (s * s + x * x), t)
    [] f = "L" -> NearInt(ts, 1, 0)
    [] OTHER -> FALSE
\* the objectives have logarithms; they are known where those are of powers of two
ObjectiveOK(f, s, x, ob, t) ==
  CASE f = "I" -> (s = 1 /\ IsPow2(1 + Abs(x))) => LNear(ob, LSub(LInt(Abs(x), Len(ob)), TimesLn2(Log2(1 + Abs(x)), Len(ob))), t)
    [] f = "II" -> ((x * x) % (s * s) = 0 /\ IsPow2(1 + (x * x) \div (s * s))) =>
                     LNear(LAdd(ob, ob), TimesLn2(Log2(1 + (x * x) \div (s * s)), Len(ob)), 2 * t)
    [] f = "III" -> NearRatio(ob, x * x * s * s, 2 * (s * s + x * x), t)
    [] f = "L" -> NearInt(ob, x * x, 0)
    [] OTHER -> FALSE
=============================================================================
