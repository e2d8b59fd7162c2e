-------------------------------- MODULE Limb --------------------------------
(* Real numbers that the implementation computed, as exact decimal fixed     *)
(* point: x = s[1] + s[2]/10^4 + s[3]/10^8 + ..., each limb a small integer   *)
(* of either sign.  TLC's integers have 32 bits, so this is how products of   *)
(* computed factors are formed and compared with integer matrices to working  *)
(* precision.  The number of limbs carries the resolution:                    *)
(*    float: 3 (unit 10^-8), double: 4 (10^-12), long double: 6 (10^-20)       *)
EXTENDS LinAlg

B == 10000
\* nearest integer to x / 10^4, so that the remainder is in -5000..5000
QDiv(x) == IF x >= 0 THEN (x + B \div 2) \div B ELSE -((B \div 2 - x) \div B)

\* Carry from the last limb towards the first: all limbs but the first are balanced digits
RECURSIVE NormFrom(_, _)
NormFrom(s, k) == IF k = 1 THEN s ELSE LET q == QDiv(s[k]) IN NormFrom([s EXCEPT ![k] = @ - q * B, ![k - 1] = @ + q], k - 1)
Norm(s) == NormFrom(s, Len(s))

LInt(x, n) == [k \in 1..n |-> IF k = 1 THEN x ELSE 0]
LAdd(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] + b[k]])
LSub(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] - b[k]])
LNeg(a) == [k \in 1..Len(a) |-> -a[k]]
LZero(n) == LInt(0, n)
LBad(s) == s[1] = 1000000000           \* not a finite number, or far out of range

\* the last limbs of a number whose leading limbs are zero, in units of the last place; 10^8 if it is larger than that
SmallUnits(s) ==
  LET n == Len(s) t == Norm(s) IN
  IF n = 1 THEN Abs(t[1])
  ELSE IF \A k \in 1..(n - 2) : t[k] = 0 THEN (IF Abs(t[n - 1]) > B - B \div 10 THEN B * B ELSE Abs(t[n - 1] * B + t[n]))
  ELSE B * B
\* |s| <= tol units
Small(s, tol) == ~LBad(s) /\ SmallUnits(s) <= tol
NearInt(s, x, tol) == ~LBad(s) /\ SmallUnits([s EXCEPT ![1] = @ - x]) <= tol
LNear(a, b, tol) == ~LBad(a) /\ ~LBad(b) /\ SmallUnits(LSub(a, b)) <= tol
\* sign: 1, 0, -1 with tolerance tol units
RECURSIVE LSgnT(_, _)
LSgnT(t, k) == IF k > Len(t) THEN 0 ELSE IF t[k] # 0 THEN Sgn(t[k]) ELSE LSgnT(t, k + 1)
LSgn(s, tol) == IF SmallUnits(s) <= tol THEN 0 ELSE LSgnT(Norm(s), 1)
LLeq(a, b, tol) == ~LBad(a) /\ ~LBad(b) /\ LSgn(LSub(b, a), tol) >= 0

\* integer vector times limb vector; both sequences of the same length, m limbs
RECURSIVE IDotK(_, _, _, _)
IDotK(u, v, k, i) == IF i = 0 THEN 0 ELSE IDotK(u, v, k, i - 1) + u[i] * v[i][k]
IDot(u, v, m) == TLCEval([k \in 1..m |-> IDotK(u, v, k, Len(u))])

\* product of numbers of m limbs, to m + 1 limbs
RECURSIVE ConvK(_, _, _, _, _)
ConvK(a, b, k, i, m) == IF i = 0 THEN 0 ELSE ConvK(a, b, k, i - 1, m) + (IF k - i + 1 >= 1 /\ k - i + 1 <= m THEN a[i] * b[k - i + 1] ELSE 0)
LMul(a, b) == LET m == Len(a) IN TLCEval([k \in 1..(m + 1) |-> ConvK(a, b, k, Min2(k, m), m)])
RECURSIVE LDotTo(_, _, _)
LDotTo(u, v, i) == IF i = 1 THEN LMul(u[1], v[1]) ELSE LAdd(LDotTo(u, v, i - 1), LMul(u[i], v[i]))
\* limbs of a dot product of limb vectors (not empty), m + 1 limbs, unnormalised: at most 6 terms of at most 6 limbs
LDot(u, v) == LDotTo(u, v, Len(u))
Trunc(s, m) == LET t == Norm(s) IN [k \in 1..m |-> IF k = 1 /\ m = 1 THEN t[1] ELSE t[k]]
\* s / n, n a small positive integer
RECURSIVE DivFrom(_, _, _, _)
DivFrom(s, n, k, rem) == IF k > Len(s) THEN <<>> ELSE LET x == rem * B + s[k] q == IF x >= 0 THEN x \div n ELSE -((-x) \div n) IN <<q>> \o DivFrom(s, n, k + 1, x - q * n)
LDivI(s, n) == Norm(DivFrom(Norm(s), n, 1, 0))
------------------------------------------------------------------------------
(* Matrices of limb numbers: the same records, d holds limb sequences *)
LMatOK(m) == \A k \in 1..Len(m.d) : ~LBad(m.d[k])
LMNearInt(m, x, tol) == m.r = x.r /\ m.c = x.c /\ \A k \in 1..Len(x.d) : NearInt(m.d[k], x.d[k], tol)
LMNear(a, b, tol) == a.r = b.r /\ a.c = b.c /\ \A k \in 1..Len(a.d) : LNear(a.d[k], b.d[k], tol)
Limbs(m) == IF Len(m.d) = 0 THEN 1 ELSE Len(m.d[1])
\* integer matrix times limb matrix and the other way round
IMMul(a, b) == LET n == Limbs(b) F(i, j) == Norm(IDot(Row(a, i), Col(b, j), n)) IN Mat(a.r, b.c, F)
MIMul(a, b) == LET n == Limbs(a) F(i, j) == Norm(IDot(Col(b, j), Row(a, i), n)) IN Mat(a.r, b.c, F)
\* limb matrix times limb matrix, normalised and cut to m limbs (m + 1 gives no loss)
LMMul(a, b, m) == LET F(i, j) == Trunc(LDot(Row(a, i), Col(b, j)), m) IN Mat(a.r, b.c, F)
\* U diag(d) W
UDW(u, d, w) == LET n == Limbs(u) F(i, j) == Trunc(LMul(At(u, i, j), d[j]), n) IN LMMul(Mat(u.r, u.c, F), w, n)
\* columns of u orthonormal
Orthonormal(u, tol) == LMNearInt(LMMul(MT(u), u, Limbs(u)), MId(u.c), tol)
LMSym(m, tol) == m.r = m.c /\ LMNear(m, MT(m), tol)
=============================================================================
