------------------------------- MODULE LinAlg -------------------------------
(* Mathematical definitions of vectors and matrices, over the integers.      *)
(* A vector is a sequence; a matrix is a record [r, c, d] with its elements  *)
(* in row-major order in d, whatever the storage of the implementation.      *)
(* Everything the other modules say about a result is said in these terms.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
Sum(s) == SumTo(s, Len(s))
RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 1 THEN s[1] ELSE Max2(MaxTo(s, k - 1), s[k])
MaxSeq(s) == MaxTo(s, Len(s))
RECURSIVE MinTo(_, _)
MinTo(s, k) == IF k = 1 THEN s[1] ELSE Min2(MinTo(s, k - 1), s[k])
MinSeq(s) == MinTo(s, Len(s))

------------------------------------------------------------------------------
(* Vectors *)
Vec(n, F(_)) == [i \in 1..n |-> F(i)]
VConst(n, x) == [i \in 1..n |-> x]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VNeg(a) == [i \in 1..Len(a) |-> -a[i]]
VScale(a, s) == [i \in 1..Len(a) |-> a[i] * s]
VMulE(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
VAddC(a, s) == [i \in 1..Len(a) |-> a[i] + s]
VAbs(a) == [i \in 1..Len(a) |-> Abs(a[i])]
Dot(a, b) == Sum(VMulE(a, b))
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
VUnit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
VSlice(a, start, len) == [i \in 1..len |-> a[start + i]]     \* start counts from 0
VReplace(a, start, b) == [i \in 1..Len(a) |-> IF i > start /\ i <= start + Len(b) THEN b[i - start] ELSE a[i]]

------------------------------------------------------------------------------
(* Matrices *)
Mat(r, c, F(_, _)) == [r |-> r, c |-> c, d |-> TLCEval([k \in 1..(r * c) |-> F(((k - 1) \div c) + 1, ((k - 1) % c) + 1)])]
At(m, i, j) == m.d[(i - 1) * m.c + j]
WellFormed(m) == Len(m.d) = m.r * m.c
SameShape(a, b) == a.r = b.r /\ a.c = b.c
MConst(r, c, x) == [r |-> r, c |-> c, d |-> VConst(r * c, x)]
MId(n) == LET F(i, j) == IF i = j THEN 1 ELSE 0 IN Mat(n, n, F)
MDiag(v) == LET F(i, j) == IF i = j THEN v[i] ELSE 0 IN Mat(Len(v), Len(v), F)
MAdd(a, b) == [r |-> a.r, c |-> a.c, d |-> VAdd(a.d, b.d)]
MSub(a, b) == [r |-> a.r, c |-> a.c, d |-> VSub(a.d, b.d)]
MScale(a, s) == [r |-> a.r, c |-> a.c, d |-> VScale(a.d, s)]
MNeg(a) == MScale(a, -1)
MT(a) == LET F(i, j) == At(a, j, i) IN Mat(a.c, a.r, F)
Row(m, i) == TLCEval([j \in 1..m.c |-> At(m, i, j)])
Col(m, j) == TLCEval([i \in 1..m.r |-> At(m, i, j)])
DiagOf(m) == [i \in 1..Min2(m.r, m.c) |-> At(m, i, i)]
RECURSIVE DotRC(_, _, _, _, _)
DotRC(a, i, b, j, k) == IF k = 0 THEN 0 ELSE DotRC(a, i, b, j, k - 1) + At(a, i, k) * At(b, k, j)
MMul(a, b) == LET F(i, j) == DotRC(a, i, b, j, a.c) IN Mat(a.r, b.c, F)
MVec(a, v) == [i \in 1..a.r |-> Dot(Row(a, i), v)]
VMat(v, a) == [j \in 1..a.c |-> Dot(v, Col(a, j))]
Outer(u, v) == LET F(i, j) == u[i] * v[j] IN Mat(Len(u), Len(v), F)
MSliceOf(m, r0, c0, r, c) == LET F(i, j) == At(m, r0 + i, c0 + j) IN Mat(r, c, F)
MReplace(m, r0, c0, b) ==
  LET F(i, j) == IF i > r0 /\ i <= r0 + b.r /\ j > c0 /\ j <= c0 + b.c THEN At(b, i - r0, j - c0) ELSE At(m, i, j)
  IN Mat(m.r, m.c, F)
IsSym(m) == m.r = m.c /\ \A i, j \in 1..m.r : At(m, i, j) = At(m, j, i)
MTrace(m) == Sum(DiagOf(m))
MMap(m, G(_)) == [r |-> m.r, c |-> m.c, d |-> TLCEval([k \in 1..Len(m.d) |-> G(m.d[k])])]
RowAsMat(v) == [r |-> 1, c |-> Len(v), d |-> v]
ColAsMat(v) == [r |-> Len(v), c |-> 1, d |-> v]
MCols(m) == [j \in 1..m.c |-> Col(m, j)]

(* Determinant, by expansion along the first row *)
Minor(m, i0, j0) == LET F(i, j) == At(m, IF i < i0 THEN i ELSE i + 1, IF j < j0 THEN j ELSE j + 1) IN Mat(m.r - 1, m.c - 1, F)
RECURSIVE Det(_)
Det(m) ==
  IF m.r = 0 THEN 1
  ELSE IF m.r = 1 THEN At(m, 1, 1)
  ELSE IF m.r = 2 THEN At(m, 1, 1) * At(m, 2, 2) - At(m, 1, 2) * At(m, 2, 1)
  ELSE LET T == [j \in 1..m.c |-> IF At(m, 1, j) = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * At(m, 1, j) * Det(Minor(m, 1, j))]
       IN Sum(T)
Adjugate(m) ==
  LET F(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * (IF m.r = 1 THEN 1 ELSE Det(Minor(m, j, i))) IN Mat(m.r, m.r, F)

(* Rounded fixed-point data: |a - b| <= tol, element by element *)
Near(a, b, tol) == Abs(a - b) <= tol
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
MNear(a, b, tol) == a.r = b.r /\ a.c = b.c /\ Len(a.d) = Len(b.d) /\ VNear(a.d, b.d, tol)
VBound(a, k) == \A i \in 1..Len(a) : Abs(a[i]) <= k
MBound(m, k) == VBound(m.d, k)
(* Fixed point product with scale s: round(a * b / s), avoiding overflow for |a| <= 2*10^5, |b| <= 10^4 *)
RoundDiv(x, s) == IF x >= 0 THEN (x + s \div 2) \div s ELSE -((-x + s \div 2) \div s)
=============================================================================
