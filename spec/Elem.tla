--------------------------------- MODULE Elem ---------------------------------
(* Element types.  Vectors and matrices of integers, of real numbers of       *)
(* several precisions, of complex numbers and of types of the user (rational  *)
(* numbers, quaternions), combined with each other: the type of a result, the *)
(* value of a result and what a conversion does are those of the scalar       *)
(* expression.                                                                *)
(* Types: "i" int, "f" float, "d" double, "l" long double, "cf" and "c"       *)
(* complex float and double, "q" rational numbers, "h" quaternions.           *)
(* An element is a tuple: <<u>>: the real number u/U; <<u, v>>: u/U + i v/U;  *)
(* <<n, d>>: n/d in lowest terms; <<a, b, c, d>>: a + bi + cj + dk.           *)
EXTENDS LinAlg
CONSTANT U
VARIABLES a, b,    \* vectors [t, x]
          m, n     \* matrices [t, r, c, d]
evars == <<a, b, m, n>>
Reals == {"i", "f", "d", "l"}
Rank(t) == CASE t = "i" -> 1 [] t = "f" -> 2 [] t = "d" -> 3 [] t = "l" -> 4
Fam(t) == IF t \in Reals THEN "r" ELSE IF t \in {"c", "cf"} THEN "c" ELSE t
\* the type of the sum or product of two elements; "none" if there is no such operation
RT(s, t) ==
  CASE s \in Reals /\ t \in Reals -> IF Rank(s) >= Rank(t) THEN s ELSE t
    [] s = t -> s
    [] {s, t} = {"c", "d"} -> "c"
    [] {s, t} = {"cf", "f"} -> "cf"
    [] {s, t} = {"q", "i"} -> "q"
    [] {s, t} = {"h", "i"} -> "h"
    [] OTHER -> "none"
\* may an element of type s be assigned to one of type t
Fits(s, t) == (s \in Reals /\ t \in Reals) \/ s = t \/ (Fam(s) = "c" /\ Fam(t) = "c") \/ (s \in Reals /\ Fam(t) = "c") \/ (s = "i" /\ t \in {"q", "h"})
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Frac(p, q) == LET g == Gcd(Abs(p), Abs(q)) s == IF q < 0 THEN -1 ELSE 1 IN <<(s * p) \div g, (s * q) \div g>>
Trunc0(x, y) == LET s == (IF x < 0 THEN -1 ELSE 1) * (IF y < 0 THEN -1 ELSE 1) IN s * (Abs(x) \div Abs(y))      \* towards zero
Exactly(x, y) == IF Assert(x % Abs(y) = 0, <<"not a multiple", x, y>>) THEN Trunc0(x, y) ELSE 0
\* an element as one of another type
Conv(s, t, x) ==
  CASE t = "i" -> <<U * Trunc0(x[1], U)>>
    [] Fam(t) = Fam(s) -> x
    [] Fam(t) = "c" -> <<x[1], 0>>
    [] t = "q" -> <<x[1] \div U, 1>>
    [] t = "h" -> <<x[1] \div U, 0, 0, 0>>
Zero(t) == CASE Fam(t) = "r" -> <<0>> [] Fam(t) = "c" -> <<0, 0>> [] t = "q" -> <<0, 1>> [] t = "h" -> <<0, 0, 0, 0>>
One(t) == Conv("i", t, <<U>>)
Add1(t, x, y) == IF t = "q" THEN Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2]) ELSE [k \in 1..Len(x) |-> x[k] + y[k]]
Neg1(t, x) == IF t = "q" THEN <<-x[1], x[2]>> ELSE [k \in 1..Len(x) |-> -x[k]]
Sub1(t, x, y) == Add1(t, x, Neg1(t, y))
Mul1(t, x, y) ==
  CASE Fam(t) = "r" -> <<Exactly(x[1] * y[1], U)>>
    [] Fam(t) = "c" -> <<Exactly(x[1] * y[1] - x[2] * y[2], U), Exactly(x[1] * y[2] + x[2] * y[1], U)>>
    [] t = "q" -> Frac(x[1] * y[1], x[2] * y[2])
    [] t = "h" -> << x[1]*y[1] - x[2]*y[2] - x[3]*y[3] - x[4]*y[4], x[1]*y[2] + x[2]*y[1] + x[3]*y[4] - x[4]*y[3],
                     x[1]*y[3] - x[2]*y[4] + x[3]*y[1] + x[4]*y[2], x[1]*y[4] + x[2]*y[3] - x[3]*y[2] + x[4]*y[1] >>
Div1(t, x, y) ==
  CASE t = "i" -> <<U * Trunc0(x[1], y[1])>>
    [] Fam(t) = "r" -> <<Exactly(x[1] * U, y[1])>>
    [] Fam(t) = "c" -> LET q == y[1] * y[1] + y[2] * y[2] IN <<Exactly((x[1] * y[1] + x[2] * y[2]) * U, q), Exactly((x[2] * y[1] - x[1] * y[2]) * U, q)>>
    [] t = "q" -> Frac(x[1] * y[2], x[2] * y[1])
\* x (of type s) op y (of type t): both become the type of the result first
Op(o, s, t, x, y) ==
  LET r == RT(s, t) p == Conv(s, r, x) q == Conv(t, r, y) IN
  CASE o = "+" -> Add1(r, p, q) [] o = "-" -> Sub1(r, p, q) [] o = "*" -> Mul1(r, p, q) [] o = "/" -> Div1(r, p, q)
RECURSIVE SumOf(_, _, _)
SumOf(t, xs, k) == IF k = 0 THEN Zero(t) ELSE Add1(t, SumOf(t, xs, k - 1), xs[k])
Total(t, xs) == SumOf(t, xs, Len(xs))
------------------------------------------------------------------------------
(* Vectors and matrices *)
V(t, x) == [t |-> t, x |-> x]
M(t, r, c, d) == [t |-> t, r |-> r, c |-> c, d |-> d]
EAt(p, i, j) == p.d[(i - 1) * p.c + j]
MatOf(t, r, c, F(_, _)) == M(t, r, c, TLCEval([k \in 1..(r * c) |-> F(((k - 1) \div c) + 1, ((k - 1) % c) + 1)]))
Pairwise(o, v, w) == V(RT(v.t, w.t), [k \in 1..Len(v.x) |-> Op(o, v.t, w.t, v.x[k], w.x[k])])
MPairwise(o, p, q) == M(RT(p.t, q.t), p.r, p.c, [k \in 1..Len(p.d) |-> Op(o, p.t, q.t, p.d[k], q.d[k])])
DotX(s, t, x, y) == Total(RT(s, t), [k \in 1..Len(x) |-> Op("*", s, t, x[k], y[k])])
DotV(v, w) == DotX(v.t, w.t, v.x, w.x)
RowX(p, i) == [j \in 1..p.c |-> EAt(p, i, j)]
ColX(p, j) == [i \in 1..p.r |-> EAt(p, i, j)]
MatVec(p, v) == V(RT(p.t, v.t), [i \in 1..p.r |-> DotX(p.t, v.t, RowX(p, i), v.x)])
VecMat(v, p) == V(RT(v.t, p.t), [j \in 1..p.c |-> DotX(v.t, p.t, v.x, ColX(p, j))])
MatMat(p, q) == LET F(i, j) == DotX(p.t, q.t, RowX(p, i), ColX(q, j)) IN MatOf(RT(p.t, q.t), p.r, q.c, F)
OuterOf(v, w) == LET F(i, j) == Op("*", v.t, w.t, v.x[i], w.x[j]) IN MatOf(RT(v.t, w.t), Len(v.x), Len(w.x), F)
MatDiag(p, v) == LET F(i, j) == Op("*", p.t, v.t, EAt(p, i, j), v.x[j]) IN MatOf(RT(p.t, v.t), p.r, p.c, F)
DiagMat(v, p) == LET F(i, j) == Op("*", v.t, p.t, v.x[i], EAt(p, i, j)) IN MatOf(RT(v.t, p.t), p.r, p.c, F)
CrossOf(v, w) ==
  LET P(i, j) == Op("*", v.t, w.t, v.x[i], w.x[j]) r == RT(v.t, w.t) IN
  V(r, << Sub1(r, P(2, 3), P(3, 2)), Sub1(r, P(3, 1), P(1, 3)), Sub1(r, P(1, 2), P(2, 1)) >>)
\* o: "*" right scalar, "l" left scalar, "/"
ScaleV(o, v, t, s) == V(IF o = "l" THEN RT(t, v.t) ELSE RT(v.t, t), [k \in 1..Len(v.x) |-> IF o = "l" THEN Op("*", t, v.t, s, v.x[k]) ELSE Op(o, v.t, t, v.x[k], s)])
ScaleM(o, p, t, s) == M(IF o = "l" THEN RT(t, p.t) ELSE RT(p.t, t), p.r, p.c, [k \in 1..Len(p.d) |-> IF o = "l" THEN Op("*", t, p.t, s, p.d[k]) ELSE Op(o, p.t, t, p.d[k], s)])
NegV(v) == V(v.t, [k \in 1..Len(v.x) |-> Neg1(v.t, v.x[k])])
NegM(p) == M(p.t, p.r, p.c, [k \in 1..Len(p.d) |-> Neg1(p.t, p.d[k])])
ConvV(v, t) == V(t, [k \in 1..Len(v.x) |-> Conv(v.t, t, v.x[k])])
ConvM(p, t) == M(t, p.r, p.c, [k \in 1..Len(p.d) |-> Conv(p.t, t, p.d[k])])
SameV(v, w) == \A k \in 1..Len(v.x) : Conv(v.t, RT(v.t, w.t), v.x[k]) = Conv(w.t, RT(v.t, w.t), w.x[k])
SameM(p, q) == \A k \in 1..Len(p.d) : Conv(p.t, RT(p.t, q.t), p.d[k]) = Conv(q.t, RT(p.t, q.t), q.d[k])
\* a scaled identity
IdM(t, k, st, s) == LET F(i, j) == IF i = j THEN Conv(st, t, s) ELSE Zero(t) IN MatOf(t, k, k, F)
OnesV(t, k, st, s) == V(t, [i \in 1..k |-> Conv(st, t, s)])
------------------------------------------------------------------------------
EInit == a = V("i", <<>>) /\ b = V("i", <<>>) /\ m = M("i", 0, 0, <<>>) /\ n = M("i", 0, 0, <<>>)
Set(a2, b2, m2, n2) == a' = a2 /\ b' = b2 /\ m' = m2 /\ n' = n2
\* results of expressions: the operands keep their values
Result(r, val) == r = val /\ UNCHANGED evars
Binary(o) ==
  CASE o = "a+b" -> Pairwise("+", a, b) [] o = "a-b" -> Pairwise("-", a, b) [] o = "b-a" -> Pairwise("-", b, a) [] o = "dg" -> Pairwise("*", a, b) [] o = "dgr" -> Pairwise("*", b, a)
    [] o = "m+n" -> MPairwise("+", m, n) [] o = "m-n" -> MPairwise("-", m, n) [] o = "n-m" -> MPairwise("-", n, m)
    [] o = "a*b" -> V(RT(a.t, b.t), <<DotV(a, b)>>) [] o = "b*a" -> V(RT(b.t, a.t), <<DotV(b, a)>>)
    [] o = "m*b" -> MatVec(m, b) [] o = "b*m" -> VecMat(b, m) [] o = "n*a" -> MatVec(n, a) [] o = "a*n" -> VecMat(a, n) [] o = "m*a" -> MatVec(m, a)
    [] o = "m*n" -> MatMat(m, n) [] o = "n*m" -> MatMat(n, m) [] o = "ab'" -> OuterOf(a, b) [] o = "ba'" -> OuterOf(b, a)
    [] o = "mdb" -> MatDiag(m, b) [] o = "bdm" -> DiagMat(b, m) [] o = "nda" -> MatDiag(n, a) [] o = "adn" -> DiagMat(a, n)
    [] o = "a^b" -> CrossOf(a, b) [] o = "b^a" -> CrossOf(b, a) [] o = "-a" -> NegV(a) [] o = "-m" -> NegM(m) [] o = "-b" -> NegV(b)
    [] o = "Db*a" -> Pairwise("*", b, a) [] o = "Da*n" -> DiagMat(a, n) [] o = "n*Da" -> MatDiag(n, a)
    [] o = "cav" -> ConvV(a, b.t) [] o = "cbv" -> ConvV(b, a.t) [] o = "cam" -> ConvM(m, n.t) [] o = "cbm" -> ConvM(n, m.t)
Scaled(o, v, st, s) == IF v = "a" THEN ScaleV(o, a, st, s) ELSE ScaleM(o, m, st, s)
\* a op= b: the value of a op b (computed in the common type) becomes an element of a
VUpdate(o) == /\ Fits(b.t, a.t) = TRUE /\ a' = (IF o = "=" THEN ConvV(b, a.t) ELSE ConvV(Pairwise(o, a, b), a.t)) /\ UNCHANGED <<b, m, n>>
MUpdate(o) == /\ Fits(n.t, m.t) = TRUE /\ m' = (IF o = "=" THEN ConvM(n, m.t) ELSE ConvM(MPairwise(o, m, n), m.t)) /\ UNCHANGED <<a, b, n>>
\* a product becomes the value of a register
VProduct == a' = ConvV(MatVec(n, b), a.t) /\ UNCHANGED <<b, m, n>>
MProduct == m' = ConvM(MatMat(n, m), m.t) /\ UNCHANGED <<a, b, n>>
\* in place, the scalar is of the type of the elements
VScaled(o, s) == a' = ScaleV(o, a, a.t, s) /\ UNCHANGED <<b, m, n>>
MScaled(o, s) == m' = ScaleM(o, m, m.t, s) /\ UNCHANGED <<a, b, n>>
\* Ones and Identity, scaled by s of type st
VOnes(o, st, s) == a' = (LET w == OnesV(a.t, Len(a.x), st, s) IN IF o = "=" THEN w ELSE Pairwise(o, a, w)) /\ UNCHANGED <<b, m, n>>
MIdent(o, st, s) == m' = (LET w == IdM(m.t, m.r, st, s) IN IF o = "=" THEN w ELSE MPairwise(o, m, w)) /\ UNCHANGED <<a, b, n>>
Compare(eq, ne, meq, mne) == eq = SameV(a, b) /\ ne = ~SameV(a, b) /\ meq = SameM(m, n) /\ mne = ~SameM(m, n) /\ UNCHANGED evars
------------------------------------------------------------------------------
(* Algorithms on rational numbers are exact.  A is a matrix of integers; the  *)
(* matrix of the computation is A/den.                                        *)
Power(x, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN x ELSE IF k = 2 THEN x * x ELSE IF k = 3 THEN x * x * x ELSE x * x * x * x
QIs(x, p, q) == x = Frac(p, q)
DetQ(A, den, r) == QIs(r, Det(A), Power(den, A.r)) /\ UNCHANGED evars
\* Cramer's rule
WithCol(A, j, v) == LET F(i, k) == IF k = j THEN v[i] ELSE At(A, i, k) IN Mat(A.r, A.c, F)
SolveIs(A, den, v, x) == Len(x) = A.r /\ \A j \in 1..A.r : QIs(x[j], Det(WithCol(A, j, v)) * den, Det(A))
SolveQ(A, den, v, x) == Det(A) # 0 /\ SolveIs(A, den, v, x) /\ UNCHANGED evars
\* several right hand sides, the columns of B; X in row-major order
SolveMQ(A, den, B, X) == Det(A) # 0 /\ (\A k \in 1..B.c : SolveIs(A, den, Col(B, k), [i \in 1..A.r |-> X[(i - 1) * B.c + k]])) /\ UNCHANGED evars
Lead(A, k) == MSliceOf(A, 0, 0, k, k)
\* rows 1..j-1 and i, columns 1..j
Mixed(A, i, j) == LET F(p, q) == At(A, IF p = j THEN i ELSE p, q) IN Mat(j, j, F)
\* A/den = L D L^T
LdlQ(A, den, L, D) ==
  /\ \A k \in 1..A.r : Det(Lead(A, k)) # 0
  /\ \A i, j \in 1..A.r : LET x == L[(i - 1) * A.r + j] y == D[(i - 1) * A.r + j] IN
       /\ IF i < j THEN x = <<0, 1>> ELSE IF i = j THEN x = <<1, 1>> ELSE QIs(x, Det(Mixed(A, i, j)), Det(Lead(A, j)))
       /\ IF i # j THEN y = <<0, 1>> ELSE QIs(y, Det(Lead(A, i)), den * Det(Lead(A, i - 1)))
  /\ UNCHANGED evars
==============================================================================
