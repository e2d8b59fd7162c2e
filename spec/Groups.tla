------------------------------- MODULE Groups --------------------------------
(* Transformation groups (C14, C15) and SL(n), matrix exp, log, sqrt (C24):   *)
(* so2.h, se2.h, sim2.h, so3.h, se3.h, sim3.h, sl.h, helpers.h.              *)
(* An element is a rotation R, a translation t and a scale s; what it means  *)
(* is its homogeneous matrix.  Every operation is defined by that matrix.    *)
(* The numbers are limb numbers (module Limb), all of the same length.       *)
EXTENDS Limb

VARIABLE regs      \* the elements at hand, by number: [g, R, t, s, k, p]; k counts the operations in its history, p is "f" if any was in single precision
Planar == {"SO2", "SE2", "SIM2"}
Rotations == {"SO2", "SO3"}
Affine == {"SE2", "SE3", "SIM2", "SIM3"}
Dim(x) == x.R.r
HDim(g) == IF g \in {"SO2"} THEN 2 ELSE IF g \in {"SO3", "SE2", "SIM2"} THEN 3 ELSE 4
DoF(g) == CASE g = "SO2" -> 1 [] g = "SE2" -> 3 [] g = "SIM2" -> 4 [] g = "SO3" -> 3 [] g = "SE3" -> 6 [] g = "SIM3" -> 7

IntL(m, lim) == LET G(x) == LInt(x, lim) IN MMap(m, G)
TMul(a, b) == Trunc(LMul(a, b), Len(a))
LMScale(m, s) == LET G(x) == TMul(x, s) IN MMap(m, G)
LMNeg(m) == LET G(x) == LNeg(x) IN MMap(m, G)
LMPlus(a, b) == [a EXCEPT !.d = TLCEval([k \in 1..Len(a.d) |-> Norm(LAdd(a.d[k], b.d[k]))])]
LMMinus(a, b) == [a EXCEPT !.d = TLCEval([k \in 1..Len(a.d) |-> Norm(LSub(a.d[k], b.d[k]))])]
LMSliceOf(m, r0, c0, r, c) == LET F(i, j) == At(m, r0 + i, c0 + j) IN Mat(r, c, F)
LCol(v) == [r |-> Len(v), c |-> 1, d |-> v]

\* the homogeneous matrix
Hom(x) ==
  IF x.g \notin Affine THEN x.R
  ELSE LET n == Dim(x) lim == Len(x.s)
           one == x.s = LInt(1, lim)
           F(i, j) == IF i <= n /\ j <= n THEN (IF one THEN At(x.R, i, j) ELSE TMul(At(x.R, i, j), x.s)) ELSE IF i <= n THEN x.t[i] ELSE LInt(IF j > n THEN 1 ELSE 0, lim)
       IN Mat(n + 1, n + 1, F)

(* Tolerances: units of the last limb for a sum of products of two numbers, M bounds the sums of the products' sizes *)
\* lim = 4: unit 10^-12 (float rounds at 6 10^-8); lim = 5: unit 10^-16, double only
Tol(p, lim, M) == IF p = "f" THEN 30 + (IF M > 300 THEN 300 ELSE M) * 300000 ELSE IF lim = 4 THEN 12 + 4 * M ELSE 20 + 12 * M
TolK(p, lim, M, k) == LET t == Tol(p, lim, M) IN IF t > 90000000 \div (k + 1) THEN 90000000 ELSE t * (k + 1)
CeilAbs(s) == IF s[1] # 0 THEN Abs(s[1]) + 1 ELSE IF Len(s) > 1 /\ s[2] # 0 THEN 1 ELSE 1
RECURSIVE SumAbsK(_, _)
SumAbsK(v, k) == IF k = 0 THEN 0 ELSE SumAbsK(v, k - 1) + CeilAbs(v[k])
RowMag(m) == MaxSeq([i \in 1..m.r |-> SumAbsK(Row(m, i), m.c)])       \* largest row sum
ElMag(m) == MaxSeq([k \in 1..Len(m.d) |-> CeilAbs(m.d[k])])            \* largest element
Mag2(a, b) == RowMag(a) * ElMag(b)

LClose(a, b, tol) == LMatOK(a) /\ LMatOK(b) /\ LMNear(a, b, tol)
------------------------------------------------------------------------------
(* Membership *)
RECURSIVE LDetM(_)
LDetM(m) ==
  IF m.r = 1 THEN m.d[1]
  ELSE LET T(j) == LET pr == TMul(At(m, 1, j), LDetM(Minor(m, 1, j))) IN IF j % 2 = 1 THEN pr ELSE LNeg(pr)
           S[j \in 0..m.c] == IF j = 0 THEN LZero(Limbs(m)) ELSE Norm(LAdd(S[j - 1], T(j)))
       IN S[m.c]
DetOne(m, tol) == NearInt(LDetM(m), 1, tol)
IsRotation(R, tol) == LMatOK(R) /\ R.r = R.c /\ LMNearInt(LMMul(R, MT(R), Limbs(R)), MId(R.r), tol) /\ DetOne(R, tol)
\* k operations behind it: each may add a rounding error of its own
Member(x, p) ==
  LET lim == Limbs(x.R) IN
  IF x.g = "SL" THEN LMatOK(x.R) /\ DetOne(x.R, TolK(p, lim, RowMag(x.R) * RowMag(x.R), x.k))
  ELSE /\ IsRotation(x.R, TolK(p, lim, 4, x.k))
       /\ \A i \in 1..Len(x.t) : ~LBad(x.t[i])
       /\ x.g \in Affine => Len(x.t) = Dim(x)
       /\ x.g \in {"SIM2", "SIM3"} => ~LBad(x.s) /\ LSgn(x.s, 0) = 1
       /\ x.g \notin {"SIM2", "SIM3"} => x.s = LInt(1, lim)
Worse(p, q) == IF p = "f" \/ q = "f" THEN "f" ELSE "d"
Set(i, x) == regs' = (i :> x) @@ regs
------------------------------------------------------------------------------
(* Operations: i is the register that gets the result, x what the implementation says it is (its k is set here). *)
(* They hold when its homogeneous matrix is the one the operation defines. *)
Larger(g, h) == IF HDim(g) >= HDim(h) THEN g ELSE h
\* a rotation or rigid motion as an element of a bigger group, as in SO3 * SE3 and SIM3 * SE3
Lift(m, n) == IF m.r = n THEN m ELSE LET F(a, b) == IF a <= m.r /\ b <= m.r THEN At(m, a, b) ELSE LInt(IF a = b THEN 1 ELSE 0, Limbs(m)) IN Mat(n, n, F)
Forget == regs' = <<>>
New(i, x, p) == Member(x, p) /\ Set(i, x)
NewId(i, x, p) == x.t = [k \in 1..Len(x.t) |-> LZero(Limbs(x.R))] /\ x.s = LInt(1, Limbs(x.R)) /\ x.R = IntL(MId(Dim(x)), Limbs(x.R)) /\ Set(i, x)
Product(i, a, b, x, p) ==
  LET ha == Hom(regs[a]) hb == Hom(regs[b]) n == Max2(ha.r, hb.r) A == Lift(ha, n) C == Lift(hb, n) y == [x EXCEPT !.k = regs[a].k + regs[b].k + 1, !.p = Worse(p, Worse(regs[a].p, regs[b].p))] IN
  /\ LClose(Hom(x), LMMul(A, C, Limbs(A)), Tol(p, Limbs(A), Mag2(A, C) + 4))
  /\ Member(y, y.p)
  /\ Set(i, y)
Inverse(i, a, x, p) ==
  LET A == Hom(regs[a]) X == Hom(x) n == A.r y == [x EXCEPT !.k = regs[a].k + 1, !.p = Worse(p, regs[a].p)]
      \* an inverse computed by elimination is as good as the condition of the matrix allows
      t == TolK(y.p, Limbs(A), 4 * (Mag2(A, X) + Mag2(X, A)), regs[a].k)
  IN
  /\ LClose(LMMul(A, X, Limbs(A)), IntL(MId(n), Limbs(A)), t)
  /\ LClose(LMMul(X, A, Limbs(A)), IntL(MId(n), Limbs(A)), t)
  /\ Member(y, y.p)
  /\ Set(i, y)
Copy(i, a, x) == [x EXCEPT !.k = regs[a].k, !.p = regs[a].p] = regs[a] /\ Set(i, regs[a])
Peek(a, x) == [x EXCEPT !.k = regs[a].k, !.p = regs[a].p] = regs[a] /\ UNCHANGED regs
(* Actions on integer operands: columns from the left, rows from the right, points (a 1 is appended to them) *)
Sized(m, tol, x) == m.r = x.r /\ m.c = x.c /\ LClose(m, x, tol)
IMagC(m) == MaxSeq([k \in 1..Len(m.d) |-> Abs(m.d[k]) + 1])
ActL(a, X, out, p) == LET A == Hom(regs[a]) IN X.r = A.r /\ Sized(out, Tol(p, Limbs(A), RowMag(A) * IMagC(X)), MIMul(A, X)) /\ UNCHANGED regs
ActR(a, X, out, p) == LET A == Hom(regs[a]) IN X.c = A.r /\ Sized(out, Tol(p, Limbs(A), RowMag(MT(A)) * IMagC(X)), IMMul(X, A)) /\ UNCHANGED regs
ActPoint(a, X, out, p) ==
  LET A == Hom(regs[a]) n == A.r - 1 Y == [r |-> n + 1, c |-> 1, d |-> Append(X.d, 1)] IN
  X.r = n /\ X.c = 1 /\ regs[a].g \in Affine /\ Sized(out, Tol(p, Limbs(A), RowMag(A) * IMagC(Y)), LMSliceOf(MIMul(A, Y), 0, 0, n, 1)) /\ UNCHANGED regs
------------------------------------------------------------------------------
(* The algebras: basis matrices.  Translations first, then the rotation, then the logarithm of the scale *)
RotGen3(i) == LET F(r, c) == IF r = (i % 3) + 1 /\ c = ((i + 1) % 3) + 1 THEN -1 ELSE IF r = ((i + 1) % 3) + 1 /\ c = (i % 3) + 1 THEN 1 ELSE 0 IN Mat(3, 3, F)   \* i = 1..3
Unit(n, a, b) == LET F(r, c) == IF r = a /\ c = b THEN 1 ELSE 0 IN Mat(n, n, F)
Gen(g, i) ==      \* i = 1..DoF(g)
  CASE g = "SO2" -> Mat(2, 2, LAMBDA r, c : IF r = c THEN 0 ELSE IF r < c THEN -1 ELSE 1)
    [] g = "SO3" -> RotGen3(i)
    [] g \in {"SE2", "SIM2"} -> IF i <= 2 THEN Unit(3, i, 3)
                                ELSE IF i = 3 THEN Mat(3, 3, LAMBDA r, c : IF r = 1 /\ c = 2 THEN -1 ELSE IF r = 2 /\ c = 1 THEN 1 ELSE 0)
                                ELSE Mat(3, 3, LAMBDA r, c : IF r = c /\ r < 3 THEN 1 ELSE 0)
    [] g \in {"SE3", "SIM3"} -> IF i <= 3 THEN Unit(4, i, 4)
                                ELSE IF i <= 6 THEN MReplace(MConst(4, 4, 0), 0, 0, RotGen3(i - 3))
                                ELSE Mat(4, 4, LAMBDA r, c : IF r = c /\ r < 4 THEN 1 ELSE 0)
\* SL(n): n - 1 diagonal ones, then for each pair of rows the symmetric ones, then the antisymmetric ones
Pairs(n) == LET S == {q \in (1..n) \X (1..n) : q[1] < q[2]} IN S
PairAt(n, k) == CHOOSE q \in Pairs(n) : Cardinality({r \in Pairs(n) : r[1] < q[1] \/ (r[1] = q[1] /\ r[2] < q[2])}) = k - 1
SLGen(n, i) ==
  LET m == (n * (n - 1)) \div 2 IN
  IF i < n THEN Mat(n, n, LAMBDA r, c : IF r = c /\ r = i THEN 1 ELSE IF r = c /\ r = i + 1 THEN -1 ELSE 0)
  ELSE LET sym == i < n + m q == PairAt(n, IF sym THEN i - n + 1 ELSE i - n - m + 1) IN
       Mat(n, n, LAMBDA r, c : IF r = q[1] /\ c = q[2] THEN (IF sym THEN 1 ELSE -1) ELSE IF r = q[2] /\ c = q[1] THEN 1 ELSE 0)
GenAt(g, n, i) == IF g = "SL" THEN SLGen(n, i) ELSE Gen(g, i)
NGen(g, n) == IF g = "SL" THEN n * n - 1 ELSE DoF(g)
\* the element of the algebra with coordinates v (limb numbers)
Hat(g, n, v) ==
  LET lim == Len(v[1]) G == [i \in 1..Len(v) |-> GenAt(g, n, i)]
      F(r, c) == LET S[i \in 0..Len(v)] == IF i = 0 THEN LZero(lim)
                        ELSE LET x == At(G[i], r, c) IN IF x = 0 THEN S[i - 1] ELSE LAdd(S[i - 1], IF x = 1 THEN v[i] ELSE LNeg(v[i])) IN Norm(S[Len(v)])
  IN Mat(G[1].r, G[1].c, F)

------------------------------------------------------------------------------
(* The exponential of a limb matrix: power series of m / 2^j, squared j times *)
LMDivI(m, n) == LET G(x) == LDivI(x, n) IN MMap(m, G)
Size4(s) == LET t == Norm(s) IN IF Abs(t[1]) > 2000 THEN 20000000 ELSE Abs(t[1]) * B + (IF Len(t) > 1 THEN Abs(t[2]) + 1 ELSE 0)       \* in units of 10^-4
RowSum4(m) == MaxSeq([i \in 1..m.r |-> LET S[j \in 0..m.c] == IF j = 0 THEN 0 ELSE S[j - 1] + Size4(At(m, i, j)) IN S[m.c]])
RECURSIVE Halvings(_)
Halvings(u) == IF u <= 4000 THEN 0 ELSE 1 + Halvings(u \div 2)
ZeroM(m) == \A k \in 1..Len(m.d) : SmallUnits(m.d[k]) = 0
RECURSIVE Series(_, _, _, _)
Series(h, term, sum, k) == IF ZeroM(term) \/ k > 30 THEN sum ELSE LET t == LMDivI(LMMul(term, h, Limbs(h)), k) IN Series(h, t, LMPlus(sum, term), k + 1)
RECURSIVE SquareN(_, _)
SquareN(m, j) == IF j = 0 THEN m ELSE SquareN(LMMul(m, m, Limbs(m)), j - 1)
Widen(m, by) == LET G(x) == x \o [i \in 1..by |-> 0] IN MMap(m, G)
Narrow(m, lim) == LET G(x) == Trunc(x, lim) IN MMap(m, G)
\* computed with one limb more than it is given
ExpM(m) ==
  LET w == Widen(m, 1) j == Halvings(RowSum4(w)) h == LMDivI(w, 2^j) id == IntL(MId(m.r), Limbs(w)) IN
  Narrow(SquareN(Series(h, id, IntL(MConst(m.r, m.r, 0), Limbs(w)), 1), j), Limbs(m))

(* exp, ln *)
RotPart(g, v) == IF g \in Planar THEN <<IF g = "SO2" THEN v[1] ELSE v[3]>> ELSE IF g = "SO3" THEN v ELSE SubSeq(v, 4, 6)
Angle2(g, v) == LET w == RotPart(g, v) IN Trunc(LDot(w, w), Len(w[1]))       \* square of the angle
Pi2 == <<9, 8696, 440, 1089, 3586, 1883>>                                     \* pi^2, pi
PiSq(lim) == SubSeq(Pi2, 1, lim)
MagV(v) == MaxSeq([i \in 1..Len(v) |-> CeilAbs(v[i])])
VOK(v) == \A i \in 1..Len(v) : ~LBad(v[i])
VClose(u, v, tol) == Len(u) = Len(v) /\ VOK(u) /\ VOK(v) /\ \A i \in 1..Len(u) : LNear(u[i], v[i], tol)
IsExp(g, n, v, x, p) ==      \* x = exp(v)
  LET H == Hom(x) IN VOK(v) /\ LMatOK(H) /\ LMNear(H, ExpM(Hat(g, n, v)), Tol(p, Limbs(H), 4 * ElMag(H) * MagV(v)))
\* SE2::ln and SE3::ln replace sin(x)/x by 1 below an angle of 10^-5: 10^-11 of the translation
TolLn(g, u, p, lim, M) == IF p = "d" /\ g \in {"SE2", "SE3"} /\ LSgn(LSub(Angle2(g, u), LInt(0, lim)), IF lim = 5 THEN 2000000 ELSE 200) = 0 THEN 60000 * M ELSE Tol(p, lim, M)
\* u = ln(x): exp(u) = x, and the angle is at most pi
IsLn(g, n, u, x, p) ==
  LET H == Hom(x) lim == Limbs(H) IN
  /\ VOK(u) /\ Len(u) = NGen(g, n)
  /\ LMNear(ExpM(Hat(g, n, u)), H, TolLn(g, u, p, lim, 8 * ElMag(H) * MagV(u)))
  /\ g # "SL" => LLeq(Angle2(g, u), PiSq(lim), Tol(p, lim, 20))
\* ln(exp(v)) = v: where the angle is less than pi
LnExp(g, n, v, u, p) == LET lim == Len(v[1]) IN
  (g = "SL" \/ LSgn(LSub(PiSq(lim), Angle2(g, v)), IF p = "f" THEN 90000000 ELSE 100000) = 1) => VClose(u, v, TolLn(g, v, p, lim, 25 * MagV(v)))

(* Adjoint: the matrix with hat(Ad v) = T hat(v) T^-1 *)
Coord(g, m, i) ==   \* coordinate i of an element m of the algebra
  CASE g = "SO2" -> At(m, 2, 1)
    [] g = "SO3" -> At(m, (((i + 1) % 3) + 1), (i % 3) + 1)
    [] g \in {"SE2", "SIM2"} -> IF i <= 2 THEN At(m, i, 3) ELSE IF i = 3 THEN At(m, 2, 1) ELSE At(m, 1, 1)
    [] g \in {"SE3", "SIM3"} -> IF i <= 3 THEN At(m, i, 4) ELSE IF i <= 6 THEN At(m, (((i - 3) + 1) % 3) + 1, ((i - 3) % 3) + 1) ELSE At(m, 1, 1)
\* T G_j T^-1 with both matrices of limb numbers
AdM(g, H, Hi) ==
  LET C == [j \in 1..DoF(g) |-> LMMul(MIMul(H, Gen(g, j)), Hi, Limbs(H))]
      F(i, j) == Coord(g, C[j], i)
  IN Mat(DoF(g), DoF(g), F)
IVecL(v, lim) == [k \in 1..Len(v) |-> LInt(v[k], lim)]
\* a = Ad_x v for an integer v
IsAdjoint(x, v, a, p) ==
  LET H == Hom(x) lim == Limbs(H) IN
  /\ VOK(a) /\ Len(a) = DoF(x.g) /\ Len(v) = DoF(x.g)
  /\ LClose(LMMul(Hat(x.g, 0, a), H, lim), LMMul(H, Hat(x.g, 0, IVecL(v, lim)), lim), Tol(p, lim, 4 * ElMag(H) * (MagV(a) + ElMag(H) * MaxSeq(VAbs(v)))))
\* xi is the inverse of x; all adjoint actions follow from the matrix
AdOK(x, xi, p) == LClose(LMMul(Hom(x), Hom(xi), Limbs(Hom(x))), IntL(MId(HDim(x.g)), Limbs(Hom(x))), Tol(p, Limbs(Hom(x)), 4 * Mag2(Hom(x), Hom(xi))))
IsTrInv(x, xi, u, a, p) ==      \* a.(Ad v) = u.v for every v
  LET A == AdM(x.g, Hom(x), Hom(xi)) lim == Limbs(A) IN
  AdOK(x, xi, p) /\ VOK(a) /\ Len(a) = DoF(x.g) /\ LClose(LMMul(MT(A), LCol(a), lim), IntL(ColAsMat(u), lim), Tol(p, lim, 3 * RowMag(MT(A)) * MagV(a)))
IsAdjointM(x, xi, M, out, p) == LET A == AdM(x.g, Hom(x), Hom(xi)) lim == Limbs(A) IN
  AdOK(x, xi, p) /\ Sized(out, Tol(p, lim, 6 * RowMag(A) * ElMag(A) * RowMag(IntL(M, lim))), LMMul(MIMul(A, M), MT(A), lim))
IsTrInvM(x, xi, M, out, p) == LET A == AdM(x.g, Hom(x), Hom(xi)) lim == Limbs(A) IN
  AdOK(x, xi, p) /\ LMatOK(out) /\ Sized(LMMul(LMMul(MT(A), out, lim), A, lim), Tol(p, lim, 6 * RowMag(MT(A)) * ElMag(A) * RowMag(out)), IntL(M, lim))

(* Rotations from something else *)
\* the rotation nearest in the sense of Gram-Schmidt to the rows of M: M R^T is lower triangular with a positive diagonal
IsCoerced(M, R, p) ==
  LET lim == Limbs(R) L == IMMul(M, MT(R)) t == Tol(p, lim, 30 * IMagC(M) * M.c) IN
  /\ IsRotation(R, Tol(p, lim, 40)) /\ M.r = R.r
  /\ \A i, j \in 1..M.r : IF j > i THEN Small(At(L, i, j), t) ELSE i = j => LSgn(At(L, i, i), t) = 1
\* takes direction a to direction b, about their common normal
IsBetween(a, b, R, p) ==
  LET lim == Limbs(R) n == Cross(a, b) Ra == [i \in 1..3 |-> Norm(IDot(a, Row(R, i), lim))]
      M == 12 * MaxSeq(VAbs(a)) * (MaxSeq(VAbs(b)) + 1)
      \* single precision to 10^-8: products of large numbers
      Tiny(y) == IF p = "f" THEN Small(Trunc(y, 3), 20 + 40 * M) ELSE Small(Norm(y), Tol(p, lim, M))
      cr == << IDot(<<b[3], -b[2]>>, <<Ra[2], Ra[3]>>, lim), IDot(<<b[1], -b[3]>>, <<Ra[3], Ra[1]>>, lim), IDot(<<b[2], -b[1]>>, <<Ra[1], Ra[2]>>, lim) >>
  IN
  /\ IsRotation(R, Tol(p, lim, 4))
  /\ IF n = <<0, 0, 0>> THEN R = IntL(MId(3), lim)
     ELSE /\ \A i \in 1..3 : Tiny(cr[i])
          /\ LSgn(Norm(IDot(b, Ra, lim)), 0) = 1
          /\ \A i \in 1..3 : Tiny(LSub(IDot(n, Row(R, i), lim), LInt(n[i], lim)))

(* Matrix functions and SL(n) *)
IsExpM(A, E, p) == LET lim == Limbs(A) IN LMatOK(A) /\ Sized(E, Tol(p, lim, 6 * RowMag(E) * RowMag(A)), ExpM(A))
\* exp(2^k N) = I + 2^k N for N of which the square is zero; E is the exponential times 2^-k, and 2^-k is nothing for k > 0 (60 at least)
IsExpNil(N, k, E, p) ==
  LET lim == Limbs(E) F(i, j) == LInt(At(N, i, j) + (IF i = j /\ k = 0 THEN 1 ELSE 0), lim) IN
  /\ \A i, j \in 1..N.r : LET S[n \in 0..N.r] == IF n = 0 THEN 0 ELSE S[n - 1] + At(N, i, n) * At(N, n, j) IN S[N.r] = 0
  /\ E.r = N.r /\ E.c = N.c /\ LMatOK(E) /\ LMNear(E, Mat(N.r, N.c, F), Tol(p, lim, 12 * N.r))
IsLogM(A, X, p) == LET lim == Limbs(A) E == ExpM(X) IN X.r = A.r /\ X.c = A.c /\ LMatOK(X) /\ LMatOK(A) /\ LMNear(E, A, Tol(p, lim, 20 * RowMag(A) * RowMag(X)))
\* log(2^k A) = log A + k ln 2
Ln2(lim) == [i \in 1..lim |-> <<0, 6931, 4718, 559, 9453>>[i]]
IsLogShift(k, X, Y, kappa, p) ==
  LET lim == Limbs(X) L == Ln2(lim) kl == Norm([i \in 1..lim |-> k * L[i]])
      F(i, j) == IF i = j THEN Norm(LAdd(At(X, i, j), kl)) ELSE At(X, i, j) IN
  /\ LMatOK(X) /\ LMatOK(Y) /\ X.r = Y.r /\ X.c = Y.c
  /\ LMNear(Y, Mat(X.r, X.c, F), Tol(p, lim, 12 * kappa * (Abs(k) + RowMag(X) + 1)))
IsSqrtM(A, X, kappa, p) == LET lim == Limbs(A) IN X.r = A.r /\ X.c = A.c /\ LMatOK(X) /\ LMatOK(A) /\ LMNear(LMMul(X, X, lim), A, Tol(p, lim, kappa * 4 * RowMag(X) * RowMag(X)))
\* R is M divided by a positive number, with determinant 1
IsScaled(M, R, p) ==
  LET lim == Limbs(R) t == Tol(p, lim, 8 * IMagC(M)) IN
  /\ LMatOK(R) /\ M.r = R.r /\ M.c = R.c /\ DetOne(R, Tol(p, lim, RowMag(R) * RowMag(R) * RowMag(R)))
  /\ \A k, j \in 1..Len(M.d) : k < j => Small(Norm(LSub([i \in 1..lim |-> R.d[k][i] * M.d[j]], [i \in 1..lim |-> R.d[j][i] * M.d[k]])), t)
  /\ \E k \in 1..Len(M.d) : M.d[k] # 0 /\ LSgn(R.d[k], 0) = Sgn(M.d[k])
=============================================================================
