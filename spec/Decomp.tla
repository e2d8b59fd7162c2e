------------------------------- MODULE Decomp -------------------------------
(* Linear systems, determinants and matrix decompositions (C10, C11, C12,    *)
(* C21, C22, C23).  A decomposition object is described by the matrix it was *)
(* last given (by construction or by compute(), whatever it held before), and *)
(* every query is a function of that matrix alone.  The functions without an  *)
(* object (gaussian_elimination, gauss_jordan, determinant) are queries on    *)
(* the matrix they are passed.  Matrices are integer matrices, so what is     *)
(* required of a computed result is stated exactly; the result itself is a    *)
(* limb number (module Limb), and Tol is the working precision of its type.   *)
EXTENDS Limb

VARIABLES a,     \* the matrix
          p,     \* precision: "f", "d", "l"
          cd     \* an upper bound of the (pseudo) condition number of a
dvars == <<a, p, cd>>

NLimb == IF p = "f" THEN 3 ELSE IF p = "d" THEN 4 ELSE 6
\* k rounding errors of unit size, in units of the last limb
Eps(k) == IF p = "f" THEN 12 * k + 8 ELSE IF p = "d" THEN k \div 4500 + 8 ELSE 11 * k + 8
MaxAbs(m) == IF Len(m.d) = 0 THEN 1 ELSE Max2(1, MaxSeq(VAbs(m.d)))
RowSum(m, i) == Sum(VAbs(Row(m, i)))
Norm1(m) == IF m.r = 0 THEN 0 ELSE MaxSeq([i \in 1..m.r |-> RowSum(m, i)])
RECURSIVE HadTo(_, _)
HadTo(m, i) == IF i = 0 THEN 1 ELSE Max2(1, RowSum(m, i)) * HadTo(m, i - 1)
Hadamard(m) == HadTo(m, m.r)
Square == a.r = a.c
Sized(m, r, c) == m.r = r /\ m.c = c /\ Len(m.d) = r * c
Solves(x, b, k) == LMNearInt(x, b, k)      \* x is near the integer matrix b

------------------------------------------------------------------------------
Given(m, prec, cnd) == a' = m /\ p' = prec /\ cd' = cnd

(* A X = rhs.  x is the integer solution *)
SolveTol(x) == Eps(6 * a.r * cd * MaxAbs(x))
SolveOK(rhs, x, res) ==
  /\ MMul(a, x) = rhs
  /\ Sized(res, a.c, rhs.c)
  /\ LMNearInt(res, x, SolveTol(x))
(* X A = I = A X *)
InverseOK(res) ==
  LET t == Eps(6 * a.r * cd * MaxAbs(a)) + a.r * MaxAbs(a) IN      \* the second term: the result was rounded to limbs
  /\ Sized(res, a.r, a.r) /\ LMatOK(res)
  /\ LMNearInt(IMMul(a, res), MId(a.r), t) /\ LMNearInt(MIMul(res, a), MId(a.r), t)
(* [A|B] reduced in place to [I|X] *)
ReducedOK(full, x, res) ==
  LET n == full.r IN
  /\ MSliceOf(full, 0, 0, n, n) = a
  /\ MMul(a, x) = MSliceOf(full, 0, n, n, full.c - n)
  /\ Sized(res, n, full.c)
  /\ \A i \in 1..n : \A j \in 1..full.c :
       IF j <= n THEN NearInt(At(res, i, j), IF i = j THEN 1 ELSE 0, Eps(4)) ELSE NearInt(At(res, i, j), At(x, i, j - n), SolveTol(x))

DetTol == LET d == Abs(Det(a)) IN IF cd > 0 THEN Eps(4 * a.r * cd * Max2(1, d)) ELSE Eps(4 * a.r * Hadamard(a))
DetOK(res) == NearInt(res, Det(a), DetTol)
AbsDetOK(res) == NearInt(res, Abs(Det(a)), DetTol)

(* Cholesky: a is symmetric positive definite *)
CholTol == Eps(16 * a.r * a.r * cd) + 40 * a.r + 4 * a.r * MaxAbs(a)
UnitLowerOK(lo) == Sized(lo, a.r, a.r) /\ LMatOK(lo) /\ \A i, j \in 1..a.r : (j > i => At(lo, i, j) = LZero(NLimb)) /\ (i = j => At(lo, i, i) = LInt(1, NLimb))
LowerOK(lo) == Sized(lo, a.r, a.r) /\ LMatOK(lo) /\ \A i, j \in 1..a.r : (j > i => At(lo, i, j) = LZero(NLimb)) /\ (i = j => LSgn(At(lo, i, i), 0) = 1)
LDLOK(lo, dg) ==
  /\ UnitLowerOK(lo) /\ Sized(dg, a.r, a.r) /\ LMatOK(dg)
  /\ \A i, j \in 1..a.r : IF i = j THEN LSgn(At(dg, i, i), 0) = 1 ELSE At(dg, i, j) = LZero(NLimb)
  /\ LMNearInt(UDW(lo, DiagOf(dg), MT(lo)), a, CholTol)
LLTOK(lo) == LowerOK(lo) /\ LMNearInt(LMMul(lo, MT(lo), NLimb), a, CholTol)
\* v' A^-1 v, given the integer vector x with A x = v
MahalanobisOK(v, x, res) == MVec(a, x) = v /\ NearInt(res, Dot(v, x), Eps(6 * a.r * cd * Max2(1, Sum(VAbs(v))) * MaxSeq(VAbs(x) \o <<1>>)))

(* SVD *)
MinDim == Min2(a.r, a.c)
FacTol == Eps(32 * Max2(a.r, a.c) * Norm1(a)) + 30 + 2 * Max2(a.r, a.c) * Norm1(a)     \* the last term: the factors were rounded to limbs
OrthTol == Eps(64 * Max2(a.r, a.c)) + 10
NonNeg(d) == \A i \in 1..Len(d) : LSgn(d[i], 0) >= 0
Desc(d) == \A i \in 1..(Len(d) - 1) : LLeq(d[i + 1], d[i], 0)
Ascending(d) == \A i \in 1..(Len(d) - 1) : LLeq(d[i], d[i + 1], 0)
SVDOK(u, d, vt) ==
  /\ Sized(u, a.r, MinDim) /\ Len(d) = MinDim /\ Sized(vt, MinDim, a.c)
  /\ LMatOK(u) /\ LMatOK(vt) /\ NonNeg(d) /\ Desc(d)
  /\ Orthonormal(u, OrthTol) /\ Orthonormal(MT(vt), OrthTol)
  /\ LMNearInt(UDW(u, d, vt), a, FacTol)
\* the Golub-Reinsch version has a.c singular values, also for wide matrices; the columns of U that belong
\* to zero singular values are then not determined
GRSVDOK(u, d, v, ordered) ==
  /\ Sized(u, a.r, a.c) /\ Len(d) = a.c /\ Sized(v, a.c, a.c)
  /\ LMatOK(u) /\ LMatOK(v) /\ NonNeg(d) /\ (ordered => Desc(d))
  /\ (a.r >= a.c => Orthonormal(u, OrthTol)) /\ Orthonormal(v, OrthTol)
  /\ LMNearInt(UDW(u, d, MT(v)), a, FacTol)
\* the singular values of a monomial matrix (at most one nonzero entry in each row and column) are its entries' sizes;
\* those that the condition threshold drops are not part of the matrix that is inverted
Kept(x, condition) == Abs(x) * condition > MaxSeq(VAbs(a.d))
RECURSIVE CountKept(_, _)
CountKept(k, condition) == IF k = 0 THEN 0 ELSE CountKept(k - 1, condition) + (IF Kept(a.d[k], condition) THEN 1 ELSE 0)
Dropped(condition) == LET G(x) == IF Kept(x, condition) THEN x ELSE 0 IN MMap(a, G)
Monomial == /\ \A i \in 1..a.r : Cardinality({j \in 1..a.c : At(a, i, j) # 0}) <= 1
            /\ \A j \in 1..a.c : Cardinality({i \in 1..a.r : At(a, i, j) # 0}) <= 1
RankMonomial(condition, res) == Monomial /\ res = CountKept(Len(a.d), condition)
\* rank by elimination modulo a prime that no minor of a small matrix reaches
PM == 46337
RECURSIVE RankRows(_, _, _)
RankRows(rows, c, n) ==
  IF c > n \/ Len(rows) = 0 THEN 0
  ELSE IF \A i \in 1..Len(rows) : rows[i][c] = 0 THEN RankRows(rows, c + 1, n)
  ELSE LET k == CHOOSE i \in 1..Len(rows) : rows[i][c] # 0
           pv == rows[k]
           Others == SubSeq(rows, 1, k - 1) \o SubSeq(rows, k + 1, Len(rows))
           Red(x) == ((x % PM) + PM) % PM
       IN 1 + RankRows([i \in 1..Len(Others) |-> [j \in 1..n |-> Red(Red(Others[i][j] * pv[c]) - Red(Others[i][c] * pv[j]))]], c + 1, n)
RankOf(m) == RankRows([i \in 1..m.r |-> [j \in 1..m.c |-> ((At(m, i, j) % PM) + PM) % PM]], 1, m.c)
\* a threshold well below the ratio of the singular values and well above working precision counts the nonzero ones
RankOK(condition, res) == IF condition > 4 * cd THEN res = RankOf(a) ELSE RankMonomial(condition, res)
\* reciprocals of the singular values, zero for those that are dropped
RecipOK(d, inv) == /\ Len(inv) = Len(d)
                   /\ \A i \in 1..Len(d) : ~LBad(d[i]) /\ ~LBad(inv[i])
                        /\ IF Small(d[i], FacTol) THEN inv[i] = LZero(NLimb) ELSE NearInt(Trunc(LMul(d[i], inv[i]), NLimb), 1, Eps(4 * cd) + Norm1(a) + 2)
PinvTol(m) == Eps(32 * Max2(a.r, a.c) * Max2(cd, 1) * Norm1(m)) + 30 + 4 * Max2(a.r, a.c) * MaxAbs(m) * MaxAbs(m)
\* the Moore-Penrose conditions: determine the pseudo-inverse
MoorePenrose(m, x) ==
  LET mx == IMMul(m, x) xm == MIMul(x, m) t == PinvTol(m) n == Limbs(x) IN
  /\ Sized(x, m.c, m.r) /\ LMatOK(x)
  /\ LMNearInt(MIMul(mx, m), m, t)
  /\ LMNear(LMMul(xm, x, n), x, t)
  /\ LMSym(mx, t) /\ LMSym(xm, t)
PinvOK(x) == MoorePenrose(a, x)
PinvDroppedOK(condition, x) == Monomial /\ MoorePenrose(Dropped(condition), x)
\* back substitution is multiplication by the pseudo-inverse
BacksubIsPinv(x, rhs, res) == LMNear(res, MIMul(x, rhs), Eps(16 * Max2(a.r, a.c) * Max2(cd, 1) * MaxAbs(rhs) * Norm1(a)) + 30 * MaxAbs(rhs))
RECURSIVE LProdTo(_, _, _)
LProdTo(d, k, n) == IF k = 1 THEN d[1] ELSE Trunc(LMul(LProdTo(d, k - 1, n), d[k]), n)

(* Symmetric eigenproblem: rows of v are the eigenvectors *)
EigenOK(d, v) ==
  /\ Len(d) = a.r /\ Sized(v, a.r, a.r) /\ LMatOK(v)
  /\ Ascending(d) /\ Orthonormal(MT(v), OrthTol)
  /\ LMNearInt(UDW(MT(v), d, v), a, FacTol)
LeadingMinor(k) == Det(MSliceOf(a, 0, 0, k, k))
PosDef == \A k \in 1..a.r : LeadingMinor(k) > 0
NegDef == \A k \in 1..a.r : LeadingMinor(k) * (IF k % 2 = 0 THEN 1 ELSE -1) > 0
SqrtOK(s) == Sized(s, a.r, a.r) /\ LMatOK(s) /\ LMSym(s, FacTol) /\ LMNearInt(LMMul(MT(s), s, NLimb), a, FacTol)
ISqrtOK(s) == Sized(s, a.r, a.r) /\ LMatOK(s) /\ LMSym(s, PinvTol(a)) /\ LMNearInt(IMMul(a, LMMul(MT(s), s, NLimb)), MId(a.r), Eps(64 * a.r * cd * Norm1(a)) + 60 * Norm1(a))
InvDiagOK(d, inv) == Len(inv) = Len(d) /\ \A i \in 1..Len(d) : ~LBad(inv[i]) /\ ~LBad(d[i]) /\ NearInt(Trunc(LMul(d[i], inv[i]), NLimb), 1, Eps(16 * cd) + 2 * Norm1(a))

(* QR: at least as many columns as rows *)
Trapezoidal(r) == \A i \in 1..r.r : \A j \in 1..r.c : j < i => At(r, i, j) = LZero(NLimb)
PermuteCols(m, pv) == LET F(i, j) == At(m, i, pv[j] + 1) IN Mat(m.r, m.c, F)
IsPerm(pv, n) == Len(pv) = n /\ {pv[i] : i \in 1..n} = 0..(n - 1)
QROK(q, r, pv) ==
  /\ Sized(q, a.r, a.r) /\ Sized(r, a.r, a.c) /\ LMatOK(q) /\ LMatOK(r)
  /\ IsPerm(pv, a.c) /\ Trapezoidal(r) /\ Orthonormal(q, OrthTol)
  /\ LMNearInt(LMMul(q, r, NLimb), PermuteCols(a, pv), FacTol)
\* pivoting puts the largest remaining column first
LAbs(s) == IF LSgn(s, 0) < 0 THEN LNeg(s) ELSE s
PivotOrder(r) == \A i \in 1..(a.r - 1) : LLeq(LAbs(At(r, i + 1, i + 1)), LAbs(At(r, i, i)), Eps(64 * Norm1(a)))

(* LU: lower triangle with diagonal, and upper triangle with unit diagonal, in one matrix *)
LPart(m) == LET F(i, j) == IF j <= i THEN At(m, i, j) ELSE LZero(NLimb) IN Mat(m.r, m.c, F)
UPart(m) == LET F(i, j) == IF j > i THEN At(m, i, j) ELSE IF i = j THEN LInt(1, NLimb) ELSE LZero(NLimb) IN Mat(m.r, m.c, F)
ColCount(m, c) == Cardinality({j \in 1..m.c : Col(m, j) = c})
RoundL(s) == Norm(s)[1]
LUOK(lu) ==
  /\ Sized(lu, a.r, a.r) /\ LMatOK(lu)
  /\ LET pr == LMMul(LPart(lu), UPart(lu), NLimb)
         ri == LET G(s) == RoundL(s) IN MMap(pr, G)
     IN /\ LMNearInt(pr, ri, FacTol)
        /\ \A j \in 1..a.c : ColCount(ri, Col(a, j)) = ColCount(a, Col(a, j))
=============================================================================
