--------------------------------- MODULE Ldl --------------------------------
(* The LDL^T decomposition as a machine over the field of P elements, where    *)
(* every step is exact: one column of L and one element of D per step, reading *)
(* only the lower half of the matrix.  Checked: what is not yet decomposed is  *)
(* exactly the remainder, the decomposition ends with L D L^T = A and its       *)
(* determinant, or at the first zero pivot with the number of columns done.     *)
(* Computing again on the same object forgets everything.                       *)
EXTENDS LinAlg, TLC
CONSTANTS P, N, Again      \* Again: how often compute() may be called
VARIABLES a,               \* the lower half that was given (a symmetric matrix)
          lo, dg, rest,    \* unit lower L (columns below col done), diagonal, remainder
          col, rank, left
lvars == <<a, lo, dg, rest, col, rank, left>>
F == 0..(P - 1)
Red(x) == ((x % P) + P) % P
Inv(x) == CHOOSE y \in F : (x * y) % P = 1
NTri == (N * (N + 1)) \div 2
\* symmetric matrix from a packed lower half
Sym(h) == LET G(i, j) == IF j <= i THEN h[(i * (i - 1)) \div 2 + j] ELSE h[(j * (j - 1)) \div 2 + i] IN Mat(N, N, G)
Matrices == {Sym(h) : h \in [1..NTri -> F]}
Start(m) == a' = m /\ lo' = MId(N) /\ dg' = [i \in 1..N |-> 0] /\ rest' = m /\ col' = 1 /\ rank' = -1
Init == /\ a \in Matrices /\ lo = MId(N) /\ dg = [i \in 1..N |-> 0] /\ rest = a /\ col = 1 /\ rank = -1 /\ left = Again
Column ==
  /\ rank = -1 /\ col <= N /\ At(rest, col, col) # 0
  /\ LET d == At(rest, col, col)
         LC(i) == Red(At(rest, i, col) * Inv(d))
         GL(i, j) == IF j = col /\ i > col THEN LC(i) ELSE At(lo, i, j)
         GR(i, j) == IF i <= col \/ j <= col THEN 0 ELSE IF j <= i THEN Red(At(rest, i, j) - LC(i) * At(rest, j, col)) ELSE Red(At(rest, j, i) - LC(j) * At(rest, i, col))
     IN lo' = Mat(N, N, GL) /\ dg' = [dg EXCEPT ![col] = d] /\ rest' = Mat(N, N, GR)
  /\ col' = col + 1 /\ UNCHANGED <<a, rank, left>>
ZeroPivot == rank = -1 /\ col <= N /\ At(rest, col, col) = 0 /\ rank' = col - 1 /\ UNCHANGED <<a, lo, dg, rest, col, left>>
Full == rank = -1 /\ col = N + 1 /\ rank' = N /\ UNCHANGED <<a, lo, dg, rest, col, left>>
Compute == rank # -1 /\ left > 0 /\ left' = left - 1 /\ \E m \in Matrices : Start(m)
Next == Column \/ ZeroPivot \/ Full \/ Compute
Spec == Init /\ [][Next]_lvars /\ WF_lvars(Column \/ ZeroPivot \/ Full)

RedM(m) == MMap(m, Red)
LDL == MMul(MMul(lo, MDiag(dg)), MT(lo))
Remainder == RedM(MAdd(LDL, rest)) = a
UnitLower == \A i, j \in 1..N : (i = j => At(lo, i, j) = 1) /\ (j > i => At(lo, i, j) = 0)
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE Red(s[k] * ProdTo(s, k - 1))
\* the product of the first pivots is the leading minor
Minors == \A k \in 1..(col - 1) : ProdTo(dg, k) = Red(Det(MSliceOf(a, 0, 0, k, k)))
FullRank == rank = N <=> (col = N + 1 /\ rank # -1)
Decomposed == rank = N => RedM(LDL) = a /\ ProdTo(dg, N) = Red(Det(a)) /\ Red(Det(a)) # 0
RankIsLeadingMinors == rank \in 0..(N - 1) => /\ \A k \in 1..rank : Red(Det(MSliceOf(a, 0, 0, k, k))) # 0
                                             /\ Red(Det(MSliceOf(a, 0, 0, rank + 1, rank + 1))) = 0
Ends == <>[](rank # -1) \/ []<>(rank # -1)
=============================================================================
