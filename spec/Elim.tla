-------------------------------- MODULE Elim --------------------------------
(* Elimination with row exchanges, as a machine over the field of P elements  *)
(* where every step is exact: the algorithm behind gaussian_elimination,      *)
(* gauss_jordan, determinant and LU.  Any nonzero pivot may be chosen (the     *)
(* implementation chooses the largest).  Checked: the solutions of the system  *)
(* never change, the determinant is the signed product of the pivots, and a    *)
(* column without a pivot means a determinant of zero.                         *)
EXTENDS LinAlg, TLC
CONSTANTS P, N, K, Full     \* field size, unknowns, right-hand sides, TRUE for Gauss-Jordan
VARIABLES m0, m, col, sign, prod, phase
evars == <<m0, m, col, sign, prod, phase>>
F == 0..(P - 1)
Inv(x) == CHOOSE y \in F : (x * y) % P = 1
Red(x) == ((x % P) + P) % P
RedM(a) == MMap(a, Red)
Init == /\ m0 \in {[r |-> N, c |-> N + K, d |-> d] : d \in [1..(N * (N + K)) -> F]}
        /\ m = m0 /\ col = 1 /\ sign = 1 /\ prod = 1 /\ phase = "reduce"
Exchange(a, i, j) == LET G(r, c) == At(a, IF r = i THEN j ELSE IF r = j THEN i ELSE r, c) IN Mat(a.r, a.c, G)
\* subtract multiples of row k from the rows below it (from all others when Full); the pivot row is scaled to have pivot 1
Clear(a, k) ==
  LET iv == Inv(At(a, k, k))
      Piv(c) == Red(At(a, k, c) * iv)
      G(r, c) == IF r = k THEN Piv(c) ELSE IF r > k \/ Full THEN Red(At(a, r, c) - At(a, r, k) * Piv(c)) ELSE At(a, r, c)
  IN Mat(a.r, a.c, G)
Reduce == /\ phase = "reduce" /\ col <= N
          /\ \E r \in col..N :
               /\ At(m, r, col) # 0
               /\ LET x == Exchange(m, r, col) IN
                    /\ prod' = Red(prod * At(x, col, col))
                    /\ m' = Clear(x, col)
               /\ sign' = IF r = col THEN sign ELSE -sign
               /\ col' = col + 1
          /\ UNCHANGED <<m0, phase>>
Singular == /\ phase = "reduce" /\ col <= N /\ \A r \in col..N : At(m, r, col) = 0
            /\ phase' = "singular" /\ UNCHANGED <<m0, m, col, sign, prod>>
\* back substitution: one row at a time, from the last
Back == /\ phase = "reduce" /\ col = N + 1
        /\ phase' = "back" /\ col' = N /\ UNCHANGED <<m0, m, sign, prod>>
Subst == /\ phase = "back" /\ col >= 1
         /\ LET G(r, c) == IF r = col /\ c > col THEN (IF c <= N THEN 0 ELSE Red(At(m, r, c) - Sum([j \in 1..(N - col) |-> At(m, r, col + j) * At(m, col + j, c)]))) ELSE At(m, r, c)
            IN m' = Mat(N, N + K, G)
         /\ col' = col - 1 /\ UNCHANGED <<m0, sign, prod, phase>>
Done == phase = "back" /\ col = 0 /\ phase' = "solved" /\ UNCHANGED <<m0, m, col, sign, prod>>
Next == Reduce \/ Singular \/ Back \/ Subst \/ Done
Spec == Init /\ [][Next]_evars /\ WF_evars(Next)

Left(a) == MSliceOf(a, 0, 0, N, N)
Right(a) == MSliceOf(a, 0, N, N, K)
SolvesCol(a, x, k) == \A i \in 1..N : Red(Dot(SubSeq(Row(a, i), 1, N), x) - At(a, i, N + k)) = 0
SameSolutions == \A x \in [1..N -> F] : \A k \in 1..K : SolvesCol(m0, x, k) <=> SolvesCol(m, x, k)
DetTracked == phase \in {"reduce", "singular"} => Red(Det(Left(m0))) = Red(sign * prod * Det(Left(m)))
SingularIsZero == phase = "singular" => Red(Det(Left(m0))) = 0
Solved == phase = "solved" => /\ Left(m) = MId(N)
                              /\ RedM(MMul(Left(m0), Right(m))) = Right(m0)
                              /\ Red(sign * prod) = Red(Det(Left(m0))) /\ Red(sign * prod) # 0
Ends == <>(phase \in {"solved", "singular"})
=============================================================================
