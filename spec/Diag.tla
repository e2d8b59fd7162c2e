---------------------------------- MODULE Diag --------------------------------
(* C09.  A DiagonalMatrix is the dense matrix MDiag(its diagonal).  The state  *)
(* is a source vector and one diagonal matrix, which either owns its diagonal *)
(* or is as_diagonal() of the source and then shares its elements.            *)
EXTENDS LinAlg
VARIABLES src, own, alias
vars == <<src, own, alias>>
D == IF alias THEN src ELSE own
Dense == MDiag(D)

NewOwn(v) == own' = v /\ alias' = FALSE /\ UNCHANGED src        \* from a vector, an operator or element by element
NewSrc(v) == src' = v /\ own' = D /\ alias' = FALSE             \* the previous diagonal keeps its values
View == alias' = TRUE /\ UNCHANGED <<src, own>>
SetD(i, x) == /\ i \in 1..Len(D)
              /\ IF alias THEN src' = [src EXCEPT ![i] = x] /\ UNCHANGED own
                 ELSE own' = [own EXCEPT ![i] = x] /\ UNCHANGED src
              /\ UNCHANGED alias
SetSrc(i, x) == i \in 1..Len(src) /\ src' = [src EXCEPT ![i] = x] /\ UNCHANGED <<own, alias>>
SetSlice(v) == /\ Len(v) = Len(D)                               \* through diagonal_slice()
               /\ IF alias THEN src' = v /\ UNCHANGED own ELSE own' = v /\ UNCHANGED src
               /\ UNCHANGED alias
(* What each operation returns, as dense matrices or vectors *)
DV(v) == MVec(Dense, v)
VD(v) == VMat(v, Dense)
DM(m) == MMul(Dense, m)
MD(m) == MMul(m, Dense)
DD(u) == MMul(Dense, MDiag(u))
NegD == MNeg(Dense)
(* inverse, in units of 1/60 (the diagonal divides 60) *)
InvD60 == MDiag([i \in 1..Len(D) |-> Sgn(D[i]) * (60 \div Abs(D[i]))])
=============================================================================
