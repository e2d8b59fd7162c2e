-------------------------------- MODULE MCDiag --------------------------------
EXTENDS Diag
CONSTANTS MaxN, Vals
V(n) == [1..n -> Vals]
Init == \E n \in 0..MaxN : src \in V(n) /\ own \in V(n) /\ alias = FALSE
Next == \/ View \/ (\E v \in V(Len(src)) : NewOwn(v) \/ NewSrc(v) \/ SetSlice(v))
        \/ \E i \in 1..Len(src), x \in Vals : SetD(i, x) \/ SetSrc(i, x)
Spec == Init /\ [][Next]_vars
(* dense and diagonal ways of computing agree, and multiplication by a diagonal scales rows / columns *)
N == Len(D)
Elementwise == \A v \in V(N) : DV(v) = VMulE(D, v) /\ VD(v) = DV(v) /\ DD(v) = MDiag(VMulE(D, v))
Rows == \A v \in V(N) : LET m == ColAsMat(v) IN DM(m) = ColAsMat(VMulE(D, v)) /\ MD(RowAsMat(v)) = RowAsMat(VMulE(D, v))
Transposed == \A u, v \in V(N) : LET m == Outer(u, v) IN MT(DM(m)) = MD(MT(m))
Inverse == (\A i \in 1..N : D[i] # 0) => MMul(InvD60, Dense) = MScale(MId(N), 60)
(* the owner's elements change only through itself; a view and its vector are one *)
Sharing == [][(alias /\ alias') => D' = src']_vars
Independent == [][(~alias /\ ~alias' /\ src # src' /\ Len(src) = Len(src')) => own' = own]_vars
=============================================================================
