------------------------------ MODULE MCDecomp ------------------------------
(* The required relations determine what they are meant to determine: for     *)
(* every small matrix that has exact factors, the exact factors are accepted,  *)
(* every change of one element or one sign that breaks the factorisation is    *)
(* rejected, and among all candidate matrices only the pseudo-inverse is one.  *)
EXTENDS Decomp
CONSTANT W                       \* columns; two rows
D == 4                             \* limbs of a double
L(x) == LInt(x, D)
LM(m) == MMap(m, L)
Half == <<0, 5000, 0, 0>>
Vals == {-2, -1, 0, 1, 2}
Matrices == {m \in {[r |-> 2, c |-> W, d |-> d] : d \in [1..(2 * W) -> Vals]} :
               /\ \A i \in 1..2 : Cardinality({j \in 1..W : At(m, i, j) # 0}) <= 1
               /\ \A j \in 1..W : Cardinality({i \in 1..2 : At(m, i, j) # 0}) <= 1}
Init == a \in Matrices /\ p = "d" /\ cd = 2
Next == FALSE /\ UNCHANGED dvars
Spec == Init /\ [][Next]_dvars
\* the exact singular value decomposition of a matrix with at most one entry per row and column
RowVal(i) == Sum([j \in 1..W |-> At(a, i, j)])
ColOf(i) == IF RowVal(i) = 0 THEN 0 ELSE CHOOSE j \in 1..W : At(a, i, j) # 0
First == IF Abs(RowVal(1)) >= Abs(RowVal(2)) THEN 1 ELSE 2
Ord == <<First, 3 - First>>
Sing == [k \in 1..2 |-> Abs(RowVal(Ord[k]))]
\* an empty row gets a free column
FreeCol(k, taken) == CHOOSE j \in 1..W : j \notin taken
VCol == LET c1 == IF ColOf(Ord[1]) # 0 THEN ColOf(Ord[1]) ELSE FreeCol(1, {ColOf(Ord[2])})
            c2 == IF ColOf(Ord[2]) # 0 THEN ColOf(Ord[2]) ELSE FreeCol(2, {c1})
        IN <<c1, c2>>
SgnOf(i) == IF RowVal(i) < 0 THEN -1 ELSE 1
U0 == LET F(i, k) == IF i = Ord[k] THEN SgnOf(i) ELSE 0 IN Mat(2, 2, F)
VT0 == LET F(k, j) == IF j = VCol[k] THEN 1 ELSE 0 IN Mat(2, W, F)
D0 == [k \in 1..2 |-> L(Sing[k])]
ExactAccepted == SVDOK(LM(U0), D0, LM(VT0))
Changed(m, k, x) == [m EXCEPT !.d[k] = x]
\* any other value of an element of a factor is rejected, except where both it and its partner are free in sign
URejects == \A k \in 1..4 : \A x \in Vals : x # U0.d[k] /\ ~(Sing[2] = 0 /\ x = -U0.d[k]) /\ ~(Sing[1] = 0 /\ x = -U0.d[k]) => ~SVDOK(LM(Changed(U0, k, x)), D0, LM(VT0))
DRejects == \A k \in 1..2 : \A x \in Vals : x # Sing[k] => ~SVDOK(LM(U0), [D0 EXCEPT ![k] = L(x)], LM(VT0))
OrderRejects == Sing[1] # Sing[2] => ~SVDOK(LM(LET F(i, k) == At(U0, i, 3 - k) IN Mat(2, 2, F)), <<D0[2], D0[1]>>, LM(LET F(k, j) == At(VT0, 3 - k, j) IN Mat(2, W, F)))
\* pseudo-inverse
PVals == {Half, LNeg(Half), L(0), L(1), L(-1)}
Recip(x) == CASE x = 2 -> Half [] x = -2 -> LNeg(Half) [] OTHER -> L(x)
Pinv0 == LET G(x) == Recip(x) IN MMap(MT(a), G)
Candidates == {[r |-> W, c |-> 2, d |-> d] : d \in [1..(2 * W) -> PVals]}
PinvDetermined == IF W = 2 THEN \A x \in Candidates : PinvOK(x) <=> x = Pinv0 ELSE PinvOK(Pinv0) /\ \A k \in 1..(2 * W) : \A v \in PVals : v # Pinv0.d[k] => ~PinvOK(Changed(Pinv0, k, v))
RankIs == RankOf(a) = Cardinality({k \in 1..(2 * W) : a.d[k] # 0}) /\ RankMonomial(1000, RankOf(a))
Threshold == Monomial /\ RankMonomial(2, Cardinality({k \in 1..(2 * W) : 2 * Abs(a.d[k]) > MaxSeq(VAbs(a.d))}))
\* every permutation of the columns is accepted by QR only with the matching pivots
Perms == {<<0, 1>>, <<1, 0>>}
QRPivots == W = 2 => \A q \in {MId(2), [r |-> 2, c |-> 2, d |-> <<0, 1, 1, 0>>]} : \A pv \in Perms :
              LET r0 == MMul(MT(q), PermuteCols(a, pv)) IN
                (At(r0, 2, 1) = 0) => /\ QROK(LM(q), LM(r0), pv)
                                      /\ (PermuteCols(a, pv) # a => ~QROK(LM(q), LM(r0), <<0, 1>>))
\* eigenvalues of symmetric monomial matrices: a permuted order or a changed value is rejected
SymIdent == W = 2 /\ IsSym(a) /\ At(a, 1, 2) = 0
EigenDetermined == SymIdent => LET lo == IF At(a, 1, 1) <= At(a, 2, 2) THEN 1 ELSE 2
                                   V == LET F(k, j) == IF j = (IF k = 1 THEN lo ELSE 3 - lo) THEN 1 ELSE 0 IN Mat(2, 2, F)
                                   E == <<At(a, lo, lo), At(a, 3 - lo, 3 - lo)>> IN
                     /\ EigenOK(<<L(E[1]), L(E[2])>>, LM(V))
                     /\ \A x \in Vals : x # E[1] => ~EigenOK(<<L(x), L(E[2])>>, LM(V))
                     /\ (E[1] # E[2] => ~EigenOK(<<L(E[2]), L(E[1])>>, LM(LET F(k, j) == At(V, 3 - k, j) IN Mat(2, 2, F))) /\ ~EigenOK(<<L(E[1]), L(E[2])>>, LM(LET F(k, j) == At(V, 3 - k, j) IN Mat(2, 2, F))))
                     /\ PosDef = (E[1] > 0) /\ NegDef = (E[2] < 0)
\* LU: the factors in one matrix, columns permuted
LUAccepted == W = 2 => \A pv \in Perms : LET m == PermuteCols(a, pv) IN
                 (At(m, 1, 1) \in {1, -1}) => LUOK(LM([r |-> 2, c |-> 2, d |-> <<At(m, 1, 1), At(m, 1, 1) * At(m, 1, 2), At(m, 2, 1), At(m, 2, 2) - At(m, 2, 1) * At(m, 1, 1) * At(m, 1, 2)>>]))
=============================================================================
