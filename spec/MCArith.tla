------------------------------- MODULE MCArith -------------------------------
(* The register machine with small constants, explored exhaustively, and the *)
(* algebraic laws that make LinAlg's definitions the intended ones.          *)
EXTENDS Arith, TLC
CONSTANTS N, Bound, MaxLevel, Scalars, Wide

M1 == LET F(i, j) == i - j IN Mat(N, N, F)
M2 == LET F(i, j) == IF i = j THEN 1 ELSE IF i < j THEN -1 ELSE 0 IN Mat(N, N, F)
Init == /\ m \in IF Wide THEN {<<M1, M2>>, <<M2, MConst(N, N, 1)>>} ELSE {<<M1, M2>>}
        /\ v \in IF Wide THEN {<<VUnit(N, 1), VConst(N, -1)>>, <<[i \in 1..N |-> i - 1], VUnit(N, N)>>} ELSE {<<VUnit(N, 1), VConst(N, -1)>>}
Next == \E f \in (MOps \cup VOps) \ {"cross"} : \E d, a, b \in 1..2 :
          \E s \in (IF f \in {"setrow", "setcol", "vrow", "vcol"} THEN 0..(N - 1) ELSE Scalars) : Step(f, d, a, b, s)
Spec == Init /\ [][Next]_mvars

Bounded == /\ TLCGet("level") <= MaxLevel
           /\ \A i \in 1..2 : MBound(m[i], Bound) /\ VBound(v[i], Bound)

Shapes == \A i \in 1..2 : m[i].r = N /\ m[i].c = N /\ WellFormed(m[i]) /\ Len(v[i]) = N
Laws == \A i, j \in 1..2 :
  LET a == m[i] b == m[j] x == v[i] y == v[j] IN
  /\ MT(MMul(a, b)) = MMul(MT(b), MT(a))
  /\ MVec(MMul(a, b), x) = MVec(a, MVec(b, x))
  /\ VMat(x, a) = MVec(MT(a), x)
  /\ Dot(VMat(x, a), y) = Dot(x, MVec(a, y))
  /\ MMul(a, MAdd(a, b)) = MAdd(MMul(a, a), MMul(a, b))
  /\ Det(MMul(a, b)) = Det(a) * Det(b) /\ Det(MT(a)) = Det(a)
  /\ MMul(a, Adjugate(a)) = MScale(MId(N), Det(a))
  /\ MVec(Outer(x, y), y) = VScale(x, Dot(y, y))
  /\ MMul(a, MId(N)) = a /\ MSub(a, a) = MConst(N, N, 0)
  /\ MMul(ColAsMat(x), RowAsMat(y)) = Outer(x, y)
(* Exactly the destination register may change: operands are never modified *)
OneWrite == [][ /\ Cardinality({i \in 1..2 : m'[i] # m[i]}) + Cardinality({i \in 1..2 : v'[i] # v[i]}) <= 1 ]_mvars
=============================================================================
