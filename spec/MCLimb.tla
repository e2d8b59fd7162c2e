------------------------------ MODULE MCLimb ------------------------------
(* The limb arithmetic is exact: with a small base, every product of numbers  *)
(* of three limbs is compared with the product of the integers they stand for *)
EXTENDS Limb, TLC
SmallB == 6
D == -(SmallB \div 2)..(SmallB \div 2)
Numbers == [1..3 -> D]
Value(s) == s[1] * B * B + s[2] * B + s[3]                  \* in units of the third limb
VARIABLES x, y
Init == x \in Numbers /\ y \in Numbers
Next == FALSE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
\* a product has four limbs: its exact value needs five, the omitted part is below B * B/4 of the sixth-limb unit
Value4(s) == s[1] * B * B * B + s[2] * B * B + s[3] * B + s[4]
NormKeeps == LET s == [k \in 1..3 |-> x[k] * 7 + y[k]] IN Value(Norm(s)) = Value(s) /\ \A k \in 2..3 : Abs(Norm(s)[k]) <= B \div 2
AddExact == Value(LAdd(x, y)) = Value(x) + Value(y) /\ Value(LSub(x, y)) = Value(x) - Value(y)
\* Value(x) * Value(y) is in units of 1/B^4; LMul keeps everything down to 1/B^3, the rest is x[3] * y[3]
MulClose == LET pr == Value(x) * Value(y) IN pr = Value4(LMul(x, y)) * B + x[3] * y[3]
SmallOK == \A t \in {0, 1, 5} : Small(x, t) <=> Abs(Value(x)) <= t
NearOK == \A n \in {0, 1} : NearInt(x, n, 3) <=> Abs(Value(x) - n * B * B) <= 3
SignOK == LSgn(x, 0) = Sgn(Value(x)) /\ (LLeq(x, y, 0) <=> Value(x) <= Value(y))
=============================================================================
