------------------------------ MODULE MCUnsized ------------------------------
EXTENDS Unsized, TLC
CONSTANTS MaxDim, Bound
Shapes == {<<r, c>> : r \in 0..MaxDim, c \in 0..MaxDim}
Init == \/ \E sh \in Shapes : obj = [t |-> "m", m |-> LET F(i, j) == i - j IN Mat(sh[1], sh[2], F)]
        \/ \E n \in 0..MaxDim : obj = [t |-> "v", v |-> [i \in 1..n |-> i - 1]]
Xs == IF obj.t = "m" THEN {MExpr(h, obj.m, MK(w, s, 1, obj.m.r, obj.m.c)) : h \in EHow, w \in {"Ones", "Identity"}, s \in {1, 2}} ELSE {}
Next == \/ \E what \in {"Zeros", "Ones", "Identity"}, s \in {-1, 2, 4}, dv \in {1, -2, 2}, how \in MHow : s % Abs(dv) = 0 /\ MStep(what, s, dv, how, obj)
        \/ \E what \in {"Zeros", "Ones"}, s \in {-1, 2, 4}, dv \in {1, -2, 2}, how \in MHow : s % Abs(dv) = 0 /\ VStep(what, s, dv, how, obj)
Spec == Init /\ [][Next]_obj
Bounded == IF obj.t = "m" THEN MBound(obj.m, Bound) ELSE VBound(obj.v, Bound)
(* unsized operands never change the dimensions *)
SameDims == [][IF obj.t = "m" THEN SameShape(obj.m, obj'.m) /\ WellFormed(obj'.m) ELSE Len(obj'.v) = Len(obj.v)]_obj
(* adding a multiple of Identity changes the diagonal only; Ones shifts every element equally *)
Kinds == [][obj.t = "m" => LET D == MSub(obj'.m, obj.m) IN
              \/ obj'.m.d = VConst(Len(obj.m.d), 0)
              \/ \E k \in -16..16 : D = MScale(MConst(D.r, D.c, 1), k) \/ (D.r = D.c /\ D = MScale(MId(D.r), k))
              \/ \E k \in -16..16 : obj'.m = MConst(D.r, D.c, k) \/ (D.r = D.c /\ obj'.m = MScale(MId(D.r), k))]_obj
IdentityLaw == obj.t = "m" /\ obj.m.r = obj.m.c => MMul(obj.m, MK("Identity", 1, 1, obj.m.r, obj.m.c)) = obj.m
=============================================================================
