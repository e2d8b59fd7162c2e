------------------------------- MODULE GenArith ------------------------------
(* Behaviours of the register machine, to be replayed on the real objects.   *)
(* The generator walks the specification's own transitions, so every script  *)
(* is a behaviour of Arith; only small register contents are continued.      *)
EXTENDS Arith, TLC, Json, Randomization
CONSTANT Depth
VARIABLE hist
gvars == <<m, v, hist>>

R(S) == RandomElement(S)
Vals(n) == [i \in 1..n |-> R(-4..4)]
Load(d) == /\ m' = [i \in 1..4 |-> [r |-> 3, c |-> 3, d |-> [k \in 1..9 |-> d[(i - 1) * 9 + k]]]]
           /\ v' = [i \in 1..4 |-> [k \in 1..3 |-> d[36 + (i - 1) * 3 + k]]]
           /\ hist' = Append(hist, <<"load">> \o d)
Init == /\ m = << >> /\ v = << >> /\ hist = << >>
Small == /\ \A i \in 1..4 : MBound(m[i], 3000) /\ VBound(v[i], 3000)
Next ==
  IF m = << >> \/ ~Small THEN \E d \in {Vals(48)} : Load(d)
  ELSE \E f \in {R(MOps \cup VOps)} : \E d \in {R(1..4)} : \E a \in {R(1..4)} : \E b \in {R(1..4)} :
       \E s \in {IF f \in {"setrow", "setcol", "vrow", "vcol"} THEN R(0..2) ELSE IF f = "divexact" THEN R({2, -3}) ELSE R(-3..3)} :
         /\ Step(f, d, a, b, s)
         /\ hist' = Append(hist, <<f, d - 1, a - 1, b - 1, s>>)
Spec == Init /\ [][Next]_gvars
Emit == (Len(hist) = Depth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
