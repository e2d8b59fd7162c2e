------------------------------ MODULE MCBracket ------------------------------
(* Bracketing by doubling and halving steps, for any function along the ray   *)
(* (which becomes a number again towards the origin).                         *)
EXTENDS CG
CONSTANTS K,      \* the first step is 2^K grid units
          Top,    \* after this many doublings the function must not go lower
          Vals
VARIABLES ev, st, av, a, b, c, lam, good, fac
vars == <<cg, ev, st, av, a, b, c, lam, good, fac>>
NaN == -1
O == [p |-> 0, v |-> 0]
Init == cg = <<>> /\ ev = <<>> /\ st = "first" /\ av \in Vals /\ a = [p |-> 0, v |-> av] /\ b = O /\ c = O /\ lam = 2^K /\ good = 0 /\ fac = 0
Z == 1
Ask(p, S) == LET k == {i \in 1..Len(ev) : ev[i].p = p} IN IF k # {} THEN {LET e == ev[CHOOSE i \in k : TRUE] IN IF e.nan THEN NaN ELSE e.v} ELSE S
Log(p, v) == ev' = Append(ev, [p |-> p, v |-> (IF v = NaN THEN 0 ELSE v), nan |-> (v = NaN)])
Lim == 2^(K + Top)
First == st = "first" /\ \E v \in Ask(lam, IF lam > 1 THEN Vals \cup {NaN} ELSE Vals) : Log(lam, v) /\
           IF v = NaN THEN lam' = lam \div 2 /\ UNCHANGED <<st, a, b, c, good, fac>>
           ELSE /\ b' = [p |-> lam, v |-> v] /\ good' = lam /\ UNCHANGED <<a, lam, fac>>
                /\ IF v < av THEN st' = "up" /\ UNCHANGED c ELSE st' = "down" /\ c' = [p |-> lam, v |-> v]
Up == st = "up" /\ LET x == 2 * lam IN \E v \in Ask(x, IF x >= Lim THEN {w \in Vals : w > b.v} \cup {NaN} ELSE Vals \cup {NaN}) : Log(x, v) /\ lam' = x /\
           IF v = NaN THEN st' = "nan" /\ fac' = 1 /\ UNCHANGED <<a, b, c, good>>
           ELSE IF v > b.v THEN st' = "done" /\ c' = [p |-> x, v |-> v] /\ UNCHANGED <<a, b, good, fac>>
           ELSE a' = b /\ b' = [p |-> x, v |-> v] /\ good' = x /\ UNCHANGED <<st, c, fac>>
Nan == st = "nan" /\ LET x == good + (lam - good) \div (2^fac) IN \E v \in Ask(x, IF (lam - good) \div (2^fac) > 1 THEN Vals \cup {NaN} ELSE Vals) : Log(x, v) /\ UNCHANGED <<a, b, lam, good>> /\
           IF v = NaN THEN fac' = fac + 1 /\ UNCHANGED <<st, c>> ELSE st' = "done" /\ c' = [p |-> x, v |-> v] /\ UNCHANGED fac
Down == st = "down" /\ LET x == lam \div 2 IN \E v \in Ask(x, Vals) : Log(x, v) /\ lam' = x /\ UNCHANGED <<a, good, fac>> /\ b' = [p |-> x, v |-> v] /\
           IF v < av THEN st' = "done" /\ UNCHANGED c ELSE IF x <= Z THEN st' = "none" /\ UNCHANGED c ELSE c' = [p |-> x, v |-> v] /\ UNCHANGED st
Next == (First \/ Up \/ Nan \/ (lam > 1 /\ Down)) /\ UNCHANGED <<cg, av>>
Spec == Init /\ [][Next]_vars
Sound == st \in {"done", "none"} => BracketOK(av, ev, 2^K, Z, st = "none", a, b, c)
\* and the relation is not satisfied by a bracket that is shifted by one point or by pretending that there is none
Strict == st = "done" => ~BracketOK(av, ev, 2^K, Z, TRUE, a, b, c) /\ (b.v < c.v => ~BracketOK(av, ev, 2^K, Z, FALSE, a, c, b))
===============================================================================
