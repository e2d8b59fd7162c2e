------------------------------ MODULE MCSimplex ------------------------------
(* The algorithm of the documentation, with any objective function: every     *)
(* value of a point is chosen when the point is first evaluated.              *)
EXTENDS Simplex
CONSTANTS N, Depth, Vals
VARIABLES memo, depth, last
vars == <<sim, memo, depth, last>>
L3 == 3
Start == [i \in 1..N |-> LInt(i, L3)]
Sp == LInt(4, L3)
Known(mm, p) == \E k \in DOMAIN mm : mm[k].x = p
ValueOf(mm, p) == LET k == CHOOSE j \in DOMAIN mm : mm[j].x = p IN mm[k].f
Choices(mm) == Vals
\* all ways to evaluate the points ps in order
RECURSIVE Answers(_, _)
Answers(mm, ps) ==
  IF ps = <<>> THEN {<<mm, <<>>>>}
  ELSE UNION {LET m2 == IF Known(mm, ps[1]) THEN mm ELSE Append(mm, [x |-> ps[1], f |-> f]) IN {<<a[1], <<[x |-> ps[1], f |-> f]>> \o a[2]>> : a \in Answers(m2, Tail(ps))}
              : f \in IF Known(mm, ps[1]) THEN {ValueOf(mm, ps[1])} ELSE Choices(mm)}
Pts(s, c) == [i \in Vertices(s) |-> Around(c, Sp, i)]
Proto == [n |-> N, L |-> L3, x |-> <<>>, v |-> <<>>]
Init == /\ depth = 0
        /\ \E a \in Answers(<<>>, Pts(Proto, Start)) : memo = a[1] /\ last = a[2] /\ sim = [n |-> N, L |-> L3, x |-> Pts(Proto, Start), v |-> [i \in 1..(N + 1) |-> a[2][i].f], al |-> One(L3), rho |-> LInt(2, L3), ga |-> <<0, 5000, 0>>, sg |-> <<0, 5000, 0>>]
First(S) == CHOOSE i \in S : \A j \in S : i <= j
\* one step as an algorithm: the set of [s, ev, m]
ShrinkStep(s, b, mm, ev) == LET ps == [i \in 1..s.n |-> LET k == IF i < b THEN i ELSE i + 1 IN Shrunk(s, b, k)] IN
  {[s |-> [s EXCEPT !.x = [i \in Vertices(s) |-> IF i = b THEN s.x[b] ELSE Shrunk(s, b, i)],
                    !.v = [i \in Vertices(s) |-> IF i = b THEN s.v[b] ELSE a[2][IF i < b THEN i ELSE i - 1].f]], ev |-> ev \o a[2], m |-> a[1]] : a \in Answers(mm, ps)}
Algorithm(s, mm) ==
  LET w == First(Worst(s)) b == First(Best(s)) lo == Lowest(s.v) IN
  UNION {LET e1 == a[2][1] IN
         IF e1.f < lo THEN {[s |-> IF c[2][1].f < e1.f THEN Repl(s, w, c[2][1].x, c[2][1].f) ELSE Repl(s, w, e1.x, e1.f), ev |-> <<e1>> \o c[2], m |-> c[1]] : c \in Answers(a[1], <<Expanded(s, w)>>)}
         ELSE IF e1.f < SecondWorst(s, w) THEN {[s |-> Repl(s, w, e1.x, e1.f), ev |-> <<e1>>, m |-> a[1]]}
         ELSE IF e1.f < s.v[w] THEN UNION {IF c[2][1].f <= e1.f THEN {[s |-> Repl(s, w, c[2][1].x, c[2][1].f), ev |-> <<e1>> \o c[2], m |-> c[1]]} ELSE ShrinkStep(s, b, c[1], <<e1>> \o c[2]) : c \in Answers(a[1], <<Contracted(s, w)>>)}
         ELSE ShrinkStep(s, b, a[1], <<e1>>)
        : a \in Answers(mm, <<Reflected(s, w)>>)}
Next == \/ depth < Depth /\ depth' = depth + 1 /\ \E o \in Algorithm(sim, memo) : sim' = o.s /\ memo' = o.m /\ last' = o.ev
        \/ /\ depth < Depth /\ depth' = depth + 1
           /\ LET c == sim.x[First(Best(sim))] IN \E a \in Answers(memo, Pts(sim, c)) : memo' = a[1] /\ last' = a[2] /\ sim' = [sim EXCEPT !.x = Pts(sim, c), !.v = [i \in Vertices(sim) |-> a[2][i].f]]
Spec == Init /\ [][Next]_vars
TypeOK == Len(sim.x) = N + 1 /\ Len(sim.v) = N + 1 /\ \A i \in Vertices(sim) : Len(sim.x[i]) = N
\* values[i] = f(simplex[i])
InStep == \A i \in Vertices(sim) : Known(memo, sim.x[i]) /\ ValueOf(memo, sim.x[i]) = sim.v[i]
ExtremesOK == Best(sim) # {} /\ Worst(sim) # {} /\ \A b \in Best(sim), i \in Vertices(sim) : sim.v[b] <= sim.v[i]
\* the algorithm makes documented moves, and no move is a step uphill for the best value
Refines == [][(\E r \in {sim'} : MoveOK(sim, last', r, 4)) \/ Fresh(sim'.x, sim.x[First(Best(sim))], Sp, 0)]_vars
Descends == [][Lowest(sim'.v) <= Lowest(sim.v)]_vars
=============================================================================
