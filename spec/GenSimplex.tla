------------------------------ MODULE GenSimplex -----------------------------
(* Random behaviours of MCSimplex as scripts: the dimension and, per step, the *)
(* values with which the objective function answers at new points.            *)
EXTENDS MCSimplex, Json, Randomization
VARIABLE hist
RChoices(mm) == {RandomElement(Vals)}
News(mm, ev) == LET S == SelectSeq(ev, LAMBDA e : ~Known(mm, e.x)) IN [i \in 1..Len(S) |-> S[i].f]
GInit == depth = 0 /\ hist = <<>> /\ sim = <<>> /\ memo = <<>> /\ last = <<>>
GStep(o, name) == sim' = o.s /\ memo' = o.m /\ last' = o.ev /\ hist' = Append(hist, <<name>> \o News(memo, o.ev))
Begin == /\ \E a \in Answers(<<>>, Pts(Proto, Start)) :
              GStep([s |-> [n |-> N, L |-> L3, x |-> Pts(Proto, Start), v |-> [i \in 1..(N + 1) |-> a[2][i].f], al |-> One(L3), rho |-> LInt(2, L3), ga |-> <<0, 5000, 0>>, sg |-> <<0, 5000, 0>>], m |-> a[1], ev |-> a[2]], "new")
GNext == /\ depth < Depth /\ depth' = depth + 1
         /\ IF depth = 0 THEN Begin
            ELSE \E z \in {RandomElement(1..9)} :
                 IF z = 1 THEN LET c == sim.x[First(Best(sim))] IN \E a \in Answers(memo, Pts(sim, c)) : GStep([s |-> [sim EXCEPT !.x = Pts(sim, c), !.v = [i \in Vertices(sim) |-> a[2][i].f]], m |-> a[1], ev |-> a[2]], "restart")
                 ELSE \E o \in Algorithm(sim, memo) : GStep(o, "step")
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == depth = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
