------------------------------- MODULE TraceCG -------------------------------
EXTENDS CG, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == cg = <<>> /\ l = 1
U(L) == IF L = 3 THEN 40 ELSE IF L = 5 THEN 12 ELSE 40
YTol == U(cg.L) * (2 + Abs(e.y[1]) + Abs(cg.y[1])) + 20
Dressed == e.mh = [i \in 1..Len(e.h) |-> LNeg(e.h[i])] /\ e.fy = e.y /\ VGood(e.x) /\ ~LBad(e.y)
Step1 ==
  CASE e.op = "forget" -> Drop
    [] e.op = "new" -> NewCG(e.n, e.L, e.x, e.y, e.g, e.h) /\ Dressed /\ e.g = e.gx /\ e.x = e.start /\ e.oy = e.y /\ e.it = 0 /\ e.defaults = <<100 * e.n, 100, 10000, 10000, 10000, 10000, 10000, 10000>>
    [] e.op = "iterate" -> /\ Iterate(e.ev, e.r, e.r0, e.r2, e.x, e.y, e.g, e.h, e.cont, e.max, e.tol, e.eps, U(cg.L), YTol)
                           /\ Dressed /\ e.it = cg'.it /\ e.ox = cg.x /\ e.oy = cg.y
                           /\ (e.cont => e.g = e.gx /\ e.og = cg.g /\ e.oh = cg.h) = TRUE
    [] e.op = "search" -> Search(e.ev, e.r, e.r0, e.r2, e.x, e.y, U(cg.L)) /\ Dressed /\ e.it = cg'.it /\ e.ox = cg.x /\ e.oy = cg.y /\ e.g = cg.g /\ e.h = cg.h
                          /\ (IF e.cont THEN ~MustStop(cg, e.y, cg.it + 1, e.max, e.tol, e.eps, YTol) ELSE MayStop(cg, e.y, cg.it + 1, e.max, e.tol, e.eps, YTol)) = TRUE
    [] e.op = "turn" -> Turn(e.g, e.h, U(cg.L)) /\ Dressed /\ e.it = cg.it /\ e.x = cg.x /\ e.y = cg.y /\ e.og = cg.g /\ e.oh = cg.h /\ e.g = e.gx
    [] e.op = "look" -> Dressed /\ e.x = cg.x /\ e.y = cg.y /\ e.g = cg.g /\ e.h = cg.h /\ e.it = cg.it /\ UNCHANGED cg
    [] e.op = "bracket" -> BracketOK(e.av, e.ev, e.p0, e.z, e.none, e.a, e.b, e.c) = TRUE /\ UNCHANGED cg
    [] e.op = "runaway" -> Drop
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1
TraceSpec == TraceInit /\ [][TraceNext]_<<cg, l>>
=============================================================================
