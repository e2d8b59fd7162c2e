------------------------------ MODULE TraceLine ------------------------------
EXTENDS Line, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == ls = <<>> /\ l = 1
LimOf(x) == Len(x)
Mag1 == 1 + MaxSeq([i \in 1..Len(ls.pts) |-> Abs(ls.pts[i].x[1])])
T == IF ls = <<>> THEN 0 ELSE (IF Len(ls.pts[1].x) = 3 THEN 40 ELSE IF Len(ls.pts[1].x) = 5 THEN 12 ELSE 40) * Mag1
\* the bracket has no more than a few representable points
Exhausted == \E c \in ls.cands : LLeq(Width(ls, c), LZero(Len(ls.pts[1].x)), T)
Step1 ==
  CASE e.op = "begin" -> Begin(e.a, e.b, e.c, e.known, [alg |-> e.alg, tol |-> e.tol, eps |-> e.eps])
    [] e.op = "eval" -> ~LBad(e.u.x) /\ Eval(e.u, Exhausted, T)
    [] e.op = "return" -> /\ e.uni => Accurate(e.alg, e.x, e.xs, e.max, e.tol, e.eps, T)
                          /\ Return(e.alg, e.p, e.v, e.max, e.tol, e.eps, T)
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1
TraceSpec == TraceInit /\ [][TraceNext]_<<ls, l>>
=============================================================================
