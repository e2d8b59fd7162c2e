------------------------------ MODULE TraceDeriv ------------------------------
EXTENDS Deriv, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == DInit /\ l = 1
SetOf(s) == {s[q] : q \in 1..Len(s)}
Step1 ==
  CASE e.op = "pose" -> Pose(e.p, e.k, e.phi, e.y)
    [] e.op = "eval" -> Evaluate(SetOf(e.d), e.far, IF e.kind = "grad" THEN 1 ELSE 2)
    [] e.op = "grad" -> Gradient(e.g, e.errs, e.k, e.L)
    [] e.op = "hess" -> Hessian(e.h, e.errs, e.k, e.L, e.rough)
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
===============================================================================
