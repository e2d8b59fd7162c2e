----------------------------- MODULE TraceUnsized ----------------------------
EXTENDS Unsized, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == obj = [t |-> "none"] /\ l = 1
IsZero(d) == \A i \in 1..Len(d) : d[i] = 0
Step ==
  CASE e.op = "new" -> WellFormed(e.m) /\ obj' = [t |-> "m", m |-> e.m]
    [] e.op = "vnew" -> obj' = [t |-> "v", v |-> e.v]
    [] e.op = "cst" -> MStep(e.what, e.s, e.dv, e.how, e.x) /\ obj'.m = e.m
    [] e.op = "vcst" -> VStep(e.what, e.s, e.dv, e.how, e.x) /\ obj'.v = e.v
    [] e.op = "isne" -> obj.t = "m" /\ obj.m = e.m /\ e.ne = ~IsZero(e.m.d) /\ UNCHANGED obj
    [] e.op = "visne" -> obj.t = "v" /\ obj.v = e.v /\ e.ne = ~IsZero(e.v) /\ UNCHANGED obj
    [] e.op = "guards" -> e.g /\ UNCHANGED obj
    [] e.op = "sized" -> e.x = MK(e.what, e.s, e.dv, e.r, e.c) /\ UNCHANGED obj
    [] e.op = "vsized" -> e.x = VK(e.what, e.s, e.dv, e.n) /\ UNCHANGED obj
    \* rejected exactly when the shape is not square, and then the operand is unchanged
    [] e.op = "idrej" -> /\ e.err = (IF e.a.r # e.a.c THEN 1 ELSE 0)
                         /\ e.a.r # e.a.c => e.a2 = e.a
                         /\ UNCHANGED obj
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<obj, l>>
=============================================================================
