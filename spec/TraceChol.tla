------------------------------- MODULE TraceChol -----------------------------
EXTENDS Decomp, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == a = MConst(0, 0, 0) /\ p = "d" /\ cd = 0 /\ l = 1
Step ==
  CASE e.op = "mat" -> Given(e.a, e.p, e.cd) /\ e.a2 = e.a /\ IsSym(e.a)
    [] e.op = "ldl" -> LDLOK(e.L, e.D) /\ UNCHANGED dvars
    [] e.op = "llt" -> LLTOK(e.L) /\ UNCHANGED dvars
    [] e.op = "rank" -> e.res = a.r /\ UNCHANGED dvars
    [] e.op = "solve" -> SolveOK(e.b, e.x, e.res) /\ e.b2 = e.b /\ UNCHANGED dvars
    [] e.op = "inv" -> InverseOK(e.res) /\ UNCHANGED dvars
    [] e.op = "det" -> DetOK(e.res) /\ UNCHANGED dvars
    [] e.op = "mahal" -> MahalanobisOK(e.v, e.x, e.res) /\ UNCHANGED dvars
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
=============================================================================
