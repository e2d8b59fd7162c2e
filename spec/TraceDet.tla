------------------------------- MODULE TraceDet -----------------------------
EXTENDS Decomp, TraceBase
VARIABLES l, slack      \* slack: what a negligible element that stands for a zero adds to the determinant
e == Trace[l]
TraceInit == a = MConst(0, 0, 0) /\ p = "d" /\ cd = 0 /\ l = 1 /\ slack = 0
Step ==
  CASE e.op = "mat" -> Given(e.a, e.p, e.cd) /\ e.a2 = e.a /\ slack' = (IF e.tiny THEN Abs(Det(Minor(e.a, 1, 1))) + 1 ELSE 0)
    [] e.op = "det" -> NearInt(e.res, Det(a), DetTol + slack) /\ UNCHANGED <<dvars, slack>>
    [] e.op = "absdet" -> AbsDetOK(e.res) /\ UNCHANGED <<dvars, slack>>
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l, slack>>
=============================================================================
