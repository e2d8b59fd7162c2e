------------------------------- MODULE TraceQrLu -----------------------------
EXTENDS Decomp, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == a = MConst(0, 0, 0) /\ p = "d" /\ cd = 0 /\ l = 1
Ident(n) == [i \in 1..n |-> i - 1]
Step ==
  CASE e.op = "mat" -> Given(e.a, e.p, e.cd) /\ e.a2 = e.a
    [] e.op = "qr" -> QROK(e.q, e.r, e.pv) /\ (IF e.pivoted THEN PivotOrder(e.r) ELSE e.pv = Ident(a.c)) /\ UNCHANGED dvars
    [] e.op = "lu" -> LUOK(e.lu) /\ UNCHANGED dvars
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
=============================================================================
