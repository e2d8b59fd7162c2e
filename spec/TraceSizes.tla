------------------------------ MODULE TraceSizes ------------------------------
EXTENDS Sizes, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == l = 1
Step ==
  CASE e.op = "sz" -> Call(e.k, e.da, e.db, e.err, e.chg, e.seen, e.res)
    [] e.op = "wlsb" -> e.err = (IF WlsBatch(e.n, e.jr, e.k, e.d, e.cc) THEN 0 ELSE 1) /\ ~e.chg
    [] e.op = "none" -> TRUE
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
