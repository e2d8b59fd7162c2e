------------------------------ MODULE TraceBounds -----------------------------
EXTENDS Bounds, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == l = 1
Step ==
  CASE e.op = "vs" -> VSlice(e.n, e.s, e.l, e.err, e.sz)
    [] e.op = "ms" -> MSlice(e.r, e.c, e.rs, e.cs, e.rl, e.cl, e.err, e.sz)
    [] e.op = "ix" -> VIndex(e.n, e.i, e.err)
    [] e.op = "mx" -> MIndex(e.r, e.c, e.i, e.j, e.err)
    [] e.op = "mis" -> e.err = Rej(e.same)
    [] e.op = "none" -> TRUE
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
