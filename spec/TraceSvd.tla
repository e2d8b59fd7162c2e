------------------------------- MODULE TraceSvd -----------------------------
EXTENDS Decomp, TraceBase
VARIABLES l, dg, uu, vv, pv       \* the factors and the pseudo-inverse that were last returned for a
e == Trace[l]
vars == <<dvars, l, dg, uu, vv, pv>>
None == MConst(0, 0, 0)
TraceInit == a = None /\ p = "d" /\ cd = 0 /\ l = 1 /\ dg = <<>> /\ uu = None /\ vv = None /\ pv = None
Same == UNCHANGED <<dvars, dg, uu, vv, pv>>
ExtremesOK(hi, lo, at) ==
  /\ \E i \in 1..Len(dg) : dg[i] = hi
  /\ \A i \in 1..Len(dg) : LLeq(dg[i], hi, 0) /\ LLeq(lo, dg[i], 0)
  /\ at \in 0..(Len(dg) - 1) /\ dg[at + 1] = lo
LVNear(x, y, t) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : LNear(x[i], y[i], t)
Step ==
  CASE e.op = "mat" -> Given(e.a, e.p, e.cd) /\ e.a2 = e.a /\ UNCHANGED <<dg, uu, vv, pv>>
    [] e.op = "svd" -> SVDOK(e.u, e.d, e.vt) /\ dg' = e.d /\ UNCHANGED <<dvars, uu, vv, pv>>
    [] e.op = "grsvd" -> GRSVDOK(e.u, e.d, e.v, e.ordered) /\ dg' = e.d /\ uu' = e.u /\ vv' = e.v /\ UNCHANGED <<dvars, pv>>
    [] e.op = "half" -> LVNear(e.dv, dg, FacTol) /\ LVNear(e.du, dg, FacTol) /\ LMNear(e.v, vv, OrthTol) /\ LMNear(e.u, uu, OrthTol) /\ e.threw /\ Same
    [] e.op = "ends" -> ExtremesOK(e.hi, e.lo, e.at) /\ Same
    [] e.op = "rank" -> RankOK(e.cond, e.res) /\ Same
    [] e.op = "recip" -> RecipOK(dg, e.inv) /\ Same
    [] e.op = "pinv" -> (IF e.cond > 4 * cd THEN PinvOK(e.x) ELSE PinvDroppedOK(e.cond, e.x)) /\ pv' = e.x /\ UNCHANGED <<dvars, dg, uu, vv>>
    [] e.op = "back" -> e.b2 = e.b /\ BacksubIsPinv(pv, e.b, e.x) /\ Same
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
