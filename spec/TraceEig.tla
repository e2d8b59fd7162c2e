------------------------------- MODULE TraceEig -----------------------------
EXTENDS Decomp, TraceBase
VARIABLES l, dg, pv       \* the eigenvalues and the pseudo-inverse that were last returned for a
e == Trace[l]
vars == <<dvars, l, dg, pv>>
None == MConst(0, 0, 0)
TraceInit == a = None /\ p = "d" /\ cd = 0 /\ l = 1 /\ dg = <<>> /\ pv = None
Same == UNCHANGED <<dvars, dg, pv>>
Step ==
  CASE e.op = "mat" -> Given(e.a, e.p, e.cd) /\ e.a2 = e.a /\ IsSym(e.a) /\ UNCHANGED <<dg, pv>>
    [] e.op = "eig" -> EigenOK(e.d, e.v) /\ dg' = e.d /\ UNCHANGED <<dvars, pv>>
    [] e.op = "def" -> e.pos = PosDef /\ e.neg = NegDef /\ Same
    [] e.op = "det" -> DetOK(e.res) /\ Same
    [] e.op = "recip" -> RecipOK(dg, e.inv) /\ Same
    [] e.op = "pinv" -> (IF e.cond > 4 * cd THEN PinvOK(e.x) ELSE PinvDroppedOK(e.cond, e.x)) /\ pv' = e.x /\ UNCHANGED <<dvars, dg>>
    [] e.op = "back" -> e.b2 = e.b /\ BacksubIsPinv(pv, e.b, e.x) /\ Same
    [] e.op = "sqrtm" -> SqrtOK(e.s) /\ Same
    [] e.op = "isqrtm" -> ISqrtOK(e.s) /\ Same
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
