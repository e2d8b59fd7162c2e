------------------------------ MODULE TraceElem -------------------------------
EXTENDS Elem, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == EInit /\ l = 1
\* the registers as they are seen afterwards
Seen == e.a = a' /\ e.b = b' /\ e.m = m' /\ e.n = n'
Step1 ==
  CASE e.op = "set" -> Set(e.a, e.b, e.m, e.n)
    [] e.op = "bin" -> Result(e.res, Binary(e.k)) /\ Seen
    [] e.op = "scal" -> Result(e.res, Scaled(e.k, e.v, e.st, e.s)) /\ Seen
    [] e.op = "vup" -> VUpdate(e.k) /\ Seen
    [] e.op = "mup" -> MUpdate(e.k) /\ Seen
    [] e.op = "vprod" -> VProduct /\ Seen
    [] e.op = "mprod" -> MProduct /\ Seen
    [] e.op = "vscal" -> VScaled(e.k, e.s) /\ Seen
    [] e.op = "mscal" -> MScaled(e.k, e.s) /\ Seen
    [] e.op = "ones" -> VOnes(e.k, e.st, e.s) /\ Seen
    [] e.op = "ident" -> MIdent(e.k, e.st, e.s) /\ Seen
    [] e.op = "cmp" -> Compare(e.eq, e.ne, e.meq, e.mne) /\ Seen
    [] e.op = "qdet" -> DetQ(e.am, e.den, e.res)
    [] e.op = "qsolve" -> SolveQ(e.am, e.den, e.v, e.x)
    [] e.op = "qsolvem" -> SolveMQ(e.am, e.den, e.bm, e.x)
    [] e.op = "qldl" -> LdlQ(e.am, e.den, e.L, e.D)
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1
TraceSpec == TraceInit /\ [][TraceNext]_<<evars, l>>
===============================================================================
