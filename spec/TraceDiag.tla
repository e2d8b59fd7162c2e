------------------------------- MODULE TraceDiag ------------------------------
EXTENDS Diag, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == src = <<>> /\ own = <<>> /\ alias = FALSE /\ l = 1
\* the vector's elements and the diagonal's, read back after the step
After == e.s = src' /\ e.d = D'
Step ==
  CASE e.op = "src" -> NewSrc(e.x) /\ e.s = src'
    [] e.op = "own" -> NewOwn(e.x) /\ After /\ e.n = Len(e.x)
    [] e.op = "view" -> View /\ After
    [] e.op = "setd" -> SetD(e.i, e.x) /\ After
    [] e.op = "sets" -> SetSrc(e.i, e.x) /\ After
    [] e.op = "slice" -> SetSlice(e.x) /\ After
    [] e.op = "dv" -> e.res = DV(e.x) /\ UNCHANGED vars /\ After
    [] e.op = "vd" -> e.res = VD(e.x) /\ UNCHANGED vars /\ After
    [] e.op = "dm" -> e.res = DM(e.m) /\ e.m2 = e.m /\ UNCHANGED vars /\ After
    [] e.op = "md" -> e.res = MD(e.m) /\ e.m2 = e.m /\ UNCHANGED vars /\ After
    [] e.op = "dd" -> e.res = DD(e.x) /\ UNCHANGED vars /\ After
    [] e.op = "neg" -> e.res = NegD /\ UNCHANGED vars /\ After
    [] e.op = "inv" -> e.res = InvD60 /\ UNCHANGED vars /\ After
    [] e.op = "dense" -> e.res = Dense /\ UNCHANGED vars /\ After
    [] e.op = "guards" -> e.g /\ UNCHANGED vars
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
