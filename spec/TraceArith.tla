------------------------------ MODULE TraceArith -----------------------------
EXTENDS Arith, TraceBase
VARIABLE l
tvars == <<m, v, l>>
TraceInit == m = << >> /\ v = << >> /\ l = 1
e == Trace[l]
Reset == e.op = "reset" /\ m' = e.m /\ v' = e.v
         /\ \A i \in 1..Len(e.m) : WellFormed(e.m[i])
Reg == e.op = "r" /\ Step(e.f, e.d + 1, e.a + 1, e.b + 1, e.s) /\ m' = e.m /\ v' = e.v
Calc == e.op \notin {"r", "reset"} /\ CalcOK(e) /\ UNCHANGED mvars
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Reg \/ Calc)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
