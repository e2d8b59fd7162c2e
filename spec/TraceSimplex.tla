----------------------------- MODULE TraceSimplex -----------------------------
EXTENDS Simplex, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == sim = <<>> /\ l = 1
Mag(x) == 1 + MaxSeq([i \in 1..Len(x) |-> MaxSeq([j \in 1..Len(x[i]) |-> Abs(x[i][j][1])])])
\* rounding of a computed point, in units of the last limb
T(L, x) == (IF L = 3 THEN 60 ELSE IF L = 5 THEN 40 ELSE 80) * Mag(x) + 20
OKPts(x) == \A i \in 1..Len(x) : \A j \in 1..Len(x[i]) : ~LBad(x[i][j])
Queries(s) ==
  /\ e.best \in Best(s) /\ e.worst \in Worst(s)
  /\ LET t == 60000 * Mag(s.x) IN (e.fin => FinishedMay(s, e.eps, e.zeps, t)) /\ (FinishedMust(s, e.eps, e.zeps, t) => e.fin)
  /\ e.cont \in {0, 1} => e.cont = (IF e.fin THEN 0 ELSE 1)
  /\ e.fv = s.v
Step1 ==
  CASE e.op = "forget" -> Drop
    [] e.op = "new" -> OKPts(e.x) /\ New(e.n, e.L, e.c, e.spread, e.x, e.v, e.ev, T(e.L, e.x)) /\ Queries(sim') = TRUE /\ e.defaults = <<10000, 20000, 5000, 5000, 10000, 10000>>
    [] e.op = "par" -> Tune(e.al, e.rho, e.ga, e.sg)
    [] e.op = "step" -> OKPts(e.x) /\ Step(e.ev, e.x, e.v, 3 * T(sim.L, sim.x \o [k \in 1..Len(e.ev) |-> e.ev[k].x])) /\ Queries(sim') = TRUE
    [] e.op = "restartat" -> OKPts(e.x) /\ RestartAt(e.c, e.spread, e.x, e.v, e.ev, T(sim.L, e.x)) /\ Queries(sim') = TRUE
    [] e.op = "restart" -> OKPts(e.x) /\ Restart(e.spread, e.x, e.v, e.ev, T(sim.L, e.x)) /\ Queries(sim') = TRUE
    [] e.op = "look" -> e.x = sim.x /\ e.v = sim.v /\ Queries(sim) = TRUE /\ UNCHANGED sim
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1
TraceSpec == TraceInit /\ [][TraceNext]_<<sim, l>>
===============================================================================
