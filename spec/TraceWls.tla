------------------------------ MODULE TraceWls -------------------------------
EXTENDS Wls, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == objs = <<>> /\ l = 1
Tol(o) == IF e.exact THEN 0 ELSE Eps(o.L, 8 * Norm1L(o.C)) + 4 * LSize(o.res) + 30 * o.nr
TolT(o) == IF e.exact THEN 0 ELSE Eps(o.L, 8 * (Norm1L(o.C) + LSize(o.res)) ) + 200 + 30 * o.nr
FT(lim) == IF lim = 3 THEN 40 ELSE 60
Step ==
  CASE e.op = "forget" -> Forget
    [] e.op = "new" -> New(e.k, e.n, e.L)
    [] e.op = "clear" -> Clear(e.k)
    [] e.op = "priors" -> PriorScalar(e.k, e.x)
    [] e.op = "priorv" -> PriorVector(e.k, e.x)
    [] e.op = "priorm" -> PriorMatrix(e.k, e.x)
    [] e.op = "mJ" -> Measure(e.k, e.m, e.J, e.w)
    [] e.op = "mJs" -> MeasureAll(e.k, e.m, e.J, e.w)
    [] e.op = "cov" -> MeasureCov(e.k, e.m, e.J, e.W)
    [] e.op = "rows" -> MeasureRows(e.k, e.m, e.J, e.W)
    [] e.op = "sp" -> SparseScalar(e.k, e.m, e.J, e.at, e.w)
    [] e.op = "spr" -> SparseRows(e.k, e.m, e.J, e.at, e.W)
    [] e.op = "spr2" -> SparseRows2(e.k, e.m, e.J1, e.at1, e.J2, e.at2, e.W)
    [] e.op = "merge" -> Merge(e.k, e.j)
    [] e.op = "copy" -> CopyOf(e.k, e.j)
    [] e.op = "irmJ" -> /\ WeightOK(e.f, e.s, e.m, e.w, FT(Len(e.w)) * (e.s * e.s + e.m * e.m) * (e.s * e.s + e.m * e.m))
                        /\ ScaleOK(e.f, e.s, e.m, e.ts, FT(Len(e.w)) * (e.s * e.s + e.m * e.m) * (e.s * e.s + e.m * e.m))
                        /\ ObjectiveOK(e.f, e.s, e.m, e.ob, FT(Len(e.w)) * (Abs(e.m) + 1))
                        /\ Robust(e.k, e.m, e.J, e.w, e.ts, e.ob)
    [] e.op = "weigh" -> /\ WeightOK(e.f, e.s, e.m, e.w, FT(Len(e.w)) * (e.s * e.s + e.m * e.m) * (e.s * e.s + e.m * e.m))
                         /\ ObjectiveOK(e.f, e.s, e.m, e.ob, FT(Len(e.w)) * (2 * (e.s * e.s + e.m * e.m)))
                         /\ UNCHANGED objs
    [] e.op = "comp" -> Compute(e.k, e.mu)
    [] e.op = "obs" -> Sees(objs[e.k], e.C, e.v, Tol(objs[e.k])) /\ SeesMu(objs[e.k], e.mu) /\ UNCHANGED objs
    [] e.op = "tru" -> SeesTrue(objs[e.k], e.T, e.res, TolT(objs[e.k])) /\ UNCHANGED objs
    [] e.op = "dec" -> objs[e.k].done /\ LMNear(LMMul(objs[e.k].C, e.x, objs[e.k].L), IntM(e.b, objs[e.k].L), Eps(objs[e.k].L, 8 * objs[e.k].n * Norm1L(objs[e.k].C) * LVMax(e.x.d, Len(e.x.d))) + Norm1L(objs[e.k].C) + 20) /\ UNCHANGED objs
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<objs, l>>
=============================================================================
