----------------------------- MODULE TraceGroups -----------------------------
EXTENDS Groups, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == regs = <<>> /\ l = 1
Step ==
  CASE e.op = "forget" -> Forget
    [] e.op = "new" -> New(e.i, e.x, e.p)
    [] e.op = "newid" -> NewId(e.i, e.x, e.p)
    [] e.op = "prod" -> Product(e.i, e.a, e.b, e.x, e.p)
    [] e.op = "inv" -> Inverse(e.i, e.a, e.x, e.p)
    [] e.op = "copy" -> Copy(e.i, e.a, e.x)
    [] e.op = "peek" -> Peek(e.a, e.x)
    [] e.op = "actl" -> e.X = e.X2 /\ ActL(e.a, e.X, e.out, e.p)
    [] e.op = "actr" -> e.X = e.X2 /\ ActR(e.a, e.X, e.out, e.p)
    [] e.op = "actp" -> e.X = e.X2 /\ ActPoint(e.a, e.X, e.out, e.p)
    [] e.op = "exp" -> /\ e.v = e.v2 /\ IsExp(e.x.g, e.n, e.v, e.x, e.p) /\ Member([e.x EXCEPT !.k = 1], e.p)
                       /\ UNCHANGED regs
    [] e.op = "lnexp" -> IsLn(e.x.g, e.n, e.u, e.x, e.p) /\ LnExp(e.x.g, e.n, e.v, e.u, e.p) /\ UNCHANGED regs
    [] e.op = "ln" -> /\ IsLn(e.x.g, e.n, e.u, e.x, e.p)
                      /\ LClose(Hom(e.y), Hom(e.x), TolLn(e.x.g, e.u, e.p, Limbs(e.x.R), 8 * ElMag(Hom(e.x)) * MagV(e.u)))
                      /\ UNCHANGED regs
    [] e.op = "gens" -> NGen(e.g, e.n) = Len(e.m) /\ (\A i \in 1..Len(e.m) : e.m[i] = GenAt(e.g, e.n, i)) /\ UNCHANGED regs
    [] e.op = "field" -> e.out = MVec(Gen(e.g, e.i), e.pt) /\ UNCHANGED regs
    [] e.op = "adj" -> e.v = e.v2 /\ IsAdjoint(e.x, e.v, e.a, e.p) /\ UNCHANGED regs
    [] e.op = "tri" -> e.v = e.v2 /\ IsTrInv(e.x, e.xi, e.v, e.a, e.p) /\ UNCHANGED regs
    [] e.op = "adjm" -> IsAdjointM(e.x, e.xi, e.m, e.out, e.p) /\ UNCHANGED regs
    [] e.op = "trim" -> IsTrInvM(e.x, e.xi, e.m, e.out, e.p) /\ UNCHANGED regs
    [] e.op = "coerce" -> IsCoerced(e.m, e.R, e.p) /\ UNCHANGED regs
    [] e.op = "axes" -> IsBetween(e.a, e.b, e.R, e.p) /\ UNCHANGED regs
    [] e.op = "expm" -> e.A = e.A2 /\ IsExpM(e.A, e.E, e.p) /\ UNCHANGED regs
    [] e.op = "logm" -> e.A = e.A2 /\ IsLogM(e.A, e.X, e.p) /\ UNCHANGED regs
    [] e.op = "logexp" -> LClose(e.B, e.X, Tol(e.p, Limbs(e.B), e.cd * 20 * RowMag(e.B))) /\ UNCHANGED regs
    [] e.op = "sqrtm" -> e.A = e.A2 /\ IsSqrtM(e.A, e.X, e.cd, e.p) /\ UNCHANGED regs
    [] e.op = "expn" -> IsExpNil(e.N, e.k, e.E, e.p) /\ UNCHANGED regs
    [] e.op = "log2k" -> IsLogShift(e.k, e.X, e.Y, e.cd, e.p) /\ UNCHANGED regs
    [] e.op = "exp0" -> e.E = MId(e.E.r) /\ UNCHANGED regs
    [] e.op = "scaled" -> IsScaled(e.m, e.R, e.p) /\ UNCHANGED regs
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<regs, l>>
=============================================================================
