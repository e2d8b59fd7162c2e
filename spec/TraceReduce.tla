----------------------------- MODULE TraceReduce -----------------------------
EXTENDS Reduce, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == ob = <<>> /\ nm = <<>> /\ l = 1
U(L) == IF L = 3 THEN 24 ELSE IF L = 5 THEN 8 ELSE 40
Step1 ==
  CASE e.op = "vec" -> NewVec(e.x) /\ e.n = Len(e.x)
    [] e.op = "mat" -> NewMat(e.m)
    [] e.op = "norms" -> Norms(e.nsq, e.n1, e.ninf, e.nn, e.n2, e.x2, U(e.L))
    [] e.op = "inorms" -> KeepV(e.x2) /\ e.nsq = SumSq(ob.x) /\ e.n1 = Sum1(ob.x) /\ e.ninf = SupAbs(ob.x)
    [] e.op = "unit" -> UnitOf(e.r, e.nn, e.x2, U(e.L))
    [] e.op = "normalize" -> Normalized(e.r, e.nn, U(e.L))
    [] e.op = "vext" -> VExt(e.mn, e.mx, e.mne, e.mxe, e.x2)
    [] e.op = "project" -> Projected(e.r, e.x2, U(e.L))
    [] e.op = "unproject" -> Unprojected(e.r, e.x2)
    [] e.op = "cross" -> CrossOf(e.m, e.x2)
    [] e.op = "fillv" -> FillV(e.p, e.x2)
    [] e.op = "fillm" -> FillM(e.p, e.m2)
    [] e.op = "special" -> Special(e.codes, e.fin, e.nan)
    [] e.op = "mspecial" -> Special(e.codes, \A k \in 1..Len(e.codes) : e.codes[k] = 0, e.nan)
    [] e.op = "mnorms" -> MNorms(e.fro, e.n1, e.ninf, e.m2, U(e.L))
    [] e.op = "imnorms" -> KeepM(e.m2) /\ e.n1 = MaxSeq(ColSums(ob.m)) /\ e.ninf = MaxSeq(RowSums(ob.m))
    [] e.op = "mext" -> MExt(e.mn, e.mx, e.mne, e.mxe, e.m2)
    [] e.op = "lext" -> LExt(e.dir, e.mn, e.mx, e.mnv, e.mni, e.mxv, e.mxi, e.m2)
    [] e.op = "symmetrize" -> Symmetrized(e.m2)
    [] e.op = "trace" -> TraceIs(e.tr, e.m2)
    [] e.op = "mproject" -> MProjected(e.r, e.m2, U(e.L))
    [] e.op = "munproject" -> MUnprojected(e.r, e.m2)
    [] e.op = "inv" -> InvIs(e.r, e.m2, U(e.L))
    [] e.op = "guard" -> e.ok /\ Gone
    [] e.op = "nnew" -> NamedNew(e.x) /\ e.names = nm' /\ e.els = nm' /\ e.n = Len(e.x)
    [] e.op = "nset" -> NamedSet(e.k, e.v) /\ e.names = nm' /\ e.els = nm'
    [] e.op = "nassign" -> NamedAssign(e.x) /\ e.names = nm' /\ e.els = nm'
    [] e.op = "nadd" -> NamedAdd(e.x) /\ e.names = nm' /\ e.els = nm'
    [] e.op = "nmul" -> NamedMul(e.m) /\ e.names = nm' /\ e.els = nm'
    [] e.op = "nscale" -> NamedScale(e.k) /\ e.names = nm' /\ e.els = nm'
    [] e.op = "nslice" -> NamedSlice(e.s, e.x) /\ e.names = nm' /\ e.els = nm'
    [] e.op = "nlook" -> NamedLook /\ e.names = nm /\ e.els = nm /\ e.copy = nm /\ e.sq = SumSq(nm)
    [] e.op = "nend" -> nm' = <<>> /\ UNCHANGED ob
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1
TraceSpec == TraceInit /\ [][TraceNext]_<<ob, nm, l>>
===============================================================================
