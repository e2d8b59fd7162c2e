------------------------------ MODULE TraceViews -----------------------------
EXTENDS Views, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == mem = <<>> /\ hs = <<>> /\ l = 1
(* what is read through handle k: through the view itself and through const and differently spelled accesses *)
ReadOK(k) == LET h == hs[k] m == AsMatrix(h) IN
             /\ e.r = m.r /\ e.c = m.c /\ e.t = h.t
             /\ \A q \in 1..Len(e.reads) : e.reads[q] = m.d
Step ==
  \* a new world: one owner or wrapped buffer; order is the storage order of the raw cells, if they can be seen
  CASE e.op = "world" -> /\ mem' = e.mem
                         /\ hs' = <<[t |-> e.t, ix |-> IF e.order = "col" THEN ColMajorIx(e.r, e.c) ELSE RowMajorIx(e.r, e.c)]>>
    [] e.op = "derive" -> Derive(e.h, e.f, e.a) /\ hs'[Len(hs')].ix.r = e.r /\ hs'[Len(hs')].ix.c = e.c /\ hs'[Len(hs')].t = e.t
    [] e.op = "drop" -> Drop(e.n)
    [] e.op = "read" -> ReadOK(e.h) /\ UNCHANGED vvars
    [] e.op = "set" -> SetElem(e.h, e.i, e.j, e.x)
    [] e.op = "ip" -> InPlace(e.h, e.f, e.w, e.s)
    [] e.op = "both" -> Both(e.h, e.o, e.f)
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ mem' = e.mem
TraceSpec == TraceInit /\ [][TraceNext]_<<mem, hs, l>>
=============================================================================
