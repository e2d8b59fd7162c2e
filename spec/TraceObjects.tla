----------------------------- MODULE TraceObjects ----------------------------
EXTENDS Objects, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == objs = <<>> /\ l = 1
Sorted(x) == \A i \in 1..(Len(x) - 1) : x[i][1] <= x[i + 1][1]
CountOf(y, x) == Cardinality({i \in 1..Len(x) : x[i] = y})
SamePop(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountOf(a[i], a) = CountOf(a[i], b)
Algo ==
  CASE e.f = "sort" -> Sorted(e.out) /\ SamePop(e.inn, e.out)
    [] e.f = "reverse" -> Len(e.out) = Len(e.inn) /\ \A i \in 1..Len(e.inn) : e.out[i] = e.inn[Len(e.inn) + 1 - i]
    [] e.f = "erase" -> e.out = SubSeq(e.inn, 1, e.p) \o SubSeq(e.inn, e.p + 2, Len(e.inn))
    [] e.f = "insert" -> e.out = SubSeq(e.inn, 1, e.p) \o <<e.inn[1]>> \o SubSeq(e.inn, e.p + 1, Len(e.inn))
    [] e.f = "rotate" -> e.out = SubSeq(e.inn, e.p + 1, Len(e.inn)) \o SubSeq(e.inn, 1, e.p)
    [] e.f = "copy" -> e.out = e.inn
Step ==
  CASE e.op = "world" -> objs' = [s \in 1..e.n |-> None]
    [] e.op = "ctor" -> Construct(e.s, e.k, e.m, e.err)
    [] e.op = "ctorf" -> SourceOK(e.f, e.o, e.p, e.n) /\ Construct(e.s, e.k, Source(e.f, e.o, e.p, e.n), e.err)
    [] e.op = "asg" -> Assign(e.s, e.m, e.err)
    [] e.op = "asgf" -> SourceOK(e.f, e.o, e.p, e.n) /\ Assign(e.s, Source(e.f, e.o, e.p, e.n), e.err)
    [] e.op = "move" -> MoveCtor(e.s, e.o)
    [] e.op = "moveasg" -> MoveAssign(e.s, e.o, e.err)
    [] e.op = "swap" -> Swap(e.s, e.o, e.err)
    [] e.op = "ip" -> InPlace(e.s, e.f, e.m, e.x, e.err)
    [] e.op = "ipo" -> OK(e.o) /\ InPlace(e.s, e.f, Val(objs[e.o]), 0, e.err)
    [] e.op = "write" -> Write(e.s, e.i, e.j, e.x)
    [] e.op = "resize" -> Resize(e.s, e.n, e.d)
    [] e.op = "destroy" -> Destroy(e.s)
    [] e.op = "algo" -> Algo /\ UNCHANGED objs
    \* everything destroyed: nothing is left, nothing was released twice
    [] e.op = "end" -> e.live = 0 /\ e.blocks = 0 /\ objs' = [s \in 1..Len(objs) |-> None]
    [] OTHER -> FALSE
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step
             /\ e.bad = 0
             /\ e.op # "end" => objs' = e.objs /\ e.live >= Held(Len(objs))'
TraceSpec == TraceInit /\ [][TraceNext]_<<objs, l>>
=============================================================================
