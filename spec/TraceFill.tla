------------------------------- MODULE TraceFill ------------------------------
EXTENDS Fill, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == l = 1 /\ st = "idle" /\ size = 0 /\ given = <<>> /\ pos = 0 /\ cur = <<>>
\* values e.i+1.. have not been placed yet; the e.i before are
Step ==
  CASE e.op = "fbegin" -> Begin(e.how, e.size, e.x, e.pre)
    [] e.op = "fput" -> IF e.i = 0 THEN UNCHANGED vars /\ e.cur = cur
                        ELSE IF pos < size THEN Place /\ e.cur = cur' /\ e.i = pos'
                        ELSE FALSE          \* the value after the last element was already refused
    [] e.op = "fend" ->
         /\ ~e.odd
         /\ IF st = "Data" THEN DataAll /\ e.rej = (st' = "rejected") /\ (e.seen => e.res = cur')
            ELSE IF ~e.seen THEN /\ e.rej /\ Len(given) # size /\ st' = "rejected" /\ UNCHANGED <<size, given, pos, cur>>
            ELSE IF Len(given) > size
                 THEN e.rej /\ pos = size /\ Overfull /\ e.res = cur
                 ELSE ~e.rej /\ Len(given) = size /\ pos = size - 1 /\ e.res = Placed(cur, given, size)
                      /\ st' = "done" /\ pos' = size /\ cur' = e.res /\ UNCHANGED <<size, given>>
    [] e.op = "guards" -> e.g /\ UNCHANGED vars
    [] e.op = "made" -> e.size = Len(e.x) /\ e.res = e.x /\ UNCHANGED vars
    [] e.op = "none" -> UNCHANGED vars
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
