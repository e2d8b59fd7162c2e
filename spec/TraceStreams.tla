----------------------------- MODULE TraceStreams -----------------------------
EXTENDS Streams, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == SInit /\ l = 1
\* what the stream is seen to hold afterwards
Seen == e.fail = fail' /\ e.w = fmt'.w /\ (~fail' => e.rest = buf')
Step1 ==
  CASE e.op = "open" -> Reopen
    [] e.op = "fmt" -> Format(e.fill, e.adj, e.pos, e.fixed, e.prec) /\ Seen
    [] e.op = "width" -> Width(e.v) /\ Seen
    [] e.op = "write" -> Write(e.sh, e.x, e.t) /\ Seen
    [] e.op = "lit" -> Literal(e.s) /\ Seen
    [] e.op = "read" -> (IF fail THEN ReadFailed(e.x0, e.x) ELSE Read(e.x0, e.x, e.t)) /\ Seen
    [] e.op = "readt" -> ReadT(e.k, e.d, e.m, e.tr, e.s) /\ Seen
    [] e.op = "reset" -> Reset /\ Seen
    [] e.op = "trip" -> ~e.fail /\ Trip(e.x, e.y)
    [] e.op = "near" -> ~e.fail /\ TripNear(e.x, e.y, IF e.L = 3 THEN 400 ELSE 200)
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
===============================================================================
