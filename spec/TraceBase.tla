------------------------------ MODULE TraceBase ------------------------------
(* A recorded execution: one JSON object per line, in the order in which the *)
(* implementation made the steps.  Each trace module makes TLC find a        *)
(* behaviour of its specification that matches every line.                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN IF n = Len(Trace) THEN TRUE
     ELSE /\ PrintT("REJECTED line " \o ToString(n + 1) \o " of " \o ToString(Len(Trace)))
          /\ FALSE
=============================================================================
