--------------------------------- MODULE Fill --------------------------------
(* Filling a destination of size elements with a list of values, one after    *)
(* the other, in index (vector) or row-major (matrix) order.  cur is the      *)
(* logical contents of the destination.  A value is placed only while there   *)
(* is room (otherwise the fill is rejected and places nothing), and the fill  *)
(* may end only when the destination is full (otherwise it is rejected).      *)
(* Data(...) knows its length beforehand and is accepted or rejected whole.   *)
EXTENDS Integers, Sequences
VARIABLES st, size, given, pos, cur
vars == <<st, size, given, pos, cur>>

Placed(pre, x, n) == [k \in 1..Len(pre) |-> IF k <= n THEN x[k] ELSE pre[k]]
Begin(how, n, x, pre) ==
  /\ Len(pre) = n /\ st' = how /\ size' = n /\ given' = x /\ pos' = 0 /\ cur' = pre
Place ==        \* Fill: the next value goes into the next element
  /\ st = "Fill" /\ pos < Len(given) /\ pos < size
  /\ cur' = [cur EXCEPT ![pos + 1] = given[pos + 1]] /\ pos' = pos + 1
  /\ UNCHANGED <<st, size, given>>
Overfull ==     \* a value that has no element
  /\ st = "Fill" /\ pos = size /\ Len(given) > pos
  /\ st' = "rejected" /\ UNCHANGED <<size, given, pos, cur>>
Underfull ==    \* no more values, and elements left
  /\ st = "Fill" /\ pos = Len(given) /\ pos < size
  /\ st' = "rejected" /\ UNCHANGED <<size, given, pos, cur>>
Complete ==
  /\ st = "Fill" /\ pos = size /\ Len(given) = pos
  /\ st' = "done" /\ UNCHANGED <<size, given, pos, cur>>
DataAll ==
  /\ st = "Data"
  /\ IF Len(given) = size THEN st' = "done" /\ cur' = given /\ pos' = size
     ELSE st' = "rejected" /\ UNCHANGED <<cur, pos>>
  /\ UNCHANGED <<size, given>>
=============================================================================
