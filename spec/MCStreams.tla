------------------------------ MODULE MCStreams ------------------------------
(* The text refines a queue of elements: whatever is written (in any of the   *)
(* formats that keep elements apart), reading gives the elements in the order *)
(* in which they were written, however they are grouped into objects.  (With  *)
(* spaces between the sign and the digits it does not: the adjustment         *)
(* "internal" is left out.)                                                   *)
EXTENDS Streams
CONSTANTS Vals, MaxEls, WS, T
VARIABLES q, got, want     \* q: elements written and not read; got: those of the last read, want: what they should be
vars == <<buf, fmt, fail, q, got, want>>
ValsHere == {-10, 0, 7}
V == IF T = "c" THEN Vals \X Vals ELSE Vals
Shapes == {[k |-> "v", r |-> 0, c |-> 0], [k |-> "m", r |-> 1, c |-> 2], [k |-> "m", r |-> 2, c |-> 1], [k |-> "t", r |-> 2, c |-> 1]}
Init == SInit /\ q = <<>> /\ got = <<>> /\ want = <<>>
Put == \E sh \in Shapes, n \in 1..2 : (sh.k # "v" => n = 2) /\ Len(q) + n <= MaxEls /\ \E x \in [1..n -> V] : Write(sh, x, T) /\ q' = q \o x /\ UNCHANGED <<got, want>>
\* an element follows the previous object without a space only behind a matrix: the literal keeps them apart, as the format does
Get == \E n \in 1..2 : n <= Len(q) /\ LET r == Elements(buf, 1, n, T) IN Read([k \in 1..n |-> IF T = "c" THEN <<0, 0>> ELSE 0], r.x, T) /\ got' = r.x /\ want' = SubSeq(q, 1, n) /\ q' = SubSeq(q, n + 1, Len(q))
Fmt == \E w \in WS, adj \in {"l", "r"}, pos, fixed \in BOOLEAN : fmt' = [w |-> w, fill |-> SP, adj |-> adj, pos |-> pos, fixed |-> fixed, prec |-> 2] /\ q = <<>> /\ fmt'.w # fmt.w /\ UNCHANGED <<buf, fail, q, got, want>>
\* reading more than there is
Over == Len(q) < 2 /\ q # <<>> /\ LET r == Elements(buf, 1, Len(q) + 1, T) z == IF T = "c" THEN <<0, 0>> ELSE 0 IN Read([k \in 1..(Len(q) + 1) |-> z], r.x \o <<z>>, T) /\ got' = r.x /\ want' = q /\ q' = <<>>
Clear == fail /\ Reset /\ UNCHANGED <<q, got, want>>
Next == Put \/ Get \/ Fmt \/ Over \/ Clear
Spec == Init /\ [][Next]_vars
Queue == Elements(buf, 1, Len(q), T).x = q /\ Elements(buf, 1, Len(q), T).ok /\ ~Elements(buf, 1, Len(q) + 1, T).ok
Order == got = want
FailOnlyOver == fail => q = <<>>
View == <<buf, fmt, fail, q, got = want>>
==============================================================================
