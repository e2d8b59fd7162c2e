------------------------------ MODULE MCBounds -------------------------------
(* A window onto an object of N elements, narrowed by slicing.  Accepted slices never leave the window they were taken *)
(* from (so no view ever reaches outside the object), a slice is refused only if it would, and an index is accepted    *)
(* exactly when the element it addresses is inside the window.                                                         *)
EXTENDS Bounds
CONSTANTS N, Hi
Lo == -3
VARIABLES off, len, outer
Init == off = 0 /\ len = N /\ outer = <<0, N>>
Next == \E s, l \in Lo..Hi : InSlice(len, s, l) /\ off' = off + s /\ len' = l /\ outer' = <<off, len>>
Spec == Init /\ [][Next]_<<off, len, outer>>
Window(o, n) == {o + i : i \in 0..(n - 1)}
Nested == Window(off, len) \subseteq Window(outer[1], outer[2]) /\ Window(off, len) \subseteq Window(0, N)
Inside == len >= 0 /\ off >= 0 /\ off + len <= N
Exact == \A s, l \in Lo..Hi : InSlice(len, s, l) <=> (l >= 0 /\ s >= 0 /\ s <= len /\ Window(off + s, l) \subseteq Window(off, len))
IndexExact == \A i \in Lo..Hi : InIndex(len, i) <=> (off + i) \in Window(off, len)
\* a slice of a slice is the same as one slice of the outer window
Compose == \A s1, l1, s2, l2 \in 0..3 : (InSlice(len, s1, l1) /\ InSlice(l1, s2, l2)) => InSlice(len, s1 + s2, l2)
=============================================================================
