-------------------------------- MODULE MCLine --------------------------------
(* Any function on a grid, any choice of evaluation points.                   *)
EXTENDS Line
CONSTANTS G, V
VARIABLE f
vars == <<ls, f>>
P(i) == [p |-> i, v |-> f[i], x |-> <<i>>]
Init == f \in [0..G -> 0..V] /\ ls = <<>>
Next == UNCHANGED f /\
        \/ ls = <<>> /\ \E b \in 1..(G - 1) : Begin(P(0), P(b), P(G), TRUE, [alg |-> "golden", tol |-> <<0>>, eps |-> <<0>>])
        \/ ls # <<>> /\ ls.n < G /\ \E u \in 0..G : (\A i \in 3..Len(ls.pts) : ls.pts[i].p # u) /\ Eval(P(u), FALSE, 0)
Spec == Init /\ [][Next]_vars
On == ls # <<>>
\* the inner point of every possible bracket is a lowest point so far, the outer points are not lower
Lowest == On => \A c \in ls.cands : Val(ls, c[2]) = Low(ls.pts) /\ Val(ls, c[1]) >= Val(ls, c[2]) /\ Val(ls, c[3]) >= Val(ls, c[2])
Ordered == On => \A c \in ls.cands : Pos(ls, c[1]) < Pos(ls, c[2]) /\ Pos(ls, c[2]) < Pos(ls, c[3])
\* a local minimum of f is inside
Minimum == On => \A c \in ls.cands : \E m \in (Pos(ls, c[1]) + 1)..(Pos(ls, c[3]) - 1) : f[m] <= f[m - 1] /\ f[m] <= f[m + 1]
\* the only minimum of a unimodal function is inside
Unimodal(m) == \A i \in 0..(G - 1) : IF i < m THEN f[i] > f[i + 1] ELSE f[i] < f[i + 1]
OnlyMinimum == On => \A m \in 0..G : Unimodal(m) => \E c \in ls.cands : Pos(ls, c[1]) <= m /\ m <= Pos(ls, c[3])
Shrinks == [][On /\ ls' # <<>> => \A d \in ls'.cands : \E c \in ls.cands : Pos(ls', d[3]) - Pos(ls', d[1]) <= Pos(ls, c[3]) - Pos(ls, c[1])]_vars
NeverAbove == [][On /\ ls' # <<>> => Low(ls'.pts) <= Low(ls.pts)]_vars
=============================================================================
