------------------------------- MODULE Simplex -------------------------------
(* DownhillSimplex: N+1 points of an N dimensional space with the values of   *)
(* the function there, moved as its documentation states (Nelder and Mead).   *)
(* Coordinates are limb numbers; function values are integers, with Inf for   *)
(* infinity.  Choices that the documentation leaves open (which of several    *)
(* equal vertices is the worst, ties of the new values) are nondeterministic. *)
EXTENDS Limb, FiniteSets
VARIABLE sim     \* [n, L, x, v, al, rho, ga, sg]; no simplex: <<>>
Inf == 100000000

VA(a, b) == TLCEval([i \in 1..Len(a) |-> Norm(LAdd(a[i], b[i]))])
VS(a, b) == TLCEval([i \in 1..Len(a) |-> Norm(LSub(a[i], b[i]))])
VM(s, a) == TLCEval([i \in 1..Len(a) |-> Trunc(LMul(s, a[i]), Len(s))])
VD(a, k) == TLCEval([i \in 1..Len(a) |-> LDivI(a[i], k)])
VN(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LNear(a[i], b[i], t)
One(L) == LInt(1, L)
RECURSIVE SumBut(_, _, _)
SumBut(x, w, k) == IF k = 0 THEN [i \in 1..Len(x[1]) |-> LZero(Len(x[1][1]))] ELSE IF k = w THEN SumBut(x, w, k - 1) ELSE VA(SumBut(x, w, k - 1), x[k])

Vertices(s) == 1..(s.n + 1)
Lowest(v) == MinSeq(v)
Highest(v) == MaxSeq(v)
Best(s) == {i \in Vertices(s) : s.v[i] = Lowest(s.v)}
Worst(s) == {i \in Vertices(s) : s.v[i] = Highest(s.v)}
SecondWorst(s, w) == Highest([i \in 1..s.n |-> s.v[IF i < w THEN i ELSE i + 1]])

Centroid(s, w) == VD(SumBut(s.x, w, s.n + 1), s.n)
\* x0 + f (x0 - x_w)
Along(s, w, f) == LET c == Centroid(s, w) IN VA(c, VM(f, VS(c, s.x[w])))
Reflected(s, w) == Along(s, w, s.al)
Expanded(s, w) == Along(s, w, Trunc(LMul(s.rho, s.al), s.L))
Contracted(s, w) == Along(s, w, s.ga)
Shrunk(s, b, i) == VA(s.x[b], VM(s.sg, VS(s.x[i], s.x[b])))

Repl(s, w, p, f) == [s EXCEPT !.x[w] = p, !.v[w] = f]
\* ev: the evaluations, in order: sequence of [x, f].  t: tolerance of a computed point
Shrinks(s, ev, r, t) ==
  \E b \in Best(s) :
    /\ Len(ev) = s.n /\ r.x[b] = s.x[b] /\ r.v[b] = s.v[b]
    /\ \A i \in Vertices(s) \ {b} : VN(r.x[i], Shrunk(s, b, i), t) /\ \E k \in 1..s.n : ev[k].x = r.x[i] /\ ev[k].f = r.v[i]
    /\ \A k \in 1..s.n : \E i \in Vertices(s) \ {b} : ev[k].x = r.x[i]
MoveOK(s, ev, r, t) ==      \* r: the simplex afterwards
  /\ r = [s EXCEPT !.x = r.x, !.v = r.v]
  /\ Len(ev) >= 1
  /\ \E w \in Worst(s) :
       LET fr == ev[1].f  xr == ev[1].x  lo == Lowest(s.v)  sw == SecondWorst(s, w)  rest == SubSeq(ev, 2, Len(ev)) IN
       /\ VN(xr, Reflected(s, w), t)
       /\ \/ /\ fr < lo /\ Len(ev) = 2 /\ VN(ev[2].x, Expanded(s, w), t)
             /\ (ev[2].f <= fr /\ r = Repl(s, w, ev[2].x, ev[2].f)) \/ (fr <= ev[2].f /\ r = Repl(s, w, xr, fr))
          \/ fr >= lo /\ fr <= sw /\ Len(ev) = 1 /\ r = Repl(s, w, xr, fr)
          \/ /\ fr >= lo /\ fr >= sw /\ fr < s.v[w] /\ Len(ev) >= 2 /\ VN(ev[2].x, Contracted(s, w), t)
             /\ (ev[2].f <= fr /\ Len(ev) = 2 /\ r = Repl(s, w, ev[2].x, ev[2].f)) \/ (ev[2].f >= fr /\ Shrinks(s, SubSeq(rest, 2, Len(rest)), r, t))
          \/ fr >= lo /\ fr >= s.v[w] /\ Shrinks(s, rest, r, t)
\* a simplex around c: one point at c, the others at c + spread e_i
Around(c, spread, i) == IF i = Len(c) + 1 THEN c ELSE [c EXCEPT ![i] = Norm(LAdd(@, spread))]
Fresh(x, c, spread, t) == Len(x) = Len(c) + 1 /\ \E p \in {q \in [1..Len(x) -> 1..Len(x)] : \A i, j \in 1..Len(x) : i # j => q[i] # q[j]} : \A i \in 1..Len(x) : VN(x[p[i]], Around(c, spread, i), t)
Evaluated(x, v, ev) == Len(v) = Len(x) /\ \A i \in 1..Len(x) : \E k \in 1..Len(ev) : ev[k].x = x[i] /\ ev[k].f = v[i]

\* the stopping criterion: span^2 < eps^2 scale^2 or span^2 < zero^2
SqN(a) == LDot(a, a)
Span(s, b, w) == SqN(VS(s.x[b], s.x[w]))
Sq(a) == Trunc(LMul(a, a), Len(a))
SmallerBy(s, b, w, eps) == LET m == s.L + 1 sc == Trunc(SqN(s.x[b]), m) e2 == Trunc(LMul(eps, eps), m) IN LSub(Trunc(LMul(sc, e2), m), Trunc(Span(s, b, w), m))
Zeroish(s, b, w, z) == LET m == s.L + 1 IN LSub(Trunc(LMul(z, z), m), Trunc(Span(s, b, w), m))
FinishedMay(s, eps, z, t) == \E b \in Best(s), w \in Worst(s) : LSgn(SmallerBy(s, b, w, eps), t) >= 0 \/ LSgn(Zeroish(s, b, w, z), t) >= 0
FinishedMust(s, eps, z, t) == \A b \in Best(s), w \in Worst(s) : LSgn(SmallerBy(s, b, w, eps), t) > 0 \/ LSgn(Zeroish(s, b, w, z), t) > 0
------------------------------------------------------------------------------
New(n, L, c, spread, x, v, ev, t) ==
  /\ sim = <<>> /\ Len(c) = n /\ Fresh(x, c, spread, t) = TRUE /\ Evaluated(x, v, ev) = TRUE /\ Len(ev) = n + 1
  /\ sim' = [n |-> n, L |-> L, x |-> x, v |-> v, al |-> One(L), rho |-> LInt(2, L), ga |-> [One(L) EXCEPT ![1] = 0, ![2] = 5000], sg |-> [One(L) EXCEPT ![1] = 0, ![2] = 5000]]
Tune(al, rho, ga, sg) == sim # <<>> /\ sim' = [sim EXCEPT !.al = al, !.rho = rho, !.ga = ga, !.sg = sg]
Step(ev, x, v, t) == LET r == [sim EXCEPT !.x = x, !.v = v] IN sim # <<>> /\ MoveOK(sim, ev, r, t) = TRUE /\ Lowest(v) <= Lowest(sim.v) /\ sim' = r
RestartAt(c, spread, x, v, ev, t) == sim # <<>> /\ Fresh(x, c, spread, t) = TRUE /\ Evaluated(x, v, ev) = TRUE /\ Len(ev) = sim.n + 1 /\ sim' = [sim EXCEPT !.x = x, !.v = v]
Restart(spread, x, v, ev, t) == sim # <<>> /\ \E b \in Best(sim) : RestartAt(sim.x[b], spread, x, v, ev, t)
Drop == sim' = <<>>
=============================================================================
