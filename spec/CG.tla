---------------------------------- MODULE CG ----------------------------------
(* ConjugateGradient, and the bracketing of a minimum along a ray.            *)
EXTENDS Limb, FiniteSets
VARIABLE cg      \* [n, L, x, y, g, h, it]; <<>>: none
VSubL(a, b) == TLCEval([i \in 1..Len(a) |-> Norm(LSub(a[i], b[i]))])
VNearL(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LNear(a[i], b[i], t)
VGood(a) == \A i \in 1..Len(a) : ~LBad(a[i])
Less(a, b) == LSgnT(Norm(LSub(b, a)), 1) > 0
NotNaN(ev) == {k \in 1..Len(ev) : ~ev[k].nan}
MagOf(a) == 1 + MaxSeq([i \in 1..Len(a) |-> Abs(a[i][1])])
LAbs(x) == LET t == Norm(x) IN IF LSgnT(t, 1) < 0 THEN LNeg(t) ELSE t
\* all points of the search lie on the ray from x along -h
OnRay(s, p, u) ==
  LET d == VSubL(s.x, p) t == u * MagOf(d) * MagOf(s.h) + u * MagOf(s.x) * MagOf(s.h) IN
  /\ VGood(p)
  /\ \A i, j \in 1..s.n : i < j => LNear(Trunc(LMul(d[i], s.h[j]), s.L), Trunc(LMul(d[j], s.h[i]), s.L), t)
  /\ LLeq(LZero(s.L), Trunc(LDot(d, s.h), s.L), t)
\* one line search: from (x, y) to (x2, y2); ev: the evaluations, r: the ranks of those that are numbers, r0 and r2: the ranks of y and y2,
\* u: rounding in units per unit of magnitude
Numbers(ev) == SelectSeq([k \in 1..Len(ev) |-> k], LAMBDA k : ~ev[k].nan)
RanksOK(ev, r, r0, r2, y, y2) ==
  LET ks == Numbers(ev) all == [k \in 1..Len(ks) |-> [r |-> r[k], f |-> ev[ks[k]].f]] \o <<[r |-> r0, f |-> y], [r |-> r2, f |-> y2]>> IN
  /\ Len(r) = Len(ks)
  /\ \A i, j \in {Len(all) - 1, Len(all)} \cup {1} : i <= Len(all) /\ j <= Len(all) => (all[i].r = all[j].r => all[i].f = all[j].f)
  /\ \A i \in 1..Len(all) : (all[i].r = r2 => all[i].f = y2) /\ (all[i].r <= r2 => ~Less(y2, all[i].f)) /\ (all[i].r >= r0 => ~Less(all[i].f, y))
SearchOK(s, ev, r, r0, r2, x2, y2, u) ==
  LET ks == Numbers(ev) IN
  /\ \A k \in 1..Len(ev) : OnRay(s, ev[k].x, u)
  /\ RanksOK(ev, r, r0, r2, s.y, y2)
  /\ IF \A k \in 1..Len(r) : r[k] >= r0 THEN x2 = s.x /\ r2 = r0
     ELSE /\ \A k \in 1..Len(r) : r[k] >= r2
          /\ r2 < r0
          /\ \E k \in 1..Len(r) : r[k] = r2 /\ VNearL(ev[ks[k]].x, x2, u * MagOf(s.x))
\* 2 |y - y2| <= tolerance (|y| + |y2| + epsilon)
Gap(y, y2, tol, eps) == LET m == Len(y) d == LAbs(LSub(y, y2)) IN LSub(Trunc(LMul(tol, Norm(LAdd(LAdd(LAbs(y), LAbs(y2)), eps))), m), Norm(LAdd(d, d)))
MayStop(s, y2, it2, max, tol, eps, t) == it2 >= max \/ LSgn(Gap(s.y, y2, tol, eps), t) >= 0
MustStop(s, y2, it2, max, tol, eps, t) == it2 >= max \/ LSgn(Gap(s.y, y2, tol, eps), t) > 0
\* the Polak-Ribiere direction: h2 = g2 + gamma h, gamma = g2.(g2 - g) / g.g
Direction(s, g2, h2, u) ==
  LET L == s.L gg == Trunc(LDot(s.g, s.g), L) num == Trunc(LDot(g2, VSubL(g2, s.g)), L)
      t == u * (1 + s.n * MagOf(g2) * (MagOf(g2) + MagOf(s.g)) + gg[1]) * (MagOf(s.h) + MagOf(h2) + MagOf(g2)) IN
  VGood(h2) /\ \A i \in 1..s.n : LNear(Trunc(LMul(Norm(LSub(h2[i], g2[i])), gg), L), Trunc(LMul(num, s.h[i]), L), t)
------------------------------------------------------------------------------
NewCG(n, L, x, y, g, h) == cg = <<>> /\ h = g /\ Len(x) = n /\ cg' = [n |-> n, L |-> L, x |-> x, y |-> y, g |-> g, h |-> h, it |-> 0]
Goes(x2, y2, g2, h2) == cg' = [cg EXCEPT !.x = x2, !.y = y2, !.g = g2, !.h = h2, !.it = @ + 1]
Iterate(ev, r, r0, r2, x2, y2, g2, h2, cont, max, tol, eps, u, t) ==
  /\ cg # <<>> /\ SearchOK(cg, ev, r, r0, r2, x2, y2, u) = TRUE
  /\ (IF cont THEN ~MustStop(cg, y2, cg.it + 1, max, tol, eps, t) /\ Direction(cg, g2, h2, u)
      ELSE MayStop(cg, y2, cg.it + 1, max, tol, eps, t) /\ g2 = cg.g /\ h2 = cg.h) = TRUE
  /\ Goes(x2, y2, g2, h2)
Turn(g2, h2, u) == cg # <<>> /\ Direction(cg, g2, h2, u) = TRUE /\ cg' = [cg EXCEPT !.g = g2, !.h = h2]
Search(ev, r, r0, r2, x2, y2, u) == cg # <<>> /\ SearchOK(cg, ev, r, r0, r2, x2, y2, u) = TRUE /\ cg' = [cg EXCEPT !.x = x2, !.y = y2, !.it = @ + 1]
Drop == cg' = <<>>
------------------------------------------------------------------------------
(* bracket_minimum_forward.  ev: evaluations [p, v, nan] with p, v ranks among *)
(* the points and the values of the search; p = 0 is the starting point with   *)
(* value av, z the position of the smallest bracket that is of interest.       *)
LowestOf(ev) == CHOOSE v \in {ev[k].v : k \in NotNaN(ev)} : \A k \in NotNaN(ev) : v <= ev[k].v
Evaluated(ev, r) == \E k \in NotNaN(ev) : ev[k].p = r.p /\ ev[k].v = r.v
BracketOK(av, ev, p0, z, none, a, b, c) ==
  /\ Len(ev) >= 1 /\ ev[1].p = p0 /\ NotNaN(ev) # {} /\ \A k \in 1..Len(ev) : ev[k].p > 0
  /\ IF none THEN (\A k \in NotNaN(ev) : ev[k].v >= av) /\ \E k \in NotNaN(ev) : ev[k].p <= z
     ELSE /\ a.p < b.p /\ b.p <= c.p /\ Evaluated(ev, b) /\ Evaluated(ev, c)
          /\ (a.p = 0 /\ a.v = av) \/ (a.p > 0 /\ Evaluated(ev, a))
          /\ b.v < av /\ b.v <= a.v
          /\ LowestOf(ev) = Min2(b.v, c.v)
          \* a bracket, unless the function stopped being a number before it rose again
          /\ (b.p < c.p /\ b.v < c.v) \/ \E k \in 1..Len(ev) : ev[k].nan /\ ev[k].p > b.p
===============================================================================
