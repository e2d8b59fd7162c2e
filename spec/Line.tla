--------------------------------- MODULE Line ---------------------------------
(* A line search of a function of one variable that starts from a bracket     *)
(* a < b < c, f(b) below f(a) and f(c).  The points and values are known by    *)
(* their order: p and v are ranks among everything that occurs in the search;  *)
(* x is the coordinate as a limb number, for the widths.                      *)
EXTENDS Limb, FiniteSets
VARIABLE ls      \* [pts, cands, n, known, prev, rule]: points so far (sequence of [p, v, x]), brackets that are possible, evaluations so far,
                 \* is f(b) known, the brackets before the last evaluation, the rule for stopping; <<>>: no search
Low(pts) == MinSeq([i \in 1..(Len(pts) - 2) |-> pts[i + 2].v])
Pos(s, i) == s.pts[i].p
Val(s, i) == s.pts[i].v
\* the brackets (a, x, b) after an evaluation at point u inside of bracket c
Narrowed(s, c, u) ==
  LET a == c[1] x == c[2] b == c[3] IN
  IF Pos(s, u) < Pos(s, x) THEN (IF Val(s, u) <= Val(s, x) THEN {<<a, u, x>>} ELSE {}) \cup (IF Val(s, x) <= Val(s, u) THEN {<<u, x, b>>} ELSE {})
  ELSE IF Pos(s, u) > Pos(s, x) THEN (IF Val(s, u) <= Val(s, x) THEN {<<x, u, b>>} ELSE {}) \cup (IF Val(s, x) <= Val(s, u) THEN {<<a, x, u>>} ELSE {})
  ELSE {c, <<a, x, x>>, <<x, x, b>>}
Inside(s, c, u) == Pos(s, c[1]) <= Pos(s, u) /\ Pos(s, u) <= Pos(s, c[3])
Width(s, c) == Norm(LSub(s.pts[c[3]].x, s.pts[c[1]].x))
LAbs(x) == LET t == Norm(x) IN IF LSgnT(t, 1) < 0 THEN LNeg(t) ELSE t
LMax(x, y) == IF LSgnT(Norm(LSub(x, y)), 1) >= 0 THEN x ELSE y
\* the width at which the search may stop
StopWidth(s, c, alg, tol, eps) ==
  LET a == LAbs(s.pts[c[1]].x) b == LAbs(s.pts[c[3]].x) m == Len(a) IN
  IF alg = "brent" THEN Norm(LAdd(Trunc(LMul(tol, Norm(LAdd(a, b))), m), eps))
  ELSE Trunc(LMul(tol, LET h == LMax(a, b) IN Norm(LAdd(h, h))), m)
------------------------------------------------------------------------------
\* A search does not go on when it may stop: brent looks at the bracket it has, golden at the one that it had before the last
\* evaluation (the two inner points of which lie between its ends)
LMin(x, y) == IF LSgnT(Norm(LSub(x, y)), 1) <= 0 THEN x ELSE y
SureWidth(s, c) ==
  LET a == s.pts[c[1]].x b == s.pts[c[3]].x IN
  IF s.rule.alg = "brent" THEN StopWidth(s, c, "brent", s.rule.tol, s.rule.eps)
  ELSE IF LSgnT(Norm(a), 1) * LSgnT(Norm(b), 1) <= 0 THEN LZero(Len(a))
  ELSE Trunc(LMul(s.rule.tol, LET h == LMin(LAbs(a), LAbs(b)) IN Norm(LAdd(h, h))), Len(a))
GoesOn(s, t) ==
  LET C == IF s.rule.alg = "brent" THEN s.cands ELSE s.prev IN
  C = {} \/ \E c \in C : LLeq(SureWidth(s, c), Width(s, c), t)
\* f(b) is known, or will be evaluated
Begin(a, b, c, known, rule) ==
  /\ ls = <<>> /\ a.p < b.p /\ b.p < c.p /\ b.v < a.v /\ b.v < c.v
  /\ ls' = [pts |-> <<a, c, b>>, cands |-> {<<1, 3, 2>>}, n |-> 0, known |-> known, prev |-> {}, rule |-> rule]
\* one evaluation.  At the current point itself, nothing is learnt: only if the bracket cannot be divided any more (res)
Eval(u, res, t) ==
  /\ ls # <<>> /\ (ls.known => GoesOn(ls, t))
  /\ LET s == [ls EXCEPT !.pts = Append(@, u), !.n = @ + 1, !.known = TRUE, !.prev = IF ls.known THEN ls.cands ELSE {}] k == Len(s.pts)
         N == UNION {Narrowed(s, c, k) : c \in {d \in ls.cands : Inside(s, d, k) /\ (u.p = Pos(s, d[2]) => res \/ ~ls.known)}} IN
       /\ N # {} /\ \A i \in 1..(k - 1) : s.pts[i].p = u.p => s.pts[i].v = u.v
       /\ ls' = [s EXCEPT !.cands = N]
\* the search returns the point of rank p with value of rank v
\* max: the limit of evaluations. t: rounding of the widths
Return(alg, p, v, max, tol, eps, t) ==
  /\ ls # <<>> /\ ls.known /\ v = Low(ls.pts)
  /\ \E c \in ls.cands : Pos(ls, c[2]) = p /\ Val(ls, c[2]) = v
  /\ ls.n <= max
  /\ ls.n < max => \E c \in ls.cands : LLeq(Width(ls, c), StopWidth(ls, c, alg, tol, eps), t)
  /\ ls' = <<>>
\* for a function with its only minimum at xs: the result is as near as the width of a final bracket
Accurate(alg, x, xs, max, tol, eps, t) ==
  ls.n < max => \E c \in ls.cands : LLeq(LAbs(LSub(x, xs)), StopWidth(ls, c, alg, tol, eps), t)
=============================================================================
