------------------------------- MODULE Unsized -------------------------------
(* C07.  Zeros, Ones and Identity have no size of their own: they take the   *)
(* dimensions of the object they are combined with.  The state is one        *)
(* object; a scaled constant contributes s/dv times its name.                *)
EXTENDS LinAlg

VARIABLE obj                      \* [t |-> "m", m |-> matrix], [t |-> "v", v |-> vector] or [t |-> "none"]

MBase(what, r, c) ==
  CASE what = "Zeros" -> MConst(r, c, 0)
    [] what = "Ones" -> MConst(r, c, 1)
    [] what = "Identity" -> LET F(i, j) == IF i = j THEN 1 ELSE 0 IN Mat(r, c, F)
VBase(what, n) == VConst(n, IF what = "Zeros" THEN 0 ELSE 1)
(* The contribution: k such that dv * k = s * base (drivers choose s a multiple of dv) *)
Scale(s, dv) == IF dv > 0 THEN s \div dv ELSE (-s) \div (-dv)
MK(what, s, dv, r, c) == MScale(MBase(what, r, c), Scale(s, dv))
VK(what, s, dv, n) == VScale(VBase(what, n), Scale(s, dv))
Defined(what, r, c) == what = "Identity" => r = c

MHow == {"asg", "pluseq", "minuseq"}
EHow == {"add", "addl", "sub", "subl"}
MNew(how, m, k) == CASE how = "asg" -> k [] how = "pluseq" -> MAdd(m, k) [] how = "minuseq" -> MSub(m, k)
MExpr(how, m, k) == CASE how \in {"add", "addl"} -> MAdd(m, k) [] how = "sub" -> MSub(m, k) [] how = "subl" -> MSub(k, m)
VNew(how, v, k) == CASE how = "asg" -> k [] how = "pluseq" -> VAdd(v, k) [] how = "minuseq" -> VSub(v, k)
VExpr(how, v, k) == CASE how \in {"add", "addl"} -> VAdd(v, k) [] how = "sub" -> VSub(v, k) [] how = "subl" -> VSub(k, v)

(* In-place use writes the object; use in an expression leaves it alone. x is the value of the expression. *)
MStep(what, s, dv, how, x) ==
  LET m == obj.m  k == MK(what, s, dv, m.r, m.c) IN
  /\ obj.t = "m" /\ Defined(what, m.r, m.c)
  /\ IF how \in MHow THEN obj' = [obj EXCEPT !.m = MNew(how, m, k)]
     ELSE how \in EHow /\ x = MExpr(how, m, k) /\ obj' = obj
VStep(what, s, dv, how, x) ==
  LET v == obj.v  k == VK(what, s, dv, Len(v)) IN
  /\ obj.t = "v" /\ what # "Identity"
  /\ IF how \in MHow THEN obj' = [obj EXCEPT !.v = VNew(how, v, k)]
     ELSE how \in EHow /\ x = VExpr(how, v, k) /\ obj' = obj
=============================================================================
