-------------------------------- MODULE Arith --------------------------------
(* C06.  Two parts.                                                          *)
(* 1. A register machine: four square matrices m and four vectors v, each    *)
(*    held by an object of a different storage kind in the implementation.   *)
(*    Every operation writes exactly one register; the destination may also  *)
(*    be an operand.                                                         *)
(* 2. CalcOK(e): the meaning of one arithmetic expression on freshly built   *)
(*    operands of any storage kind and size (including empty ones).          *)
EXTENDS LinAlg

VARIABLES m, v
mvars == <<m, v>>

MOps == {"mul", "add", "sub", "addeq", "subeq", "asg", "neg", "scale", "divexact", "addmul", "subT", "mulT",
         "diagl", "diagr", "addid", "subones", "outer", "setrow", "setcol"}
VOps == {"mv", "vm", "vadd", "vsub", "vaddeq", "vsubeq", "vasg", "vneg", "vscale", "vdiag", "cross", "vrow", "vcol",
         "mvaddeq", "vaddones"}

(* The new value of matrix register d *)
MResult(f, d, a, b, s) ==
  CASE f = "mul" -> MMul(m[a], m[b])
    [] f = "add" -> MAdd(m[a], m[b])
    [] f = "sub" -> MSub(m[a], m[b])
    [] f = "addeq" -> MAdd(m[d], m[a])
    [] f = "subeq" -> MSub(m[d], m[a])
    [] f = "asg" -> m[a]
    [] f = "neg" -> MNeg(m[a])
    [] f = "scale" -> MScale(m[d], s)
    [] f = "divexact" -> m[d]                                 \* *= s, / s, *= 2, /= 2
    [] f = "addmul" -> MAdd(m[d], MMul(m[a], m[b]))
    [] f = "subT" -> MSub(m[a], MT(m[b]))
    [] f = "mulT" -> MMul(MT(m[a]), m[b])
    [] f = "diagl" -> MMul(MDiag(v[a]), m[b])
    [] f = "diagr" -> MMul(m[a], MDiag(v[b]))
    [] f = "addid" -> MAdd(m[a], MScale(MId(m[a].r), s))
    [] f = "subones" -> MSub(m[a], MConst(m[a].r, m[a].c, s))
    [] f = "outer" -> Outer(v[a], v[b])
    [] f = "setrow" -> MReplace(m[d], s, 0, RowAsMat(v[a]))
    [] f = "setcol" -> MReplace(m[d], 0, s, ColAsMat(v[a]))
(* The new value of vector register d *)
VResult(f, d, a, b, s) ==
  CASE f = "mv" -> MVec(m[a], v[b])
    [] f = "vm" -> VMat(v[a], m[b])
    [] f = "vadd" -> VAdd(v[a], v[b])
    [] f = "vsub" -> VSub(v[a], v[b])
    [] f = "vaddeq" -> VAdd(v[d], v[a])
    [] f = "vsubeq" -> VSub(v[d], v[a])
    [] f = "vasg" -> v[a]
    [] f = "vneg" -> VNeg(v[a])
    [] f = "vscale" -> VScale(v[d], s)
    [] f = "vdiag" -> VMulE(v[a], v[b])
    [] f = "cross" -> Cross(v[a], v[b])
    [] f = "vrow" -> Row(m[a], s + 1)
    [] f = "vcol" -> Col(m[a], s + 1)
    [] f = "mvaddeq" -> VAdd(v[d], MVec(m[a], v[b]))
    [] f = "vaddones" -> VAddC(v[a], s)

Step(f, d, a, b, s) ==
  IF f \in MOps THEN m' = [m EXCEPT ![d] = MResult(f, d, a, b, s)] /\ UNCHANGED v
  ELSE f \in VOps /\ v' = [v EXCEPT ![d] = VResult(f, d, a, b, s)] /\ UNCHANGED m

------------------------------------------------------------------------------
(* Expressions on operands of every kind: e carries operands before (a, b, v), the results, and the operands after *)
CalcOK(e) ==
  CASE e.op = "mm" -> /\ e.res = MMul(e.a, e.b) /\ e.res2 = e.res /\ e.a2 = e.a /\ e.b2 = e.b /\ e.g
    [] e.op = "addsub" -> /\ e.res = MAdd(e.a, e.b) /\ e.res2 = MSub(e.a, e.b)
                          /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b) /\ e.eq2 = e.eq /\ e.ne2 = e.ne
                          /\ e.a2 = e.a /\ e.b2 = e.b /\ e.g
    [] e.op = "madd" -> e.a2 = MAdd(e.a, e.b) /\ e.b2 = e.b /\ e.g
    [] e.op = "msub" -> e.a2 = MSub(e.a, e.b) /\ e.b2 = e.b /\ e.g
    [] e.op = "massign" -> e.a2 = e.b /\ e.b2 = e.b /\ e.g
    [] e.op = "masgmul" -> e.a2 = MMul(e.l, e.b) /\ e.b2 = e.b /\ e.g
    [] e.op = "mv" -> e.res = MVec(e.a, e.v) /\ e.dm = MMul(e.a, MDiag(e.v)) /\ e.a2 = e.a /\ e.v2 = e.v /\ e.g
    [] e.op = "vm" -> e.res = VMat(e.v, e.a) /\ e.dm = MMul(MDiag(e.v), e.a) /\ e.a2 = e.a /\ e.v2 = e.v /\ e.g
    [] e.op = "valias" -> e.v2 = MVec(e.a, e.v) /\ e.v3 = VMat(e.v2, e.a) /\ e.a2 = e.a /\ e.g
    [] e.op = "vv" -> /\ e.sum = VAdd(e.a, e.b) /\ e.dif = VSub(e.a, e.b) /\ e.dot = Dot(e.a, e.b) /\ e.dg = VMulE(e.a, e.b)
                      /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b) /\ e.outer = Outer(e.a, e.b) /\ e.a2 = e.a /\ e.b2 = e.b /\ e.g
    [] e.op = "vadd" -> e.a2 = VAdd(e.a, e.b) /\ e.b2 = e.b /\ e.g
    [] e.op = "vsub" -> e.a2 = VSub(e.a, e.b) /\ e.b2 = e.b /\ e.g
    [] e.op = "vassign" -> e.a2 = e.b /\ e.b2 = e.b /\ e.g
    [] e.op = "cross" -> e.res = Cross(e.a, e.b) /\ e.res2 = e.res /\ e.a2 = e.a /\ e.b2 = e.b /\ e.g
    [] e.op = "mscal" -> /\ e.x1 = MScale(e.a, e.s) /\ e.x2 = e.x1 /\ e.x5 = e.x1 /\ e.x6 = e.x1 /\ e.x3 = MNeg(e.a)
                         /\ e.tr = MT(e.a) /\ e.a2 = e.a /\ e.g
    [] e.op = "mdiv" -> MScale(e.y1, e.q) = e.a /\ e.y2 = e.y1 /\ e.y3 = MScale(e.y1, e.s) /\ e.a2 = e.a /\ e.g
    [] e.op = "vscal" -> /\ e.x1 = VScale(e.a, e.s) /\ e.x2 = e.x1 /\ e.x5 = e.x1 /\ e.x6 = e.x1 /\ e.x3 = VNeg(e.a) /\ e.a2 = e.a /\ e.g
    [] e.op = "vdiv" -> VScale(e.y1, e.q) = e.a /\ e.y2 = e.y1 /\ e.y3 = VScale(e.y1, e.s) /\ e.a2 = e.a /\ e.g
    [] e.op = "malias" -> /\ e.g
                          /\ e.a2 = (CASE e.w = 0 -> MMul(e.a, e.a) [] e.w = 1 -> MMul(e.a, MT(e.a)) [] e.w = 2 -> MMul(MT(e.a), e.a)
                                       [] e.w = 3 -> MScale(e.a, 2) [] e.w = 4 -> MScale(e.a, 0) [] e.w = 5 -> MScale(e.a, 2)
                                       [] e.w = 6 -> MAdd(e.a, MMul(e.a, e.a)) [] e.w = 7 -> MNeg(e.a) [] e.w = 8 -> e.a)
    [] e.op = "vself" -> /\ e.g
                         /\ e.a2 = (CASE e.w = 0 -> VScale(e.a, 2) [] e.w = 1 -> VScale(e.a, 0) [] e.w = 2 -> VScale(e.a, 2)
                                      [] e.w = 3 -> VNeg(e.a) [] e.w = 4 -> e.a [] e.w = 5 -> VMulE(e.a, e.a))
    [] e.op = "guards" -> e.g
    [] OTHER -> FALSE
=============================================================================
