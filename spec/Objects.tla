------------------------------- MODULE Objects -------------------------------
(* C02 and C05.  A table of owning objects.  Every object has its own        *)
(* values: an operation changes the objects it names as destinations and no  *)
(* others.  Kinds: vectors VS (static, 4), VD (Dynamic), VR (Resizable);     *)
(* matrices MS (static 2x3), MD (Dynamic, row-major), MC (Dynamic,           *)
(* column-major), MH (2 x Dynamic).  Only VR changes size.                   *)
EXTENDS LinAlg

VARIABLE objs                   \* slot -> [k, st, r, c, d]; a vector is 1 x n
None == [k |-> "", st |-> "none", r |-> 0, c |-> 0, d |-> <<>>]
VKinds == {"VS", "VD", "VR"}
MKinds == {"MS", "MD", "MC", "MH"}
StaticN == 4
(* may an object of kind k have this shape? *)
Fits(k, r, c) == CASE k = "VS" -> r = 1 /\ c = StaticN
                   [] k \in {"VD", "VR"} -> r = 1
                   [] k = "MS" -> r = 2 /\ c = 3
                   [] k = "MH" -> r = 2
                   [] k \in {"MD", "MC"} -> TRUE
Obj(k, m) == [k |-> k, st |-> "ok", r |-> m.r, c |-> m.c, d |-> m.d]
Val(o) == [r |-> o.r, c |-> o.c, d |-> o.d]
IsVec(o) == o.k \in VKinds
OK(s) == objs[s].st = "ok"
Usable(s) == objs[s].st \in {"ok", "moved"}
Set(s, o) == objs' = [objs EXCEPT ![s] = o]
Nothing == UNCHANGED objs

(* Construction from a value (a copy, conversion, view, expression or sized constant): err = 1 and no object if the kind cannot hold it *)
Construct(s, k, m, err) ==
  /\ objs[s].st = "none"
  /\ IF Fits(k, m.r, m.c) THEN err = 0 /\ Set(s, Obj(k, m)) ELSE err = 1 /\ Nothing
(* Assignment of a value: a Resizable takes its size, any other object must have it already *)
Takes(o, m) == IF o.k = "VR" THEN m.r = 1 ELSE o.r = m.r /\ o.c = m.c
Assign(s, m, err) ==
  /\ Usable(s)
  /\ IF Takes(objs[s], m) THEN err = 0 /\ Set(s, Obj(objs[s].k, m)) ELSE err = 1 /\ OK(s) /\ Nothing
(* Move construction: the source may afterwards only be destroyed, assigned or moved into *)
MoveCtor(s, o) ==
  /\ objs[s].st = "none" /\ OK(o) /\ s # o
  /\ objs' = [objs EXCEPT ![s] = objs[o], ![o].st = "moved", ![o].d = <<>>]
MoveAssign(s, o, err) ==
  /\ Usable(s) /\ OK(o) /\ s # o /\ objs[s].k = objs[o].k
  /\ IF Takes(objs[s], Val(objs[o])) THEN err = 0 /\ objs' = [objs EXCEPT ![s] = objs[o], ![o].st = "moved", ![o].d = <<>>]
     ELSE err = 1 /\ OK(s) /\ Nothing
Destroy(s) == Usable(s) /\ Set(s, None)
(* swap exchanges values; only two Resizables may have different sizes *)
Swap(s, o, err) ==
  LET a == objs[s]  b == objs[o] IN
  /\ OK(s) /\ OK(o) /\ IsVec(a) = IsVec(b)
  /\ IF (a.r = b.r /\ a.c = b.c) \/ (a.k = "VR" /\ b.k = "VR")
     THEN err = 0 /\ objs' = [objs EXCEPT ![s] = Obj(a.k, Val(b)), ![o] = Obj(b.k, Val(a))]
     ELSE err = 1 /\ Nothing
(* In-place arithmetic never changes a size *)
InPlace(s, f, m, x, err) ==
  LET a == objs[s] IN
  /\ OK(s)
  /\ IF f \in {"pluseq", "minuseq"} /\ (a.r # m.r \/ a.c # m.c) THEN err = 1 /\ Nothing
     ELSE /\ err = 0
          /\ Set(s, [a EXCEPT !.d = CASE f = "pluseq" -> VAdd(a.d, m.d) [] f = "minuseq" -> VSub(a.d, m.d) [] f = "muleq" -> VScale(a.d, x)
                                     [] f = "zeros" -> VConst(Len(a.d), 0) [] f = "ones" -> VConst(Len(a.d), x) [] f = "addones" -> VAddC(a.d, x)])
Write(s, i, j, x) == OK(s) /\ i < objs[s].r /\ j < objs[s].c /\ Set(s, [objs[s] EXCEPT !.d[i * objs[s].c + j + 1] = x])
(* resize keeps the values of the first elements; the values of new ones are not specified *)
Resize(s, n, d) ==
  /\ Usable(s) /\ objs[s].k = "VR" /\ Len(d) = n
  /\ OK(s) => \A p \in 1..Min2(n, objs[s].c) : d[p] = objs[s].d[p]
  /\ Set(s, [k |-> "VR", st |-> "ok", r |-> 1, c |-> n, d |-> d])
(* A value made from object o through a view or an expression *)
Source(f, o, p, n) ==
  LET m == Val(objs[o]) IN
  CASE f = "id" -> m
    [] f = "slice" -> RowAsMat(VSlice(m.d, p, n))
    [] f = "T" -> MT(m)
    [] f = "row" -> RowAsMat(Row(m, p + 1))
    [] f = "neg" -> MNeg(m)
    [] f = "twice" -> MAdd(m, m)
    [] f = "scale" -> MScale(m, p)
    [] f = "gram" -> RowAsMat(MVec(Outer(VConst(n, 1), VConst(m.c, p)), m.d))      \* (n x c matrix of p) * vector
SourceOK(f, o, p, n) ==
  OK(o) /\ CASE f = "slice" -> IsVec(objs[o]) /\ p >= 0 /\ n >= 0 /\ p + n <= objs[o].c
             [] f = "T" -> ~IsVec(objs[o])
             [] f = "row" -> ~IsVec(objs[o]) /\ p \in 0..(objs[o].r - 1)
             [] f = "gram" -> IsVec(objs[o])
             [] OTHER -> TRUE
------------------------------------------------------------------------------
Shapes == \A s \in 1..Len(objs) : objs[s].st = "ok" => Fits(objs[s].k, objs[s].r, objs[s].c) /\ WellFormed(Val(objs[s]))
(* storage that must exist: the elements of the objects that hold values *)
RECURSIVE Held(_)
Held(n) == IF n = 0 THEN 0 ELSE Held(n - 1) + (IF objs[n].st = "ok" THEN Len(objs[n].d) ELSE 0)
=============================================================================
