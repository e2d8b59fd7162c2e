------------------------------ MODULE GenObjects -----------------------------
(* Random behaviours of Objects as scripts. *)
EXTENDS Objects, TLC, Json, Randomization
CONSTANTS Depth, Slots
VARIABLE hist
Init == objs = [s \in 1..Slots |-> None] /\ hist = <<>>
Rnd(a, b) == RandomElement(a..b)
RV(n) == RowAsMat([i \in 1..n |-> Rnd(-9, 9)])
RM(r, c) == [r |-> r, c |-> c, d |-> [i \in 1..(r * c) |-> Rnd(-9, 9)]]
Shape(k) == CASE k = "VS" -> <<1, 4>> [] k \in {"VD", "VR"} -> <<1, RandomElement({0, 1, 3, 4, 4, 5})>> [] k = "MS" -> <<2, 3>> [] k = "MH" -> <<2, RandomElement({0, 2, 3})>> [] OTHER -> RandomElement({<<2, 3>>, <<3, 2>>, <<0, 2>>, <<1, 4>>, <<4, 1>>})
Err(ok) == IF ok THEN 0 ELSE 1
Skip == UNCHANGED objs /\ hist' = Append(hist, <<"skip">>)
New(s) == \E k \in {RandomElement(VKinds \cup MKinds)} : \E sh \in {Shape(k)} : \E m \in {RM(sh[1], sh[2])} :
            Construct(s, k, m, 0) /\ hist' = Append(hist, <<"ctor", s, k, m.r, m.c>> \o m.d)
FromOther(s, o) ==
  \E f \in {RandomElement(IF IsVec(objs[o]) THEN {"id", "slice", "neg", "twice", "scale", "gram"} ELSE {"id", "T", "row", "neg", "twice", "scale"})} :
  \E p \in {IF f = "row" THEN Rnd(0, Max2(0, objs[o].r - 1)) ELSE IF f = "slice" THEN Rnd(0, objs[o].c) ELSE Rnd(-2, 2)} :
  \E n \in {IF f = "slice" THEN Rnd(0, objs[o].c - p) ELSE Rnd(1, 5)} :
  \E k \in {RandomElement(IF IsVec(objs[o]) \/ f = "row" THEN VKinds ELSE MKinds)} :
    LET ok == SourceOK(f, o, p, n)  m == Source(f, o, p, n)  vec == IsVec(objs[o]) \/ f = "row" IN
    IF ~ok \/ ~MBound(Val(objs[o]), 2000) THEN Skip
    ELSE IF objs[s].st = "none" THEN Construct(s, k, m, Err(Fits(k, m.r, m.c))) /\ hist' = Append(hist, <<"ctorf", s, k, f, o, p, n>>)
    ELSE IF IsVec(objs[s]) # vec \/ (objs[s].st = "moved" /\ ~Takes(objs[s], m)) \/ (s = o /\ f \in {"T", "slice"}) THEN Skip
    ELSE Assign(s, m, Err(Takes(objs[s], m))) /\ hist' = Append(hist, <<"asgf", s, f, o, p, n>>)
Other(s, o) ==
  \E z \in {Rnd(1, 9)} : \E x \in {Rnd(-9, 9)} : \E n \in {Rnd(0, 6)} :
    CASE z = 1 /\ objs[s].st = "none" -> MoveCtor(s, o) /\ hist' = Append(hist, <<"move", s, o>>)
      [] z = 2 /\ Usable(s) /\ s # o /\ objs[s].k = objs[o].k /\ (OK(s) \/ Takes(objs[s], Val(objs[o]))) ->
           MoveAssign(s, o, Err(Takes(objs[s], Val(objs[o])))) /\ hist' = Append(hist, <<"moveasg", s, o>>)
      [] z \in {3, 4} /\ OK(s) /\ IsVec(objs[s]) = IsVec(objs[o]) /\ (IsVec(objs[s]) \/ objs[s].k = objs[o].k) ->
           Swap(s, o, Err((objs[s].r = objs[o].r /\ objs[s].c = objs[o].c) \/ (objs[s].k = "VR" /\ objs[o].k = "VR"))) /\ hist' = Append(hist, <<"swap", s, o>>)
      [] z = 5 /\ OK(s) /\ IsVec(objs[s]) = IsVec(objs[o]) /\ VBound(objs[s].d, 9000) /\ VBound(objs[o].d, 9000) ->
           InPlace(s, "pluseq", Val(objs[o]), 0, Err(objs[s].r = objs[o].r /\ objs[s].c = objs[o].c)) /\ hist' = Append(hist, <<"ipo", s, "pluseq", o>>)
      [] z \in {6, 7} /\ OK(s) /\ objs[s].r * objs[s].c > 0 -> Write(s, 0, objs[s].c - 1, x) /\ hist' = Append(hist, <<"write", s, 0, objs[s].c - 1, x>>)
      [] z = 8 /\ Usable(s) /\ objs[s].k = "VR" ->
           Resize(s, n, [p \in 1..n |-> IF OK(s) /\ p <= objs[s].c THEN objs[s].d[p] ELSE p]) /\ hist' = Append(hist, <<"resize", s, n>>)
      [] z = 9 /\ Usable(s) -> Destroy(s) /\ hist' = Append(hist, <<"destroy", s>>)
      [] OTHER -> Skip
Next == \E s \in {Rnd(1, Slots)}, o \in {Rnd(1, Slots)}, z \in {Rnd(1, 2)} :
          IF objs[s].st = "none" /\ z = 1 THEN New(s)
          ELSE IF OK(o) /\ z = 1 THEN FromOther(s, o)
          ELSE IF OK(o) THEN Other(s, o)
          ELSE Skip
Spec == Init /\ [][Next]_<<objs, hist>>
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
