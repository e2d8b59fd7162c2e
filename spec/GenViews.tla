------------------------------- MODULE GenViews ------------------------------
(* Random behaviours of Views, as scripts for the conformance harness.  Root kinds are numbered in the harness; all   *)
(* roots of a matrix world are 3 x 4 and all vector roots have 7 elements.                                            *)
EXTENDS Views, TLC, Json, Randomization
CONSTANTS Depth
VARIABLE hist, dep
MRoots == 0..7
VRoots == 8..12
Init == /\ \E k \in {RandomElement(MRoots \cup VRoots)} :
              /\ hist = << <<"root", k>> >>
              /\ hs = IF k \in MRoots THEN <<[t |-> "m", ix |-> RowMajorIx(3, 4)]>> ELSE <<[t |-> "v", ix |-> RowAsMat([i \in 1..7 |-> i])]>>
              /\ mem = [i \in 1..(IF k \in MRoots THEN 12 ELSE 7) |-> i]
        /\ dep = <<0>>
Rnd(a, b) == RandomElement(a..b)
DeriveOne(k, h) ==
  \E op \in {RandomElement(IF h.t = "m" THEN MOps \ {"sslice"} ELSE VOps \ {"vsslice"})} :
  \E r0 \in {Rnd(0, h.ix.r)}, c0 \in {Rnd(0, h.ix.c)} :
  \E rl \in {Rnd(0, h.ix.r - r0)}, cl \in {Rnd(0, h.ix.c - c0)} :
    LET a == CASE op = "row" -> <<Min2(r0, h.ix.r - 1), 0, 0, 0>>
               [] op = "col" -> <<Min2(c0, h.ix.c - 1), 0, 0, 0>>
               [] op = "slice" -> <<r0, c0, rl, cl>>
               [] op = "vslice" -> <<c0, cl, 0, 0>>
               [] OTHER -> <<0, 0, 0, 0>>
    IN IF dep[k] < 3 /\ h.ix.r * h.ix.c > 0 /\ InRange(h, op, a)
       THEN Derive(k, op, a) /\ dep' = Append(dep, dep[k] + 1) /\ hist' = Append(hist, <<"derive", k, op>> \o a)
       ELSE UNCHANGED <<mem, hs, dep>> /\ hist' = Append(hist, <<"read", k>>)
WriteOne(k, h) ==
  \E f \in {RandomElement({"asg", "asgc", "pluseq", "minuseqc", "ones", "set", "addones"})} :
  \E x \in {Rnd(-50, 50)}, i \in {Rnd(0, h.ix.r)}, j \in {Rnd(0, h.ix.c)} :
    IF f = "set"
    THEN IF i < h.ix.r /\ j < h.ix.c THEN SetElem(k, i, j, x) /\ UNCHANGED dep /\ hist' = Append(hist, <<"set", k, i, j, x>>)
         ELSE UNCHANGED <<mem, hs, dep>> /\ hist' = Append(hist, <<"read", k>>)
    ELSE LET w == [p \in 1..Len(h.ix.d) |-> x + 3 * p] IN
         InPlace(k, f, w, x) /\ UNCHANGED dep /\ hist' = Append(hist, <<"ip", k, f, x>> \o w)
DropSome == \E n \in {Rnd(1, Len(hs))} : Drop(n) /\ dep' = SubSeq(dep, 1, n) /\ hist' = Append(hist, <<"drop", n>>)
Next == \E k \in {Rnd(1, Len(hs))}, z \in {Rnd(1, 10)} :
          IF Len(hs) > 9 THEN DropSome
          ELSE IF z <= 4 THEN DeriveOne(k, hs[k])
          ELSE IF z <= 6 THEN UNCHANGED <<mem, hs, dep>> /\ hist' = Append(hist, <<"read", k>>)
          ELSE WriteOne(k, hs[k])
Spec == Init /\ [][Next]_<<mem, hs, hist, dep>>
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
