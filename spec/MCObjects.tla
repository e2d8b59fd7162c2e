------------------------------ MODULE MCObjects ------------------------------
EXTENDS Objects, TLC
CONSTANTS Slots, N, B
Kinds == {"VS", "VD", "VR", "MD"}
Init == objs = [s \in 1..Slots |-> None]
Fill(n, x) == RowAsMat([i \in 1..n |-> x])
Next ==
  \E s, o \in 1..Slots :
    \/ \E k \in Kinds, n \in {1, 4}, x \in {1} : Construct(s, k, IF k \in MKinds THEN MConst(n, 1, x) ELSE Fill(n, x), IF Fits(k, 1, n) \/ k \in MKinds THEN 0 ELSE 1)
    \/ \E k \in Kinds, e \in 0..1, f \in {"id", "neg", "slice"} : SourceOK(f, o, 0, 1) /\ (k \in VKinds) = IsVec(objs[o]) /\ Construct(s, k, Source(f, o, 0, 1), e)
    \/ \E e \in 0..1, f \in {"id", "twice", "slice"} : Usable(s) /\ SourceOK(f, o, 0, 1) /\ IsVec(objs[s]) = IsVec(objs[o]) /\ Assign(s, Source(f, o, 0, 1), e)
    \/ MoveCtor(s, o)
    \/ \E e \in 0..1 : MoveAssign(s, o, e)
    \/ \E e \in 0..1 : s # o /\ Swap(s, o, e)
    \/ \E e \in 0..1 : OK(o) /\ InPlace(s, "pluseq", Val(objs[o]), 0, e)
    \/ Write(s, 0, 0, 0)
    \/ \E n \in {0, 1, 4} : OK(s) /\ Resize(s, n, [p \in 1..n |-> IF p <= objs[s].c THEN objs[s].d[p] ELSE 0])
    \/ Destroy(s)
Spec == Init /\ [][Next]_objs
Small == \A s \in 1..Slots : VBound(objs[s].d, B)
(* only Resizable objects change size while they live *)
OnlyResizable == [][\A s \in 1..Slots : (objs[s].st # "none" /\ objs'[s].st # "none" /\ objs[s].k # "VR") => objs'[s].k = objs[s].k /\ objs'[s].r = objs[s].r /\ objs'[s].c = objs[s].c]_objs
(* a step changes at most two objects *)
Independent == [][Cardinality({s \in 1..Slots : objs'[s] # objs[s]}) <= 2]_objs
=============================================================================
