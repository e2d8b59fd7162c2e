------------------------------ MODULE MCReduce ------------------------------
(* The folds that compute the reductions, one element at a time, for every     *)
(* small operand: each prefix holds what the definitions say, with the first   *)
(* of equal extremes; and the laws that connect the definitions.               *)
EXTENDS Reduce
CONSTANTS R, C, W
VARIABLES a, k, acc, dir, cur      \* a: operand (matrix), k: elements folded, acc, dir: order of the fold, cur: symmetrised so far
vars == <<a, k, acc, dir, cur, ob, nm>>
Els == (0 - W)..W
\* the k-th element visited: along the rows ("w", "h") or down the columns ("v")
Pos(d, n) == IF d = "v" THEN ((n - 1) % a.r) * a.c + ((n - 1) \div a.r) + 1 ELSE n
LineLen(d) == IF d = "v" THEN a.r ELSE IF d = "h" THEN a.c ELSE a.r * a.c
Start(d, n) == (n - 1) % LineLen(d) = 0
NoAcc == [mn |-> 0, mx |-> 0, mni |-> 0, mxi |-> 0, s |-> 0, s1 |-> 0, sup |-> 0, sq |-> 0]
Init == /\ a \in [r : {R}, c : {C}, d : [1..(R * C) -> Els]] /\ k = 0 /\ acc = NoAcc /\ dir \in {"w", "h", "v"} /\ ob = <<>> /\ nm = <<>> /\ cur = a
Fold ==
  /\ k < a.r * a.c
  /\ LET x == a.d[Pos(dir, k + 1)] i == k % LineLen(dir) IN
     acc' = [mn |-> IF i = 0 \/ x < acc.mn THEN x ELSE acc.mn, mni |-> IF i = 0 THEN 0 ELSE IF x < acc.mn THEN i ELSE acc.mni,
             mx |-> IF i = 0 \/ x > acc.mx THEN x ELSE acc.mx, mxi |-> IF i = 0 THEN 0 ELSE IF x > acc.mx THEN i ELSE acc.mxi,
             s |-> (IF i = 0 THEN 0 ELSE acc.s) + x, s1 |-> (IF i = 0 THEN 0 ELSE acc.s1) + Abs(x),
             sup |-> Max2(IF i = 0 THEN 0 ELSE acc.sup, Abs(x)), sq |-> (IF i = 0 THEN 0 ELSE acc.sq) + x * x]
  /\ k' = k + 1
  \* the elements above the diagonal are averaged with their mirror images, in the same order (values doubled at the end)
  /\ cur' = IF a.r # a.c THEN cur ELSE LET i == (k \div a.c) + 1 j == (k % a.c) + 1 IN
            IF i < j THEN [cur EXCEPT !.d[(i - 1) * a.c + j] = At(cur, i, j) + At(cur, j, i), !.d[(j - 1) * a.c + i] = At(cur, i, j) + At(cur, j, i)]
            ELSE IF i = j THEN [cur EXCEPT !.d[k + 1] = 2 * @] ELSE cur
  /\ UNCHANGED <<a, dir, ob, nm>>
Next == Fold
Spec == Init /\ [][Next]_vars
\* the line being folded, up to the last element folded
Prefix == LET n == ((k - 1) % LineLen(dir)) + 1 IN [i \in 1..n |-> a.d[Pos(dir, k - n + i)]]
FoldIsDefinition ==
  k > 0 => LET p == Prefix IN IsFirstMin(p, acc.mni, acc.mn) /\ IsFirstMax(p, acc.mxi, acc.mx) /\ acc.s = Sum(p) /\ acc.s1 = Sum1(p) /\ acc.sup = SupAbs(p) /\ acc.sq = SumSq(p)
LinesAreLines == (k > 0 /\ k % LineLen(dir) = 0 /\ dir # "w") => Prefix = Lines(a, dir)[k \div LineLen(dir)]
WholeIsWhole == (dir = "w" /\ k = a.r * a.c) => FirstMinAt(a, acc.mni \div a.c, acc.mni % a.c, acc.mn) /\ FirstMaxAt(a, acc.mxi \div a.c, acc.mxi % a.c, acc.mx)
\* only one answer is accepted
Unique == k > 0 => \A i \in 0..(Len(Prefix) - 1) : \A v \in Els : (IsFirstMin(Prefix, i, v) => i = acc.mni /\ v = acc.mn) /\ (IsFirstMax(Prefix, i, v) => i = acc.mxi /\ v = acc.mx)
SymmetrizedIs == (a.r = a.c /\ k = a.r * a.c) => cur = Symm2(a) /\ IsSym(cur) /\ MTrace(cur) = 2 * MTrace(a)
NormLaws == k > 0 => LET p == Prefix IN SupAbs(p) <= Sum1(p) /\ SumSq(p) <= Sum1(p) * Sum1(p) /\ SupAbs(p) * SupAbs(p) <= SumSq(p) /\ SumSq(p) <= Len(p) * SupAbs(p) * SupAbs(p)
MNormLaws == k = 0 => MaxSeq(RowSums(a)) = MaxSeq(ColSums(MT(a)))
CrossLaw == (a.r = 2 /\ a.c = 3 /\ k = 0) => MVec(CrossMat(Row(a, 1)), Row(a, 2)) = Cross(Row(a, 1), Row(a, 2)) /\ MT(CrossMat(Row(a, 1))) = MNeg(CrossMat(Row(a, 1)))
\* exact results are accepted, and others are not: ratios to three limbs
Third(p, q) == LDivI(LInt(p, 3), q)
RatioTold == k = 0 => \A i \in 1..(a.r * a.c) : LET q == Abs(a.d[i]) + 1 IN IsRatio(Third(a.d[1], q), a.d[1], q, 2) /\ ~IsRatio(LAdd(Third(a.d[1], q), <<0, 1, 0>>), a.d[1], q, 2)
=============================================================================
