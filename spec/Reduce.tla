------------------------------- MODULE Reduce -------------------------------
(* Norms, extremes, reductions and the other helpers of helpers.h: what each  *)
(* of them returns for an operand (a vector or a matrix), what it does to the *)
(* operand, and vectors whose elements have names.                            *)
(* Elements are whole numbers of units of 1/Q.                                *)
EXTENDS Limb, FiniteSets
CONSTANT Q
VARIABLES ob,      \* the operand: [t: "v", x] or [t: "m", m]; <<>>: none
          nm       \* the elements of a vector with named elements, in the order of the names; <<>>: none
------------------------------------------------------------------------------
(* Definitions *)
SumSq(x) == Dot(x, x)
Sum1(x) == Sum(VAbs(x))
SupAbs(x) == MaxSeq(VAbs(x))
RowSums(m) == [i \in 1..m.r |-> Sum1(Row(m, i))]
ColSums(m) == [j \in 1..m.c |-> Sum1(Col(m, j))]
\* the first of the extreme elements; positions count from 0
IsFirstMin(x, k, v) == /\ k \in 0..(Len(x) - 1) /\ x[k + 1] = v /\ \A i \in 1..Len(x) : v <= x[i] /\ (i <= k => v < x[i])
IsFirstMax(x, k, v) == /\ k \in 0..(Len(x) - 1) /\ x[k + 1] = v /\ \A i \in 1..Len(x) : v >= x[i] /\ (i <= k => v > x[i])
\* of a matrix: the first in the order of rows
FirstMinAt(m, i, j, v) == i \in 0..(m.r - 1) /\ j \in 0..(m.c - 1) /\ IsFirstMin(m.d, i * m.c + j, v)
FirstMaxAt(m, i, j, v) == i \in 0..(m.r - 1) /\ j \in 0..(m.c - 1) /\ IsFirstMax(m.d, i * m.c + j, v)
Symm2(m) == MAdd(m, MT(m))                      \* twice the symmetrised matrix
CrossMat(v) == [r |-> 3, c |-> 3, d |-> <<0, -v[3], v[2], v[3], 0, -v[1], -v[2], v[1], 0>>]
Unproj(x) == Append(x, Q)
MUnproj(m) == [r |-> m.r + 1, c |-> m.c, d |-> m.d \o VConst(m.c, Q)]
------------------------------------------------------------------------------
(* Computed reals.  u: rounding in units of the last limb per unit of value    *)
\* n is the Euclidean norm of elements with the sum of squares s (in 1/Q^2)
IScale(a, k) == Norm([i \in 1..Len(a) |-> a[i] * k])
IsNorm(n, s, u) == LET L == Len(n) IN ~LBad(n) /\ LSgn(n, 0) >= 0 /\ NearInt(IScale(Trunc(LMul(n, n), L), Q * Q), s, u * (s + 20000))
\* p / q, both in 1/Q, where q # 0
IsRatio(r, p, q, u) == ~LBad(r) /\ NearInt(IScale(r, q), p, u * (Abs(p) + Abs(q) + 10))
\* r has the direction of x and length 1; n is the norm of x
IsUnit(r, x, n, u) ==
  /\ Len(r) = Len(x) /\ IsNorm(n, SumSq(x), u)
  /\ \A i \in 1..Len(x) : ~LBad(r[i]) /\ NearInt(IScale(Trunc(LMul(r[i], n), Len(n)), Q), x[i], u * (Abs(x[i]) + 500))
IsProject(r, x, u) == LET n == Len(x) IN Len(r) = n - 1 /\ \A i \in 1..(n - 1) : IsRatio(r[i], x[i], x[n], u)
IsMProject(r, m, u) == r.r = m.r - 1 /\ r.c = m.c /\ Len(r.d) = r.r * r.c /\ \A i \in 1..r.r : \A j \in 1..r.c : IsRatio(At(r, i, j), At(m, i, j), At(m, m.r, j), u)
\* r is the inverse of the 2x2 matrix m
IsInv(r, m, u) ==
  LET d == At(m, 1, 1) * At(m, 2, 2) - At(m, 1, 2) * At(m, 2, 1)
      adj == <<At(m, 2, 2), -At(m, 1, 2), -At(m, 2, 1), At(m, 1, 1)>> IN
  \A k \in 1..4 : ~LBad(r.d[k]) /\ NearInt(IScale(r.d[k], d), Q * adj[k], u * (Abs(d) + Q * Abs(adj[k]) + Abs(At(m, 1, 1) * At(m, 2, 2)) + Abs(At(m, 1, 2) * At(m, 2, 1)) + 10) * 4)
------------------------------------------------------------------------------
(* Steps: what is told of the operand afterwards is part of every step *)
IsVec == ob # <<>> /\ ob.t = "v"
IsMat == ob # <<>> /\ ob.t = "m"
NewVec(x) == ob' = [t |-> "v", x |-> x] /\ UNCHANGED nm
NewMat(m) == WellFormed(m) /\ ob' = [t |-> "m", m |-> m] /\ UNCHANGED nm
KeepV(x2) == IsVec /\ x2 = ob.x /\ UNCHANGED <<ob, nm>>
KeepM(m2) == IsMat /\ m2 = ob.m /\ UNCHANGED <<ob, nm>>
Gone == ob' = <<>> /\ UNCHANGED nm
Norms(nsq, n1, ninf, n, n2, x2, u) == KeepV(x2) /\ nsq = SumSq(ob.x) /\ n1 = Sum1(ob.x) /\ ninf = SupAbs(ob.x) /\ IsNorm(n, SumSq(ob.x), u) /\ n2 = n
UnitOf(r, n, x2, u) == KeepV(x2) /\ IsUnit(r, ob.x, n, u)
Normalized(r, n, u) == IsVec /\ IsUnit(r, ob.x, n, u) /\ Gone
VExt(mn, mx, mne, mxe, x2) == KeepV(x2) /\ IsFirstMin(ob.x, mne.i, mn) /\ IsFirstMax(ob.x, mxe.i, mx) /\ mne.v = mn /\ mxe.v = mx
Projected(r, x2, u) == KeepV(x2) /\ IsProject(r, ob.x, u)
Unprojected(r, x2) == KeepV(x2) /\ r = Unproj(ob.x)
CrossOf(m, x2) == KeepV(x2) /\ Len(ob.x) = 3 /\ m = CrossMat(ob.x)
FillV(p, x2) == IsVec /\ x2 = VConst(Len(ob.x), p) /\ ob' = [ob EXCEPT !.x = x2] /\ UNCHANGED nm
FillM(p, m2) == IsMat /\ m2 = MConst(ob.m.r, ob.m.c, p) /\ ob' = [ob EXCEPT !.m = m2] /\ UNCHANGED nm
\* codes: 0 finite, 1 or 2 infinite, 3 not a number
Special(codes, fin, nan) == fin = (\A k \in 1..Len(codes) : codes[k] = 0) /\ nan = (\E k \in 1..Len(codes) : codes[k] = 3) /\ UNCHANGED <<ob, nm>>
MNorms(fro, n1, ninf, m2, u) == KeepM(m2) /\ IsNorm(fro, SumSq(ob.m.d), u) /\ n1 = MaxSeq(ColSums(ob.m)) /\ ninf = MaxSeq(RowSums(ob.m))
MExt(mn, mx, mne, mxe, m2) == KeepM(m2) /\ FirstMinAt(ob.m, mne.i, mne.j, mn) /\ FirstMaxAt(ob.m, mxe.i, mxe.j, mx) /\ mne.v = mn /\ mxe.v = mx
Lines(m, dir) == IF dir = "v" THEN MCols(m) ELSE [i \in 1..m.r |-> Row(m, i)]
LExt(dir, mn, mx, mnv, mni, mxv, mxi, m2) ==
  /\ KeepM(m2)
  /\ LET ls == Lines(ob.m, dir) n == Len(ls) IN
     /\ Len(mn) = n /\ Len(mx) = n /\ Len(mni) = n /\ Len(mxi) = n /\ mnv = mn /\ mxv = mx
     /\ \A k \in 1..n : IsFirstMin(ls[k], mni[k], mn[k]) /\ IsFirstMax(ls[k], mxi[k], mx[k])
Symmetrized(m2) == IsMat /\ MScale(m2, 2) = Symm2(ob.m) /\ ob' = [ob EXCEPT !.m = m2] /\ UNCHANGED nm
TraceIs(tr, m2) == KeepM(m2) /\ tr = MTrace(ob.m)
MProjected(r, m2, u) == KeepM(m2) /\ IsMProject(r, ob.m, u)
MUnprojected(r, m2) == KeepM(m2) /\ r = MUnproj(ob.m)
InvIs(r, m2, u) == KeepM(m2) /\ ob.m.r = 2 /\ ob.m.c = 2 /\ IsInv(r, ob.m, u)
(* Named elements: names and positions are two ways to the same element *)
NamedNew(x) == nm' = x /\ UNCHANGED ob
NamedSet(k, v) == nm # <<>> /\ k \in 1..Len(nm) /\ nm' = [nm EXCEPT ![k] = v] /\ UNCHANGED ob
NamedAssign(x) == nm # <<>> /\ Len(x) = Len(nm) /\ nm' = x /\ UNCHANGED ob
NamedAdd(x) == NamedAssign(VAdd(nm, x))
NamedMul(m) == NamedAssign(MVec(m, nm))
NamedScale(k) == NamedAssign(VScale(nm, k))
NamedSlice(s, x) == nm # <<>> /\ s + Len(x) <= Len(nm) /\ nm' = VReplace(nm, s, x) /\ UNCHANGED ob
NamedLook == nm # <<>> /\ UNCHANGED <<ob, nm>>
=============================================================================
