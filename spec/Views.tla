-------------------------------- MODULE Views --------------------------------
(* C01.  A world of memory cells and handles onto them.                      *)
(* mem[k] is the value of cell k.  A handle is an owner, a wrapped buffer or *)
(* a view: t says whether it is a vector ("v") or a matrix ("m"), and ix is  *)
(* the matrix of the cells it denotes (one row for a vector).  Deriving a    *)
(* view computes a new index matrix and touches no cell; writing through a   *)
(* handle changes the cells it denotes and no others.                        *)
EXTENDS LinAlg

VARIABLES mem, hs
vvars == <<mem, hs>>

(* The index matrix of n fresh cells, or of the first cells of a raw buffer, in either storage order *)
RowMajorIx(r, c) == LET F(i, j) == (i - 1) * c + j IN Mat(r, c, F)
ColMajorIx(r, c) == LET F(i, j) == (j - 1) * r + i IN Mat(r, c, F)

(* The view derived from handle h *)
Derived(h, op, a) ==
  CASE op \in {"row", "crow"} -> [t |-> "v", ix |-> RowAsMat(Row(h.ix, a[1] + 1))]
    [] op \in {"col", "ccol"} -> [t |-> "v", ix |-> RowAsMat(Col(h.ix, a[1] + 1))]
    [] op = "T" -> [t |-> "m", ix |-> MT(h.ix)]
    [] op \in {"slice", "sslice"} -> [t |-> "m", ix |-> MSliceOf(h.ix, a[1], a[2], a[3], a[4])]
    [] op = "diag" -> [t |-> "v", ix |-> RowAsMat(DiagOf(h.ix))]
    [] op \in {"vslice", "vsslice"} -> [t |-> "v", ix |-> RowAsMat(VSlice(h.ix.d, a[1], a[2]))]
    [] op = "as_row" -> [t |-> "m", ix |-> RowAsMat(h.ix.d)]
    [] op = "as_col" -> [t |-> "m", ix |-> ColAsMat(h.ix.d)]
    [] op \in {"as_slice", "ref"} -> h
MOps == {"row", "col", "T", "slice", "sslice", "diag", "ref"}
VOps == {"vslice", "vsslice", "as_row", "as_col", "as_slice", "ref"}
InRange(h, op, a) ==
  IF h.t = "m" THEN op \in MOps /\ CASE op = "row" -> a[1] \in 0..(h.ix.r - 1)
                                      [] op = "col" -> a[1] \in 0..(h.ix.c - 1)
                                      [] op \in {"slice", "sslice"} -> /\ a[1] >= 0 /\ a[2] >= 0 /\ a[3] >= 0 /\ a[4] >= 0
                                                                       /\ a[1] + a[3] <= h.ix.r /\ a[2] + a[4] <= h.ix.c
                                      [] OTHER -> TRUE
  ELSE op \in VOps /\ CASE op \in {"vslice", "vsslice"} -> a[1] >= 0 /\ a[2] >= 0 /\ a[1] + a[2] <= h.ix.c
                        [] OTHER -> TRUE

Derive(k, op, a) == /\ InRange(hs[k], op, a)
                    /\ hs' = Append(hs, Derived(hs[k], op, a))
                    /\ UNCHANGED mem
Drop(n) == hs' = SubSeq(hs, 1, n) /\ UNCHANGED mem

(* What a read through a handle gives, in row-major order of the handle *)
Values(h) == [p \in 1..Len(h.ix.d) |-> mem[h.ix.d[p]]]
AsMatrix(h) == [r |-> h.ix.r, c |-> h.ix.c, d |-> Values(h)]

(* Writing the values w through handle h, where G(old, new) is stored *)
Written(h, w, G(_, _)) ==
  [k \in 1..Len(mem) |-> IF \E p \in 1..Len(h.ix.d) : h.ix.d[p] = k
                         THEN LET p == CHOOSE q \in 1..Len(h.ix.d) : h.ix.d[q] = k IN G(mem[k], w[p])
                         ELSE mem[k]]
Put(old, new) == new
Plus(old, new) == old + new
Minus(old, new) == old - new
Times(old, new) == old * new
Over(old, new) == IF new > 0 THEN old \div new ELSE (-old) \div (-new)
ConstOf(h, x) == VConst(Len(h.ix.d), x)

SetElem(k, i, j, x) == mem' = [mem EXCEPT ![At(hs[k].ix, i + 1, j + 1)] = x] /\ UNCHANGED hs
InPlace(k, f, w, s) ==
  LET h == hs[k] IN
  /\ mem' = CASE f \in {"asg", "asgc", "fill", "asgv"} -> Written(h, w, Put)
              [] f \in {"pluseq", "pluseqc"} -> Written(h, w, Plus)
              [] f \in {"minuseq", "minuseqc"} -> Written(h, w, Minus)
              [] f = "muleq" -> Written(h, ConstOf(h, s), Times)
              [] f = "diveq" -> Written(h, ConstOf(h, s), Over)
              [] f = "zeros" -> Written(h, ConstOf(h, 0), Put)
              [] f = "ones" -> Written(h, ConstOf(h, s), Put)
              [] f = "addones" -> Written(h, ConstOf(h, s), Plus)
  /\ UNCHANGED hs

(* Two handles of the same shape: exact aliases of each other, or without a common cell *)
Cells(h) == {h.ix.d[p] : p \in 1..Len(h.ix.d)}
Separate(a, b) == a.ix = b.ix \/ Cells(a) \cap Cells(b) = {}
Both(k, o, f) ==
  LET a == hs[k]  b == hs[o]  vb == Values(b)  va == Values(a) IN
  /\ SameShape(a.ix, b.ix) /\ a.t = b.t /\ Separate(a, b)
  /\ mem' = CASE f = "asg" -> Written(a, vb, Put)
              [] f = "pluseq" -> Written(a, vb, Plus)
              [] f = "minuseq" -> Written(a, vb, Minus)
              [] f = "swap" -> [c \in 1..Len(mem) |->
                   IF \E p \in 1..Len(va) : a.ix.d[p] = c THEN vb[CHOOSE p \in 1..Len(va) : a.ix.d[p] = c]
                   ELSE IF \E p \in 1..Len(va) : b.ix.d[p] = c THEN va[CHOOSE p \in 1..Len(va) : b.ix.d[p] = c]
                   ELSE mem[c]]
  /\ UNCHANGED hs

------------------------------------------------------------------------------
(* Every handle denotes existing cells, each at most once *)
Injective == \A k \in 1..Len(hs) : \A p, q \in 1..Len(hs[k].ix.d) : hs[k].ix.d[p] = hs[k].ix.d[q] => p = q
Within == \A k \in 1..Len(hs) : WellFormed(hs[k].ix) /\ Cells(hs[k]) \subseteq 1..Len(mem)
=============================================================================
