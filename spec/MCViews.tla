------------------------------- MODULE MCViews -------------------------------
(* Every chain of views of small owners, and what writing through them does. *)
EXTENDS Views, TLC
CONSTANTS R, C, Depth
Init == /\ mem = [k \in 1..(R * C) |-> 10 + k]
        /\ hs \in {<<[t |-> "m", ix |-> RowMajorIx(R, C)]>>, <<[t |-> "m", ix |-> ColMajorIx(R, C)]>>, <<[t |-> "v", ix |-> RowAsMat([i \in 1..(R * C) |-> i])]>>}
Fresh == \A k \in 1..Len(mem) : mem[k] = 10 + k
DeriveAny == /\ Len(hs) <= Depth /\ Fresh
             /\ \E op \in MOps \cup VOps, a1, a2 \in 0..(R + 1), a3, a4 \in 0..C :
                  /\ op \in {"row", "col"} => a2 = 0 /\ a3 = 0 /\ a4 = 0
                  /\ op \in {"vslice"} => a3 = 0 /\ a4 = 0
                  /\ op \in {"T", "diag", "as_row", "as_col"} => a1 = 0 /\ a2 = 0 /\ a3 = 0 /\ a4 = 0
                  /\ op \notin {"sslice", "vsslice", "ref", "as_slice"}
                  /\ Derive(Len(hs), op, <<a1, a2, a3, a4>>)
Last == hs[Len(hs)]
WriteAny == /\ Fresh
            /\ \/ InPlace(Len(hs), "asg", [p \in 1..Len(Last.ix.d) |-> 100 + p], 0)
               \/ InPlace(Len(hs), "muleq", <<>>, 3)
               \/ \E i \in 1..Last.ix.r, j \in 1..Last.ix.c : SetElem(Len(hs), i - 1, j - 1, 99)
Next == DeriveAny \/ WriteAny
Spec == Init /\ [][Next]_vvars
(* a derived view denotes no cell that its parent does not denote *)
Shrinks == \A k \in 2..Len(hs) : Cells(hs[k]) \subseteq Cells(hs[k - 1])
(* a write changes exactly the cells of the handle written through *)
Frame == [][hs' = hs => \A c \in 1..Len(mem) : mem'[c] # mem[c] => c \in Cells(Last)]_vvars
(* reading back through the handle gives what was written *)
ReadBack == [][(hs' = hs /\ \E p \in 1..Len(Last.ix.d) : mem'[Last.ix.d[p]] = 101) => \A p \in 1..Len(Last.ix.d) : mem'[Last.ix.d[p]] = 100 + p]_vvars
TT == \A k \in 1..Len(hs) : MT(MT(hs[k].ix)) = hs[k].ix
(* a slice of a slice is a slice with the starts added *)
SliceOfSlice == Last.t = "m" => \A a \in 0..1, b \in 0..1 : (a + b + 1 <= Last.ix.r /\ Last.ix.c >= 1) =>
                  MSliceOf(MSliceOf(Last.ix, a, 0, Last.ix.r - a, 1), b, 0, 1, 1) = MSliceOf(Last.ix, a + b, 0, 1, 1)
=============================================================================
