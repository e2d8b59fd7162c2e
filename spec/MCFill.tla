-------------------------------- MODULE MCFill -------------------------------
(* The same fill into memory: an r x c destination with one of the layouts (row-major, column-major, the transpose,    *)
(* or a block of a bigger matrix), inside a memory with guard cells.                                                    *)
EXTENDS Fill, FiniteSets
CONSTANTS MaxDim, Extra
VARIABLES r, c, lay, mem
mvars == <<r, c, lay, mem, st, size, given, pos, cur>>
Layouts == {"row", "col", "block", "blockT"}
\* address of element (i, j), counted from 0; cell 0 is a guard before the object
Addr(i, j) == CASE lay = "row" -> 1 + i * c + j
                [] lay = "col" -> 1 + j * r + i
                [] lay = "block" -> 1 + (i + 1) * (c + 2) + (j + 1)
                [] lay = "blockT" -> 1 + (j + 1) * (r + 2) + (i + 1)
Top == 1 + (r + 2) * (c + 2)
RC(k) == <<(k - 1) \div c, (k - 1) % c>>
Logical == [k \in 1..size |-> mem[Addr(RC(k)[1], RC(k)[2])]]
Init == /\ r \in 1..MaxDim /\ c \in 1..MaxDim /\ lay \in Layouts
        /\ mem = [a \in 0..Top |-> -1 - a]
        /\ st \in {"Fill", "Data"} /\ size = r * c
        /\ given \in {[k \in 1..n |-> 100 + k] : n \in 1..(r * c + Extra)} /\ pos = 0 /\ cur = Logical
W(k, x) == [mem EXCEPT ![Addr(RC(k)[1], RC(k)[2])] = x]
RECURSIVE WAll(_, _)
WAll(m, k) == IF k = 0 THEN m ELSE [WAll(m, k - 1) EXCEPT ![Addr(RC(k)[1], RC(k)[2])] = given[k]]
Next == /\ UNCHANGED <<r, c, lay>>
        /\ \/ Place /\ mem' = W(pos + 1, given[pos + 1])
           \/ (Overfull \/ Underfull \/ Complete) /\ UNCHANGED mem
           \/ DataAll /\ mem' = (IF Len(given) = size THEN WAll(mem, size) ELSE mem)
Spec == Init /\ [][Next]_mvars
Refines == cur = Logical
InsideOnly == \A a \in 0..Top : (\A k \in 1..size : Addr(RC(k)[1], RC(k)[2]) # a) => mem[a] = -1 - a
DoneIffExact == /\ st = "done" => Len(given) = size /\ cur = given
                /\ st = "rejected" => Len(given) # size
Distinct == Cardinality({Addr(RC(k)[1], RC(k)[2]) : k \in 1..size}) = size
=============================================================================
