------------------------------- MODULE MCSizes -------------------------------
(* A world of objects of fixed shape: expressions are built by applying operations to the shapes on a stack.  The laws *)
(* of linear algebra must agree with the size rules: re-association and transposition never change whether an          *)
(* expression is accepted, or its shape.                                                                               *)
EXTENDS Sizes
CONSTANTS N
VARIABLES a, b, c
D == 0..N
Shapes == {<<r, k>> : r \in D, k \in D}
Init == a \in Shapes /\ b \in Shapes /\ c \in Shapes
T(x) == <<x[2], x[1]>>
\* the size-changing steps: replace two operands by their product or sum, if accepted
Next == \/ Compat("mm", a, b) /\ a' = Result("mm", a, b) /\ b' = c /\ c' = T(a)
        \/ Compat("madd", a, b) /\ a' = Result("madd", a, b) /\ b' = c /\ c' = a
        \/ Compat("mmT", a, b) /\ a' = Result("mmT", a, b) /\ UNCHANGED <<b, c>>
        \/ a' = T(a) /\ UNCHANGED <<b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Assoc == (Compat("mm", a, b) /\ Compat("mm", Result("mm", a, b), c)) <=> (Compat("mm", b, c) /\ Compat("mm", a, Result("mm", b, c)))
AssocShape == (Compat("mm", a, b) /\ Compat("mm", b, c)) => Result("mm", Result("mm", a, b), c) = Result("mm", a, Result("mm", b, c))
Transposed == /\ Compat("mm", a, b) <=> Compat("mm", T(b), T(a))
              /\ Compat("mm", a, b) => Result("mm", T(b), T(a)) = T(Result("mm", a, b))
              /\ Compat("mmT", a, b) <=> Compat("mm", a, T(b))
              /\ Compat("mTm", a, b) <=> Compat("mm", T(a), b)
              /\ Compat("mmT", a, b) => Result("mmT", a, b) = Result("mm", a, T(b))
              /\ Compat("mTm", a, b) => Result("mTm", a, b) = Result("mm", T(a), b)
Symm == \A k \in ElementWise : Compat(k, a, b) = Compat(k, b, a)
Distr == (Compat("madd", b, c) /\ Compat("mm", a, b)) => (Compat("mm", a, c) /\ Result("mm", a, b) = Result("mm", a, c))
VecLaws == b[2] = 1 => /\ Compat("mv", a, b) <=> Compat("mm", a, b)
                       /\ Compat("vm", a, b) <=> Compat("mTm", b, a)
                       /\ Compat("mv", a, b) <=> Compat("mdiag", a, b)
                       /\ Compat("rowset", a, b) <=> Compat("mv", a, b)
=============================================================================
