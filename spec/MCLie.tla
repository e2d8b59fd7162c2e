-------------------------------- MODULE MCLie --------------------------------
(* The definitions of module Groups themselves: the generators span the right *)
(* algebra, and the exponential of limb matrices is an exponential.           *)
EXTENDS Groups
CONSTANTS Coords      \* values of the coordinates, in quarters, plus 8
VARIABLES v, g, c      \* c: the exponential, its inverse and the tolerance
vars == <<v, g, c, regs>>
Names == {"SO2", "SE2", "SIM2", "SO3", "SE3", "SIM3"}
L5 == 5
Quarter(x) == LET y == x - 8 IN Norm(<<0, 2500 * y, 0, 0, 0>>)
Pattern(n) == {[i \in 1..n |-> IF i % 3 = a THEN p ELSE IF (i + a) % 2 = 0 THEN q ELSE 8] : a \in 0..2, p \in Coords, q \in Coords}
Init == regs = <<>> /\ g \in Names /\ v \in Pattern(DoF(g)) /\ c = <<>>
LV == [i \in 1..Len(v) |-> Quarter(v[i])]
H == Hat(g, 0, LV)
Next == /\ c = <<>>
        /\ c' = LET e == ExpM(H) IN [e |-> e, i |-> ExpM(LMNeg(H)), t |-> 400 + 40 * ElMag(e)]
        /\ UNCHANGED <<v, g, regs>>
Spec == Init /\ [][Next]_vars
Done == c # <<>>
E == c.e
T == c.t
\* coordinates of Hat are the vector
CoordsBack == Done => \A i \in 1..DoF(g) : Coord(g, H, i) = LV[i]
\* traceless: determinant one; with log-scale s and dimension n: s^n
OneParameter == Done => LET W == ExpM(LMDivI(H, 2)) IN LMNear(LMMul(W, W, L5), E, T)
InverseOK == Done => LMNear(LMMul(c.i, E, L5), IntL(MId(E.r), L5), T)
RotOK == Done /\ g \in {"SO2", "SO3"} => IsRotation(E, T)
AffineOK == Done /\ g \in Affine => \A j \in 1..E.c : NearInt(At(E, E.r, j), IF j = E.c THEN 1 ELSE 0, T)
\* adjoint of the exponential: Ad_exp(u) u = u
AdSelf == Done => LET A == AdM(g, E, c.i) IN LMNear(LMMul(A, LCol(LV), L5), LCol(LV), 4 * T)
\* known values: e, cos 1 and sin 1
Known == (g = "SO2" /\ v = <<8>> /\ Done) =>
  /\ LNear(ExpM([r |-> 1, c |-> 1, d |-> << <<1, 0, 0, 0, 0>> >>]).d[1], <<2, 7182, 8182, 8459, 452>>, 20)
  /\ LET R == ExpM([r |-> 2, c |-> 2, d |-> << LZero(5), LInt(-1, 5), LInt(1, 5), LZero(5) >>]) IN
       LNear(At(R, 1, 1), <<0, 5403, 230, 5868, 1397>>, 20) /\ LNear(At(R, 2, 1), <<0, 8414, 7098, 4807, 8965>>, 20)
  /\ LET R == ExpM([r |-> 2, c |-> 2, d |-> << LZero(5), Norm(<<-3, -1415, -9265, -3589, -7932>>), Norm(<<3, 1415, 9265, 3589, 7932>>), LZero(5) >>]) IN NearInt(At(R, 1, 1), -1, 20) /\ NearInt(At(R, 2, 1), 0, 30)
  /\ LNear(PiSq(5), Trunc(LMul(<<3, 1415, 9265, 3589, 7932>>, <<3, 1415, 9265, 3589, 7932>>), 5), 20)
\* SL(n): n^2 - 1 different matrices without trace
SLBasis == (g = "SO2" /\ v = <<8>> /\ Done) => \A n \in 2..4 : LET S == {SLGen(n, i) : i \in 1..(n * n - 1)} IN Cardinality(S) = n * n - 1 /\ \A m \in S : MTrace(m) = 0 /\ \A k \in 1..Len(m.d) : m.d[k] \in {-1, 0, 1}
=============================================================================
