--------------------------------- MODULE Deriv ---------------------------------
(* Numerical differentiation.  A function of several variables is known only  *)
(* through its values at the points where it is evaluated: near x, displaced  *)
(* from it in the differenced coordinates alone.  The functions here are      *)
(* polynomials p and f(p) for a function f of one variable, so the            *)
(* derivatives are known exactly.                                             *)
(* A polynomial: a sequence of [c, e], c times the product of x[i]^e[i].      *)
(* The point: x[i] = k[i]/4 in units S = 2^sh in which the vector is given.   *)
EXTENDS Limb
VARIABLES prob,     \* the problem being differentiated: [p, k, phi]
          seen,     \* the sets of coordinates that were displaced together
          res       \* gradient and Hessian that were returned for it
dvars == <<prob, seen, res>>
NoRes == [g |-> <<>>, h |-> <<>>]
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN 1 ELSE x * PowI(x, k - 1)
RECURSIVE ProdTo(_, _, _)
ProdTo(e, k, i) == IF i = 0 THEN 1 ELSE PowI(k[i], e[i]) * ProdTo(e, k, i - 1)
RECURSIVE SumE(_, _)
SumE(e, i) == IF i = 0 THEN 0 ELSE e[i] + SumE(e, i - 1)
Degree(t) == SumE(t.e, Len(t.e))
Deg(p) == IF p = <<>> THEN 0 ELSE MaxSeq([q \in 1..Len(p) |-> Degree(p[q])])
\* 256 times the value of a polynomial of degree at most 4 at k/4
TermAt(t, k) == t.c * ProdTo(t.e, k, Len(k)) * PowI(4, 4 - Degree(t))
RECURSIVE ValTo(_, _, _)
ValTo(p, k, q) == IF q = 0 THEN 0 ELSE ValTo(p, k, q - 1) + TermAt(p[q], k)
Val256(p, k) == ValTo(p, k, Len(p))
\* partial derivative
DTerm(t, i) == [c |-> t.c * t.e[i], e |-> IF t.e[i] = 0 THEN [j \in 1..Len(t.e) |-> 0] ELSE [t.e EXCEPT ![i] = @ - 1]]
Partial(p, i) == [q \in 1..Len(p) |-> DTerm(p[q], i)]
\* how large the function can be near x
Size(p, k) == LET m == [i \in 1..Len(k) |-> IF Abs(k[i]) < 4 THEN 4 ELSE Abs(k[i])] IN
  1 + Val256([q \in 1..Len(p) |-> [p[q] EXCEPT !.c = Abs(@)]], m) \div 256
Exact(x, n) == LDivI(LInt(x, n), 256)
\* f'(p(x)) and f''(p(x)) from the value y = f(p(x))
RECURSIVE LPow(_, _, _)
LPow(y, k, n) == IF k = 1 THEN Trunc(y, n) ELSE Trunc(LMul(LPow(y, k - 1, n), Trunc(y, n)), n)
Mul(a, b, n) == Trunc(LMul(a, b), n)
\* gradient element and Hessian element, checked without division: [l, r] must be equal
GPair(phi, y, pi, g, n) ==
  CASE phi = "id" -> <<g, pi>>
    [] phi = "exp" -> <<g, Mul(y, pi, n)>>
    [] phi = "inv" -> <<g, LNeg(Mul(LPow(y, 2, n), pi, n))>>
    [] phi = "sqrt" -> <<Mul(LAdd(g, g), y, n), pi>>
HPair(phi, y, pi, pj, pij, h, n) ==
  CASE phi = "id" -> <<h, pij>>
    [] phi = "exp" -> <<h, Mul(y, LAdd(Mul(pi, pj, n), pij), n)>>
    [] phi = "inv" -> <<h, LSub(Mul(LPow(y, 3, n), Mul(LAdd(pi, pi), pj, n), n), Mul(LPow(y, 2, n), pij, n))>>
    [] phi = "sqrt" -> LET y3 == LPow(y, 3, n) IN <<Mul(h, LAdd(LAdd(y3, y3), LAdd(y3, y3)), n), LSub(Mul(LAdd(pij, pij), LPow(y, 2, n), n), Mul(pi, pj, n))>>     \* 4 y^3 f'' = 2 y^2 p'' - p' p'
WithinL(a, b, tol) == ~LBad(a) /\ ~LBad(b) /\ LLeq(LSub(a, b), tol, 2) /\ LLeq(LSub(b, a), tol, 2)
\* what rounding may do, for a function of the given size: n limbs of 10^-4 each
GTol(F, n) == CASE n = 4 -> <<0, 0, 5 * F, 0>> [] n = 6 -> <<0, 0, 0, 20 * F, 0, 0>> [] n = 3 -> <<0, 2000 * F, 0>>
HTol(F, n) == CASE n = 4 -> <<0, F, 0, 0>> [] n = 6 -> <<0, 0, 30 * F, 0, 0, 0>> [] n = 3 -> <<0, 2000 * F, 0>>
FSize == LET F == Size(prob.p, prob.k) IN IF prob.phi = "id" THEN F ELSE IF prob.phi = "exp" THEN 5 * F * F ELSE F * F
------------------------------------------------------------------------------
DInit == prob = [p |-> <<>>, k |-> <<>>, phi |-> "id", y |-> <<>>] /\ seen = {} /\ res = NoRes
Pose(p, k, phi, y) == prob' = [p |-> p, k |-> k, phi |-> phi, y |-> y] /\ seen' = {} /\ res' = NoRes
N == Len(prob.k)
\* The function is evaluated with the coordinates D displaced, by at most far thousandths of the step that fits the size of x
Evaluate(D, far, most) == /\ Cardinality(D) <= most /\ D \subseteq 1..N /\ far <= 4000
                          /\ seen' = seen \cup {D} /\ UNCHANGED <<prob, res>>
EveryAxis == (\A i \in 1..N : {i} \in seen) = TRUE
EveryPair == (\A i, j \in 1..N : {i, j} \in seen) = TRUE
\* gradient and errors; the vector still holds k
Gradient(g, errs, k, n) ==
  /\ EveryAxis /\ k = prob.k /\ Len(g) = N
  /\ LET T == GTol(FSize, n) IN (\A i \in 1..N : LET q == GPair(prob.phi, prob.y, Exact(Val256(Partial(prob.p, i), k), n), g[i], n) IN WithinL(q[1], q[2], T)) = TRUE
  /\ res.g # <<>> => (g = res.g) = TRUE
  /\ (\A i \in 1..Len(errs) : ~LBad(errs[i]) /\ LSgn(errs[i], 0) >= 0 /\ (n > 3 => LLeq(errs[i], GTol(20 * FSize, n), 2))) = TRUE
  /\ res' = [res EXCEPT !.g = g] /\ seen' = {} /\ UNCHANGED prob
Hessian(h, errs, k, n, rough) ==
  /\ EveryPair /\ k = prob.k /\ h.r = N /\ h.c = N
  /\ (\A i, j \in 1..N : At(h, i, j) = At(h, j, i)) = TRUE
  /\ rough \/ (LET T == HTol(FSize, n) IN \A i \in 1..N : \A j \in i..N :
       LET D(m) == Exact(Val256(Partial(prob.p, m), k), n)
           q == HPair(prob.phi, prob.y, D(i), D(j), Exact(Val256(Partial(Partial(prob.p, i), j), k), n), At(h, i, j), n) IN WithinL(q[1], q[2], T)) = TRUE
  /\ res.h # <<>> => (h.d = res.h) = TRUE
  /\ (errs.d # <<>> => errs.r = N /\ errs.c = N /\ \A i, j \in 1..N : At(errs, i, j) = At(errs, j, i) /\ ~LBad(At(errs, i, j)) /\ LSgn(At(errs, i, j), 0) >= 0) = TRUE
  /\ res' = [res EXCEPT !.h = h.d] /\ seen' = {} /\ UNCHANGED prob
==============================================================================
