-------------------------------- MODULE MCDeriv --------------------------------
(* Differences of polynomials are derivatives with a known remainder,          *)
(* extrapolation to zero removes it, and the machine that moves one or two     *)
(* coordinates of its copy of x and puts them back evaluates the function      *)
(* where it may.                                                               *)
EXTENDS Deriv
CONSTANTS Dim, Reps, Coefs, MaxDeg, Points
Exps == {e \in [1..Dim -> 0..MaxDeg] : SumE(e, Dim) <= MaxDeg}
Monos == {<<[c |-> 1, e |-> e]>> : e \in Exps}
Ks == [1..Dim -> Points \cup {-q : q \in Points}]
Move(k, i, s) == [k EXCEPT ![i] = @ + s]
D2(p, i, j) == Partial(Partial(p, i), j)
\* differences with step h/4, of values times 256
ASSUME \A p \in Monos, k \in Ks, i \in 1..Dim, h \in 1..3 :
  192 * (Val256(p, Move(k, i, h)) - Val256(p, Move(k, i, -h))) = 96 * h * Val256(Partial(p, i), k) + h * h * h * Val256(D2(Partial(p, i), i, i), k)
ASSUME \A p \in Monos, k \in Ks, i \in 1..Dim, h \in 1..3 :
  16 * 192 * (Val256(p, Move(k, i, h)) - 2 * Val256(p, k) + Val256(p, Move(k, i, -h))) = 192 * h * h * Val256(D2(p, i, i), k) + h * h * h * h * Val256(D2(D2(p, i, i), i, i), k)
ASSUME \A p \in Monos, k \in Ks, i, j \in 1..Dim, h \in 1..3 : i # j =>
  LET At2(a, b) == Val256(p, Move(Move(k, i, a), j, b)) m == D2(p, i, j) IN
  4 * 96 * (At2(h, h) - At2(-h, h) - At2(h, -h) + At2(-h, -h)) = 96 * h * h * Val256(m, k) + h * h * h * h * (Val256(D2(m, i, i), k) + Val256(D2(m, j, j), k))
\* derivatives commute, and are linear
ASSUME \A p \in Monos, k \in Ks, i, j \in 1..Dim : Val256(D2(p, i, j), k) = Val256(D2(p, j, i), k)
ASSUME \A p, q \in Monos, k \in Ks, i \in 1..Dim : Val256(Partial(p \o q, i), k) = Val256(Partial(p, i), k) + Val256(Partial(q, i), k)
ASSUME \A p \in Monos, k \in Ks : Abs(Val256(p, k)) <= 256 * Size(p, k)
------------------------------------------------------------------------------
(* Extrapolation: values y[1], y[2], ... at 1, 1/2, 1/4, ...; all values times  *)
(* a common denominator                                                        *)
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Frac(p, q) == LET g == Gcd(Abs(p), Abs(q)) s == IF q < 0 THEN -1 ELSE 1 IN <<(s * p) \div g, (s * q) \div g>>
FSub(x, y) == Frac(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
FAdd(x, y) == Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
FTimes(n, x) == Frac(n * x[1], x[2])
FOver(x, n) == Frac(x[1], n * x[2])
\* the table: from the previous value at the same order and the one at the larger step
RECURSIVE Neville(_, _, _)
Neville(y, i, j) == IF j = 0 THEN y[i] ELSE FOver(FSub(FTimes(2^j, Neville(y, i, j - 1)), Neville(y, i - 1, j - 1)), 2^j - 1)
\* the polynomial through points i-j..i at zero, by Lagrange: weight of point m is the product over n of (0 - x_n) / (x_m - x_n)
RECURSIVE Weight(_, _, _, _)
Weight(m, n, i, acc) == IF n > i THEN acc ELSE Weight(m, n + 1, i, IF n = m THEN acc ELSE FOver(FTimes(-(2^m), acc), 2^n - 2^m))    \* -2^-n / (2^-m - 2^-n) = -2^m / (2^n - 2^m)
RECURSIVE Lagrange(_, _, _, _)
Lagrange(y, f, m, i) == IF m > i THEN <<0, 1>> ELSE FAdd(LET w == Weight(m, f, i, <<1, 1>>) IN Frac(w[1] * y[m][1], w[2] * y[m][2]), Lagrange(y, f, m + 1, i))
ASSUME \A s \in [1..4 -> Coefs] : LET y == [q \in 1..4 |-> <<s[q], 1>>] IN \A i \in 1..4 : \A j \in 0..(i - 1) : Neville(y, i, j) = Lagrange(y, i - j, i - j, i)
\* a remainder that is a polynomial of degree d is removed by the column d, and by all columns behind it
PolyAt(a, i) == FAdd(Frac(a[1], 1), FAdd(Frac(a[2], 2^(i - 1)), FAdd(Frac(a[3], 4^(i - 1)), Frac(a[4], 8^(i - 1)))))
ASSUME \A a \in [1..4 -> Coefs] : LET y == [i \in 1..5 |-> PolyAt(a, i)] d == IF a[4] # 0 THEN 3 ELSE IF a[3] # 0 THEN 2 ELSE IF a[2] # 0 THEN 1 ELSE 0 IN
  \A i \in 1..5 : \A j \in d..(i - 1) : Neville(y, i, j) = <<a[1], 1>>
------------------------------------------------------------------------------
(* The machine *)
VARIABLES pos,      \* displacement of its copy of x, in steps
          task,     \* what is differenced: coordinates that move, <<i>> or <<i, j>>
          reps, mode
mvars == <<pos, task, reps, mode>>
K0 == [i \in 1..Dim |-> 2 * i - 3]
P0 == <<[c |-> 1, e |-> [i \in 1..Dim |-> 1]]>>
MInit == DInit /\ pos = [i \in 1..Dim |-> 0] /\ task = <<>> /\ reps = 0 /\ mode = "idle"
Displaced == {i \in 1..Dim : pos[i] # 0}
Begin(m) == mode = "idle" /\ Pose(P0, K0, "id", <<>>) /\ mode' = m /\ task' = (IF m = "grad" \/ Dim = 1 THEN <<1>> ELSE <<1, 2>>) /\ reps' = 0 /\ UNCHANGED pos
\* move the coordinates of the task and evaluate
Probe == /\ mode \in {"grad", "hess"} /\ reps < Reps
         /\ \E s \in [1..Len(task) -> {-1, 1}] : pos' = [i \in 1..Dim |-> IF \E q \in 1..Len(task) : task[q] = i THEN s[CHOOSE q \in 1..Len(task) : task[q] = i] ELSE pos[i]]
         /\ Evaluate({i \in 1..Dim : pos'[i] # 0}, 1000, IF mode = "grad" THEN 1 ELSE 2)
         /\ reps' = reps + 1 /\ UNCHANGED <<task, mode>>
NextTask == IF mode = "grad" THEN (IF task[1] < Dim THEN <<task[1] + 1>> ELSE <<>>)
            ELSE IF Len(task) = 2 THEN (IF task[2] < Dim THEN <<task[1], task[2] + 1>> ELSE IF task[1] + 1 < Dim THEN <<task[1] + 1, task[1] + 2>> ELSE <<1>>)
            ELSE (IF task[1] < Dim THEN <<task[1] + 1>> ELSE <<>>)
Put == /\ mode \in {"grad", "hess"} /\ reps >= 1 /\ task # <<>>
       /\ pos' = [i \in 1..Dim |-> IF \E q \in 1..Len(task) : task[q] = i THEN 0 ELSE pos[i]] /\ task' = NextTask /\ reps' = (IF NextTask = <<>> THEN Reps ELSE 0) /\ UNCHANGED <<mode, dvars>>
Deliver == /\ task = <<>> /\ mode \in {"grad", "hess"}
           /\ IF mode = "grad" THEN Gradient([i \in 1..Dim |-> Exact(Val256(Partial(P0, i), K0), 4)], [i \in 1..Dim |-> LZero(4)], K0, 4)
              ELSE LET F(i, j) == Exact(Val256(D2(P0, i, j), K0), 4) Z(i, j) == LZero(4) IN Hessian(Mat(Dim, Dim, F), Mat(Dim, Dim, Z), K0, 4, FALSE)
           /\ mode' = "idle" /\ UNCHANGED <<pos, task, reps>>
MNext == Begin("grad") \/ Begin("hess") \/ Probe \/ Put \/ Deliver
MSpec == MInit /\ [][MNext]_<<dvars, mvars>>
\* only what is being differenced is displaced, nothing between tasks
OnlyTask == \A i \in 1..Dim : pos[i] # 0 => \E q \in 1..Len(task) : task[q] = i
\* the machine never gets stuck: it can always deliver
Live == mode # "idle" => ENABLED (Probe \/ Put \/ Deliver)
==============================================================================
