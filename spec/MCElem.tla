-------------------------------- MODULE MCElem --------------------------------
(* The element algebra is what it should be: result types are a join, a       *)
(* conversion to a wider type before or after an operation gives the same     *)
(* (except for the division of integers), rational numbers form a field,      *)
(* products of quaternions are associative and distribute but do not commute. *)
(* In-place updates keep the type of the register, whatever they combine.     *)
EXTENDS Elem, TLC
CONSTANTS Types, K, Steps    \* at most Steps operations in a row
Elems(t) ==
  CASE t = "i" -> {<<U * k>> : k \in -K..K}
    [] Fam(t) = "r" -> {<<(U \div 2) * k>> : k \in -K..K}
    [] Fam(t) = "c" -> {<<(U \div 2) * p, U * q>> : p \in -K..K, q \in {-1, 0, 1}}
    [] t = "q" -> {Frac(p, q) : p \in -K..K, q \in 1..K}
    [] t = "h" -> {<<p, q, r, 0>> : p \in {-1, 0, 2}, q \in {0, 1}, r \in {-1, 0, 1}} \cup {<<0, 0, 0, 1>>}
AllTypes == {"i", "f", "d", "l", "cf", "c", "q", "h"}
Or(s, t) == IF s = "none" \/ t = "none" THEN "none" ELSE RT(s, t)
ASSUME \A s, t \in AllTypes : RT(s, t) = RT(t, s) /\ RT(s, s) = s
ASSUME \A s, t, u \in AllTypes : Or(RT(s, t), u) # "none" /\ Or(s, RT(t, u)) # "none" => Or(RT(s, t), u) = Or(s, RT(t, u))
\* everything that can be combined can be converted to the type of the result
ASSUME \A s, t \in AllTypes : RT(s, t) # "none" => Fits(s, RT(s, t)) /\ Fits(t, RT(s, t))
\* converting up and back gives the same; converting is idempotent
ASSUME \A s, t \in AllTypes : RT(s, t) = t /\ Fits(t, s) => \A x \in Elems(s) : Conv(t, s, Conv(s, t, x)) = x
ASSUME \A s, t \in AllTypes : Fits(s, t) => \A x \in Elems(s) : Conv(t, t, Conv(s, t, x)) = Conv(s, t, x)
Ring == {"i", "f", "c", "q", "h"}
ASSUME \A t \in Ring : \A x, y, z \in Elems(t) :
  /\ Add1(t, x, y) = Add1(t, y, x) /\ Add1(t, Add1(t, x, y), z) = Add1(t, x, Add1(t, y, z)) /\ Add1(t, x, Neg1(t, x)) = Zero(t) /\ Mul1(t, One(t), x) = x /\ Mul1(t, x, One(t)) = x
  /\ Mul1(t, x, Add1(t, y, z)) = Add1(t, Mul1(t, x, y), Mul1(t, x, z)) /\ Mul1(t, Add1(t, x, y), z) = Add1(t, Mul1(t, x, z), Mul1(t, y, z))
  /\ t # "h" => Mul1(t, x, y) = Mul1(t, y, x)
  /\ Mul1(t, Mul1(t, x, y), z) = Mul1(t, x, Mul1(t, y, z))
ASSUME \E x, y \in Elems("h") : Mul1("h", x, y) # Mul1("h", y, x)
ASSUME \A x, y \in Elems("q") : y[1] # 0 => Mul1("q", Div1("q", x, y), y) = x
ASSUME \A x \in Elems("i"), y \in Elems("i") : y[1] # 0 => LET q == Div1("i", x, y) IN Abs(Mul1("i", q, y)[1]) <= Abs(x[1]) /\ Abs(Sub1("i", x, Mul1("i", q, y))[1]) < Abs(y[1])
\* widening is a homomorphism
Widens == {<<"i", "f">>, <<"i", "d">>, <<"f", "d">>, <<"i", "q">>, <<"i", "h">>, <<"f", "cf">>, <<"d", "c">>}
ASSUME \A w \in Widens : \A x, y \in Elems(w[1]) : \A o \in {"+", "-", "*"} : Conv(w[1], w[2], Op(o, w[1], w[1], x, y)) = Op(o, w[2], w[2], Conv(w[1], w[2], x), Conv(w[1], w[2], y))
ASSUME \A s, t \in {"i", "f", "d", "q"} : RT(s, t) # "none" => \A x \in Elems(s), y \in Elems(t) : Op("*", s, t, x, y) = Op("*", t, s, y, x)
\* the order of the factors of a product of matrices matters, and is kept: (row times matrix) times column = row times (matrix times column)
HVecs == {V("h", <<x, y>>) : x \in {<<0, 1, 0, 0>>, <<1, 0, 0, 0>>}, y \in {<<0, 0, 1, 0>>, <<2, 0, 0, 1>>}}
HMats == {M("h", 2, 2, <<<<0, 0, 1, 0>>, <<1, 1, 0, 0>>, x, <<0, 0, 0, 1>>>>) : x \in {<<0, 1, 0, 0>>, <<1, 0, 0, 0>>}}
ASSUME \A v, w \in HVecs, p \in HMats : DotV(VecMat(v, p), w) = DotV(v, MatVec(p, w))
ASSUME \A p, q \in HMats, w \in HVecs : MatVec(MatMat(p, q), w) = MatVec(p, MatVec(q, w))
------------------------------------------------------------------------------
\* registers of every pair of types that can be combined
Pick2(t) == LET S == Elems(t) IN {CHOOSE x \in S : \A y \in S : x[1] >= y[1], CHOOSE x \in S : \A y \in S : x[1] <= y[1], One(t)}
Init == \E s \in Types, t \in Types :
  /\ RT(s, t) # "none" /\ Fits(t, s)
  /\ \E x \in Pick2(s), y, z \in Pick2(t) : a = V(s, <<x>>) /\ b = V(t, <<y>>) /\ m = M(s, 1, 1, <<x>>) /\ n = M(t, 1, 1, <<z>>)
Small1(x) == \A k \in 1..Len(x) : Abs(x[k]) <= 4 * K * U
OnGrid(t, x) == Fam(t) \in {"r", "c"} => \A k \in 1..Len(x) : x[k] % 8 = 0
Bound == \A v \in {a.x[1], m.d[1]} : Small1(v) /\ OnGrid(a.t, v)
Step == \/ \E o \in {"+", "-", "="} : VUpdate(o) \/ MUpdate(o)
        \/ VProduct \/ MProduct \/ VScaled("*", One(a.t))
        \/ \E o \in {"=", "+", "-"} : VOnes(o, "i", <<U>>) \/ MIdent(o, "i", <<U>>)
Next == TLCGet("level") <= Steps /\ Bound /\ Step
Spec == Init /\ [][Next]_evars
Kept == [][a'.t = a.t /\ m'.t = m.t /\ b' = b /\ n' = n]_evars
Whole(t, x) == (t = "i" => x[1] % U = 0) /\ (t = "q" => x[2] > 0 /\ Gcd(Abs(x[1]), x[2]) = 1)
TypeOK == \A v \in {a, b} : Whole(v.t, v.x[1])
MTypeOK == Whole(m.t, m.d[1]) /\ Whole(n.t, n.d[1])
\* comparing is an equivalence, also between types
Compared == SameV(a, a) /\ (SameV(a, b) <=> SameV(b, a)) /\ (SameM(m, n) <=> SameM(n, m))
\* the types of results do not depend on the values
ResultTypes == \A o \in {"a+b", "dg", "m*n", "m*b"} : Bound => Binary(o).t = RT(a.t, b.t)
==============================================================================
