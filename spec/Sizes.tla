-------------------------------- MODULE Sizes --------------------------------
(* Which operand sizes an operation accepts, and the size of its result.      *)
(* A shape is <<rows, columns>>; a vector of n elements is <<n, 1>>.          *)
EXTENDS Integers, Sequences, TLC

Mn(d) == IF d[1] < d[2] THEN d[1] ELSE d[2]
ElementWise == {"vadd", "vsub", "vdiag", "vdot", "viadd", "visub", "veq", "vne", "vasg", "vasgexpr", "vswap",
                "madd", "msub", "miadd", "misub", "masg", "meq", "mne"}
Compat(k, a, b) ==
  CASE k \in ElementWise -> a = b
    [] k \in {"mm", "mv", "mdiag", "rowset", "rowiadd", "mdm"} -> a[2] = b[1]
    [] k \in {"mmT", "rowdot", "rowasg"} -> a[2] = b[2]
    [] k \in {"mTm", "coldot", "colasg", "vm", "vmdiag", "colset", "dmm"} -> a[1] = b[1]
    [] k = "diagasg" -> Mn(a) = Mn(b)
    [] k = "diagset" -> Mn(a) = b[1]
    [] k = "outer" -> TRUE
    [] k = "massignd" -> a = <<b[1], b[1]>>
    [] k = "sq" -> a[1] = a[2]                      \* needs a square matrix
    [] k \in {"rhs", "wls1", "irls"} -> a[1] = b[1]  \* n x n system, right-hand side
    [] k = "cmp" -> a = b                            \* compute() on an object of that size
    [] k = "len2" -> a[1] = 2
    [] k = "len3" -> a[1] = 3
    [] k = "len4" -> a[1] = 4
    [] k = "len6" -> a[1] = 6
    [] k = "len7" -> a[1] = 7
    [] OTHER -> FALSE
(* Size of the result (or of the destination afterwards) of an accepted operation *)
Result(k, a, b) ==
  CASE k = "mm" -> <<a[1], b[2]>>
    [] k = "mmT" -> <<a[1], b[1]>>
    [] k = "mTm" -> <<a[2], b[2]>>
    [] k = "mv" -> <<a[1], 1>>
    [] k = "vm" -> <<a[2], 1>>
    [] k = "outer" -> <<b[1], a[2]>>
    [] OTHER -> a
(* A call on operands of shapes a, b: accepted exactly when compatible; a rejected call changes nothing *)
Call(k, a, b, err, changed, seen, res) ==
  /\ err = (IF Compat(k, a, b) THEN 0 ELSE 1)
  /\ ~changed
  /\ seen => res = Result(k, a, b)
(* n-parameter least squares given d measurements, a jr x jc Jacobian and a cc x cc inverse covariance *)
WlsBatch(n, jr, k, d, cc) == jr = n /\ d = k /\ cc = k
=============================================================================
