-------------------------------- MODULE Bounds -------------------------------
(* Which slices and indices are accepted.  Written without s + l so that the  *)
(* extremes of the integer range need no special case.                        *)
EXTENDS Integers, Sequences

InSlice(n, s, l) == s >= 0 /\ l >= 0 /\ s <= n /\ l <= n - s
InIndex(n, i) == i >= 0 /\ i < n
Rej(ok) == IF ok THEN 0 ELSE 1

VSlice(n, s, l, err, sz) == err = Rej(InSlice(n, s, l)) /\ (sz # -1 => sz = l)
MSlice(r, c, rs, cs, rl, cl, err, sz) ==
  /\ err = Rej(InSlice(r, rs, rl) /\ InSlice(c, cs, cl))
  /\ sz[1] # -1 => sz = <<rl, cl>>
VIndex(n, i, err) == err = Rej(InIndex(n, i))
MIndex(r, c, i, j, err) == err = Rej(InIndex(r, i) /\ InIndex(c, j))
=============================================================================
