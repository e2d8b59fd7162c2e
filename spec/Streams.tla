------------------------------- MODULE Streams -------------------------------
(* Text streams that objects are written to and read from.  A stream holds    *)
(* text that was written and not yet read; objects are sequences of elements  *)
(* with the layout of a vector, a matrix or a transformation.                 *)
EXTENDS Limb
VARIABLES buf,     \* the characters not yet read
          fmt,     \* [w, fill, adj, pos, fixed, prec]: width for the next output, fill character, adjustment l/r/i, sign always shown, digits after the point
          fail     \* a read failed
svars == <<buf, fmt, fail>>
SP == 32
NL == 10
IsWS(c) == c \in {9, 10, 11, 12, 13, 32}
IsDigit(c) == c \in 48..57
Default == [w |-> 0, fill |-> SP, adj |-> "r", pos |-> FALSE, fixed |-> FALSE, prec |-> 6]
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Rep(c, n) == [k \in 1..n |-> c]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* t: element type, "i" integers, "r" reals, "c" complex numbers (pairs)
SignOf(v, f) == IF v < 0 THEN <<45>> ELSE IF f.pos THEN <<43>> ELSE <<>>
BodyOf(v, f, t) == Digits(Abs(v)) \o (IF f.fixed /\ t # "i" /\ f.prec > 0 THEN <<46>> \o Rep(48, f.prec) ELSE <<>>)
Pad(sign, body, f, w, adj) ==
  LET n == Len(sign) + Len(body) p == Rep(f.fill, IF w > n THEN w - n ELSE 0) IN
  IF adj = "l" THEN sign \o body \o p ELSE IF adj = "i" THEN sign \o p \o body ELSE p \o sign \o body
\* one element, in the given width
El(v, f, w, t) ==
  IF t = "c" THEN Pad(<<>>, <<40>> \o SignOf(v[1], f) \o BodyOf(v[1], f, t) \o <<44>> \o SignOf(v[2], f) \o BodyOf(v[2], f, t) \o <<41>>, f, w, IF f.adj = "l" THEN "l" ELSE "r")
  ELSE Pad(SignOf(v, f), BodyOf(v, f, t), f, w, f.adj)
\* the text of an object: every element in the same width
VText(x, f, t) == Cat([k \in 1..Len(x) |-> El(x[k], f, f.w, t) \o <<SP>>])
RowText(x, f, t) == Cat([k \in 1..Len(x) |-> (IF k > 1 THEN <<SP>> ELSE <<>>) \o El(x[k], f, f.w, t)]) \o <<NL>>
RowsOf(x, r, c) == [i \in 1..r |-> [j \in 1..c |-> x[(i - 1) * c + j]]]
MText(x, r, c, f, t) == Cat([i \in 1..r |-> RowText(RowsOf(x, r, c)[i], f, t)])
\* a transformation: rows of the rotation (times the scale), each followed by the element of the translation
TText(x, r, c, f, t) == MText(x, r, c, f, t)
Text(sh, x, f, t) == IF sh.k = "v" THEN VText(x, f, t) ELSE IF sh.k = "m" THEN MText(x, sh.r, sh.c, f, t) ELSE TText(x, sh.r, sh.c, f, t)
------------------------------------------------------------------------------
(* Reading *)
RECURSIVE SkipFrom(_, _)
SkipFrom(b, i) == IF i <= Len(b) /\ IsWS(b[i]) THEN SkipFrom(b, i + 1) ELSE i
RECURSIVE DigitsTo(_, _)
DigitsTo(b, i) == IF i <= Len(b) /\ IsDigit(b[i]) THEN DigitsTo(b, i + 1) ELSE i     \* first position that is no digit
RECURSIVE ValueOf(_, _, _, _)
ValueOf(b, i, j, v) == IF i = j THEN v ELSE ValueOf(b, i + 1, j, 10 * v + b[i] - 48)
No == [ok |-> FALSE, v |-> 0, n |-> 0]
Number(b, i0, t) ==
  LET i == SkipFrom(b, i0)
      sgn == i <= Len(b) /\ b[i] \in {43, 45}
      s == IF sgn THEN i + 1 ELSE i
      j == DigitsTo(b, s)
      v == ValueOf(b, s, j, 0) IN
  IF j = s THEN No
  ELSE [ok |-> TRUE, v |-> IF sgn /\ b[i] = 45 THEN -v ELSE v, n |-> IF t # "i" /\ j <= Len(b) /\ b[j] = 46 THEN DigitsTo(b, j + 1) ELSE j]
At1(b, i0, c) == LET i == SkipFrom(b, i0) IN IF i <= Len(b) /\ b[i] = c THEN i + 1 ELSE 0      \* position behind a character, 0 if it is not there
ElementAt(b, i, t) ==
  IF t # "c" THEN Number(b, i, t)
  ELSE LET p == At1(b, i, 40) IN IF p = 0 THEN No ELSE
       LET x == Number(b, p, t) IN IF ~x.ok THEN No ELSE
       LET q == At1(b, x.n, 44) IN IF q = 0 THEN No ELSE
       LET y == Number(b, q, t) IN IF ~y.ok THEN No ELSE
       LET z == At1(b, y.n, 41) IN IF z = 0 THEN No ELSE [ok |-> TRUE, v |-> <<x.v, y.v>>, n |-> z]
\* up to n elements: [x: those read, n: position behind the last, ok: all of them read]
RECURSIVE Elements(_, _, _, _)
Elements(b, i, n, t) ==
  IF n = 0 THEN [x |-> <<>>, n |-> i, ok |-> TRUE]
  ELSE LET e == ElementAt(b, i, t) IN
       IF ~e.ok THEN [x |-> <<>>, n |-> i, ok |-> FALSE]
       ELSE LET r == Elements(b, e.n, n - 1, t) IN [r EXCEPT !.x = <<e.v>> \o @]
From(b, i) == SubSeq(b, i, Len(b))
------------------------------------------------------------------------------
SInit == buf = <<>> /\ fmt = Default /\ fail = FALSE
Format(fill, adj, pos, fixed, prec) == fmt' = [fmt EXCEPT !.fill = fill, !.adj = adj, !.pos = pos, !.fixed = fixed, !.prec = prec] /\ UNCHANGED <<buf, fail>>
Width(w) == fmt' = [fmt EXCEPT !.w = w] /\ UNCHANGED <<buf, fail>>
Write(sh, x, t) == ~fail /\ buf' = buf \o Text(sh, x, fmt, t) /\ fmt' = [fmt EXCEPT !.w = 0] /\ UNCHANGED fail
Literal(s) == ~fail /\ buf' = buf \o s /\ UNCHANGED <<fmt, fail>>
\* an object that held x0 is read, and holds x afterwards
Read(x0, x, t) ==
  /\ ~fail /\ Len(x) = Len(x0)
  /\ LET r == Elements(buf, 1, Len(x0), t) k == Len(r.x) IN
     /\ SubSeq(x, 1, k) = r.x
     /\ r.ok => buf' = From(buf, r.n)
     /\ ~r.ok => SubSeq(x, k + 2, Len(x)) = SubSeq(x0, k + 2, Len(x0)) /\ buf' = <<>>
     /\ fail' = ~r.ok
  /\ UNCHANGED fmt
\* a failed stream does not change anything
ReadFailed(x0, x) == fail /\ x = x0 /\ UNCHANGED svars
\* another stream
Reopen == buf' = <<>> /\ fmt' = Default /\ fail' = FALSE
\* A transformation is read: rows of d elements of the rotation, each followed by an element of the translation (not for
\* k = "so", "sl").  The text is a signed permutation times a scale: "sim" takes the scale from it, "so" and "se" have none.
ReadT(k, d, m, tr, s) ==
  /\ ~fail
  /\ LET c == IF k \in {"so", "sl"} THEN d ELSE d + 1
         r == Elements(buf, 1, d * c, "r")
         at(i, j) == r.x[(i - 1) * c + j]
         sc == MaxSeq([j \in 1..d |-> Abs(at(1, j))]) IN
     /\ r.ok /\ m.r = d /\ m.c = d
     /\ \A i, j \in 1..d : At(m, i, j) = IF k = "sl" THEN at(i, j) ELSE Sgn(at(i, j))
     /\ c > d => tr = [i \in 1..d |-> at(i, c)]
     /\ s = IF k = "sim" THEN sc ELSE 1
     /\ buf' = From(buf, r.n)
  /\ UNCHANGED <<fmt, fail>>
\* with all digits written, what is read is what was written: exactly for elements, nearly for what is computed from them
Trip(x, y) == x = y /\ UNCHANGED svars
TripNear(x, y, tol) == Len(x) = Len(y) /\ (\A k \in 1..Len(x) : LNear(x[k], y[k], tol)) /\ UNCHANGED svars
Reset == buf' = <<>> /\ fail' = FALSE /\ UNCHANGED fmt
==============================================================================
