------------------------------- MODULE Lex ---------------------------------
(* What a piece of source text denotes.                                      *)
(*                                                                           *)
(* The text is a sequence of bytes.  The lexer is a machine over it: Skip    *)
(* moves over white space, comments and continued lines, Tok reads one       *)
(* token.  The text is expected to be a series of statements                 *)
(*     id ( literal )    or    id ( string string ... )                      *)
(* separated by newlines or semicolons.  Each of the known functions reports *)
(* the value of its argument; Verdict gives what is reported, "reject" for   *)
(* text that is not made of tokens or has a literal that does not fit, and   *)
(* "any" for everything this grammar does not cover.                         *)
EXTENDS Integers, Sequences, TLC, Json

Cases == ndJsonDeserialize("traces.ndjson")

(* ---------------------------------------------------------------- numbers *)
\* naturals below 2^64 in four 16 bit limbs, least significant first; with a
\* fifth limb for what does not fit
Zero == <<0, 0, 0, 0, 0>>
RECURSIVE MulAdd(_, _, _, _)
MulAdd(v, m, c, i) ==      \* v * m + c
  IF i = 5 THEN [v EXCEPT ![5] = IF v[5] + c > 0 THEN 1 ELSE 0]
  ELSE LET x == v[i] * m + c IN MulAdd([v EXCEPT ![i] = x % 65536], m, x \div 65536, i + 1)
Big(v) == v[5] > 0
Val(v) == SubSeq(v, 1, 4)
\* v < 2^n
Below(v, n) == ~Big(v) /\ \A i \in 1..4 :
    IF 16 * i <= n THEN TRUE ELSE IF 16 * (i - 1) >= n THEN v[i] = 0 ELSE v[i] < 2 ^ (n - 16 * (i - 1))
\* 2^(n-1), and v >= 2^64 - 2^(n-1)
HalfRange(n) == [i \in 1..5 |-> IF i = (n - 1) \div 16 + 1 THEN 2 ^ ((n - 1) % 16) ELSE 0]
Negative(v, n) == ~Big(v) /\ \A i \in 1..4 :
    IF 16 * i <= n - 1 THEN TRUE
    ELSE IF 16 * (i - 1) >= n - 1 THEN v[i] = 65535
    ELSE v[i] >= 65536 - 2 ^ (n - 1 - 16 * (i - 1))
Limb(n) == <<n % 65536, n \div 65536, 0, 0>>

(* ------------------------------------------------------------------ bytes *)
Space == {32, 9, 11, 12, 13}
Digit == 48..57
Lower == 97..122
Upper == 65..90
IdStart == Lower \cup Upper \cup {95, 36}
IdChar == IdStart \cup Digit
HexDigit == Digit \cup 97..102 \cup 65..70
Hex(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
At(T, i) == IF i <= Len(T) THEN T[i] ELSE -1

(* ---- white space: the position after it, or 0 when a comment is open at the end ---- *)
RECURSIVE Skip(_, _, _), Comment(_, _, _), Line(_, _)
Line(T, i) == IF i > Len(T) \/ T[i] = 10 THEN i ELSE Line(T, i + 1)
Comment(T, i, depth) ==
  IF i > Len(T) THEN 0
  ELSE IF T[i] = 47 /\ At(T, i + 1) = 42 THEN Comment(T, i + 2, depth + 1)
  ELSE IF T[i] = 42 /\ At(T, i + 1) = 47 THEN IF depth = 1 THEN i + 2 ELSE Comment(T, i + 2, depth - 1)
  ELSE Comment(T, i + 1, depth)
Skip(T, i, cont) ==
  IF i > Len(T) THEN i
  ELSE IF T[i] = 10 THEN IF cont THEN Skip(T, i + 1, FALSE) ELSE i
  ELSE IF T[i] = 92 THEN Skip(T, i + 1, TRUE)
  ELSE IF T[i] \in Space THEN Skip(T, i + 1, cont)
  ELSE IF T[i] = 47 /\ At(T, i + 1) = 42
       THEN LET j == Comment(T, i + 2, 1) IN IF j = 0 THEN 0 ELSE Skip(T, j, cont)
  ELSE IF T[i] = 47 /\ At(T, i + 1) = 47 THEN Skip(T, Line(T, i), cont)
  ELSE i

(* ---- tokens: [k |-> kind, v |-> value, i |-> position after] ---- *)
Bad == [k |-> "bad", v |-> 0, i |-> 0]
Tk(k, v, i) == [k |-> k, v |-> v, i |-> i]

RECURSIVE IdEnd(_, _)
IdEnd(T, i) == IF At(T, i) \in IdChar THEN IdEnd(T, i + 1) ELSE i

\* integer digits: [v, n digits, i, st] with st "ok", "bad" or "float"
RECURSIVE Digits(_, _, _, _, _)
Digits(T, i, base, v, n) ==
  LET c == At(T, i) IN
  IF c = 95 THEN Digits(T, i + 1, base, v, n)
  ELSE IF c = 46 \/ (base = 10 /\ c \in {69, 101}) THEN [v |-> v, n |-> n, i |-> i, st |-> "float"]
  ELSE IF base < 12 /\ c \in {66, 98} THEN [v |-> v, n |-> n, i |-> i, st |-> "ok"]
  ELSE IF c \notin HexDigit THEN [v |-> v, n |-> n, i |-> i, st |-> "ok"]
  ELSE IF Hex(c) >= base THEN [v |-> v, n |-> n, i |-> i, st |-> "bad"]
  ELSE Digits(T, i + 1, base, MulAdd(v, base, Hex(c), 1), n + 1)

Suffix == [l |-> 64, i |-> 32, s |-> 16, b |-> 8]
SufBits(c) == CASE c \in {76, 108} -> 64 [] c \in {73, 105} -> 32 [] c \in {83, 115} -> 16 [] c \in {66, 98} -> 8 [] OTHER -> 0

\* value: [v, ty] with ty <<>> or <<bits, unsigned>>
IntLit(T, i0, base) ==
  LET d == Digits(T, i0, base, Zero, 0)
      u == At(T, d.i) \in {85, 117}
      j == IF u THEN d.i + 1 ELSE d.i
      b == SufBits(At(T, j))
  IN IF d.st = "bad" \/ d.n = 0 \/ Big(d.v) \/ (u /\ b = 0) THEN Bad
     ELSE Tk("int", [v |-> d.v, ty |-> IF b = 0 THEN <<>> ELSE <<b, IF u THEN 1 ELSE 0>>], IF b = 0 THEN j ELSE j + 1)

\* decimal fractions: all of digits . digits e digits, in this order, at most
\* one point and one exponent.  The value is kept as digits, the number of
\* them after the point, and the exponent; only small ones can be evaluated.
RECURSIVE Flt(_, _, _)
\* s: [st 0 before the point, 1 after it, 2 in the exponent, ds, frac, ex, sg, nex]
Flt(T, i, s) ==
  LET c == At(T, i) IN
  IF c = 95 THEN Flt(T, i + 1, s)
  ELSE IF c = 46 THEN IF s.st = 0 THEN Flt(T, i + 1, [s EXCEPT !.st = 1]) ELSE Bad
  ELSE IF c \in {69, 101} THEN
       IF s.st = 2 \/ Len(s.ds) = 0 THEN Bad
       ELSE IF At(T, i + 1) \in {43, 45} THEN Flt(T, i + 2, [s EXCEPT !.st = 2, !.sg = IF At(T, i + 1) = 45 THEN -1 ELSE 1])
       ELSE Flt(T, i + 1, [s EXCEPT !.st = 2])
  ELSE IF c \in Digit THEN
       IF s.st = 2 THEN Flt(T, i + 1, [s EXCEPT !.ex = IF s.ex > 99 THEN 100 ELSE 10 * s.ex + (c - 48), !.nex = s.nex + 1])
       ELSE Flt(T, i + 1, [s EXCEPT !.ds = Append(s.ds, c - 48), !.frac = IF s.st = 1 THEN s.frac + 1 ELSE s.frac])
  ELSE IF c \in HexDigit THEN Bad
  ELSE IF s.st = 2 /\ s.nex = 0 THEN Bad
  ELSE Tk("flt", s, i)
F0 == [st |-> 0, ds |-> <<>>, frac |-> 0, ex |-> 0, sg |-> 1, nex |-> 0]

Number(T, i) ==
  LET p == At(T, i + 1)
      base == IF T[i] # 48 THEN 10 ELSE IF p = 120 THEN 16 ELSE IF p = 98 THEN 2 ELSE IF p = 111 THEN 8 ELSE 10
      d == Digits(T, IF base = 10 THEN i ELSE i + 2, base, Zero, 0)
  IN IF d.st = "float" THEN IF base = 10 THEN Flt(T, i, F0) ELSE Bad
     ELSE IntLit(T, IF base = 10 THEN i ELSE i + 2, base)

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* after "\": [ok, c, bytes, i]
RECURSIVE UniDigits(_, _, _, _)
UniDigits(T, i, v, n) ==
  IF At(T, i) \in HexDigit THEN LET w == 16 * v + Hex(T[i]) IN IF w > 1114111 THEN <<-1, 0>> ELSE UniDigits(T, i + 1, w, n + 1)
  ELSE IF At(T, i) = 125 /\ n > 0 THEN <<v, i + 1>> ELSE IF At(T, i) = 125 THEN <<-2, i + 1>> ELSE <<-1, 0>>
EscMap == (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (98 :> 8) @@ (34 :> 34) @@ (39 :> 39) @@ (118 :> 11) @@ (92 :> 92) @@ (48 :> 0)
NoEsc == [ok |-> FALSE, c |-> 0, b |-> <<>>, i |-> 0]
Esc(T, i) ==
  LET c == At(T, i) IN
  IF c \in DOMAIN EscMap THEN [ok |-> TRUE, c |-> EscMap[c], b |-> <<EscMap[c]>>, i |-> i + 1]
  ELSE IF c = 120 THEN
       IF At(T, i + 1) \in HexDigit /\ At(T, i + 2) \in HexDigit
       THEN LET v == 16 * Hex(T[i + 1]) + Hex(T[i + 2]) IN [ok |-> TRUE, c |-> v, b |-> <<v>>, i |-> i + 3]
       ELSE NoEsc
  ELSE IF c = 117 /\ At(T, i + 1) = 123 THEN
       LET u == UniDigits(T, i + 2, 0, 0) IN
       IF u[1] = -1 THEN NoEsc
       ELSE IF u[1] = -2 THEN [ok |-> TRUE, c |-> 0, b |-> <<0>>, i |-> u[2]]   \* \u{} is let through
       ELSE [ok |-> TRUE, c |-> u[1], b |-> Utf8(u[1]), i |-> u[2]]
  ELSE NoEsc

RECURSIVE Str(_, _, _)
Str(T, i, acc) ==
  LET c == At(T, i) IN
  IF c = -1 \/ c = 10 THEN Bad
  ELSE IF c = 34 THEN Tk("str", acc, i + 1)
  ELSE IF c = 92 THEN LET e == Esc(T, i + 1) IN IF e.ok THEN Str(T, e.i, acc \o e.b) ELSE Bad
  ELSE Str(T, i + 1, Append(acc, c))

Cont(T, i) == At(T, i) \in 128..191
Chr(T, i) ==
  LET c == At(T, i)
      close(v, j) == IF At(T, j) = 39 THEN Tk("chr", v, j + 1) ELSE Bad
  IN IF c = -1 \/ c = 10 THEN Bad
     ELSE IF c = 92 THEN LET e == Esc(T, i + 1) IN IF e.ok THEN close(e.c, e.i) ELSE Bad
     ELSE IF c < 128 THEN close(c, i + 1)
     ELSE IF c \in 192..223 /\ Cont(T, i + 1) THEN close((c - 192) * 64 + T[i + 1] - 128, i + 2)
     ELSE IF c \in 224..239 /\ Cont(T, i + 1) /\ Cont(T, i + 2)
          THEN close((c - 224) * 4096 + (T[i + 1] - 128) * 64 + T[i + 2] - 128, i + 3)
     ELSE IF c \in 240..247 /\ Cont(T, i + 1) /\ Cont(T, i + 2) /\ Cont(T, i + 3)
          THEN close((c - 240) * 262144 + (T[i + 1] - 128) * 4096 + (T[i + 2] - 128) * 64 + T[i + 3] - 128, i + 4)
     ELSE Bad

\* bytes that cannot begin a token
Junk == (0..8) \cup (14..31) \cup (127..255)
Tok(T, i0) ==
  LET i == Skip(T, i0, FALSE)
      c == IF i = 0 THEN 0 ELSE At(T, i)
  IN IF i = 0 THEN Bad
     ELSE IF c = -1 THEN Tk("eof", 0, i)
     ELSE IF c = 10 THEN Tk("end", 0, i + 1)
     ELSE IF c = 59 THEN IF At(T, i + 1) = 59 THEN Tk("other", 0, i + 2) ELSE Tk("end", 0, i + 1)
     ELSE IF c = 40 THEN Tk("(", 0, i + 1)
     ELSE IF c = 41 THEN Tk(")", 0, i + 1)
     ELSE IF c \in IdStart THEN LET j == IdEnd(T, i) IN IF j - i > 1000 THEN Tk("field", 0, j) ELSE Tk("id", SubSeq(T, i, j - 1), j)   \* there may be a limit
     ELSE IF c \in Digit THEN Number(T, i)
     ELSE IF c = 34 THEN Str(T, i + 1, <<>>)
     ELSE IF c = 39 THEN Chr(T, i + 1)
     ELSE IF c \in Junk THEN Bad
     ELSE IF c = 46 /\ At(T, i + 1) \in Digit THEN Tk("field", 0, i + 1)
     ELSE Tk("other", 0, i + 1)

\* all tokens; the last is "eof" or "bad"
RECURSIVE Toks(_, _, _)
Toks(T, i, acc) ==
  LET k == Tok(T, i) IN
  IF k.k \in {"eof", "bad"} THEN Append(acc, k)
  ELSE IF k.k = "field" THEN Append(acc, Tk("any", 0, 0))   \* what follows a dot is read differently
  ELSE Toks(T, k.i, Append(acc, k))

(* ------------------------------------------------------------- statements *)
\* the names of the functions and the types of their arguments: c.fns is a
\* sequence of [n |-> name, k |-> "int"/"chr"/"str"/"flt", b |-> bits, u |-> unsigned]
Out(s, x) == [s EXCEPT !.out = s.out \o x]
Fn(c, id) == IF \E j \in 1..Len(c.fns) : c.fns[j].n = id
             THEN <<c.fns[CHOOSE j \in 1..Len(c.fns) : c.fns[j].n = id]>> ELSE <<>>

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE Num(_, _)
Num(ds, i) == IF i = 0 THEN 0 ELSE 10 * Num(ds, i - 1) + ds[i]
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip(Tail(ds)) ELSE ds
\* 1024 times the value, as a set with at most one element
Scaled(f) ==
  LET ds == Strip(f.ds)
      e == f.sg * f.ex - f.frac
  IN IF Len(ds) > 6 \/ Len(ds) = 0 \/ e > 9 \/ e < -6 THEN {}
     ELSE LET m == Num(ds, Len(ds)) IN
          IF e >= 0 THEN IF e <= 9 /\ (m = 0 \/ Pow10(e) <= 2000000 \div m) THEN { m * Pow10(e) * 1024 } ELSE {}
          ELSE IF m > 2000000 \/ (m * 1024) % Pow10(-e) # 0 THEN {} ELSE { (m * 1024) \div Pow10(-e) }

RECURSIVE Limbs(_)
Limbs(bs) == IF bs = <<>> THEN <<>> ELSE << <<Head(bs), 0, 0, 0>> >> \o Limbs(Tail(bs))

\* one argument: "reject", "any" or what is reported
Arg(f, k) ==
  CASE f.k = "int" /\ k.k = "int" ->
         IF k.v.ty # <<>> /\ k.v.ty # <<f.b, f.u>> THEN [st |-> "reject", out |-> <<>>]
         ELSE IF f.u = 1 THEN IF Below(k.v.v, f.b) THEN [st |-> "ok", out |-> <<Val(k.v.v)>>] ELSE [st |-> "reject", out |-> <<>>]
         ELSE IF Below(k.v.v, f.b - 1) THEN [st |-> "ok", out |-> <<Val(k.v.v)>>]
         ELSE IF Big(k.v.v) THEN [st |-> "reject", out |-> <<>>]
         \* one above the largest is let through for the sake of a minus before
         \* it, and 64 bit patterns of negative numbers are taken as these
         ELSE IF f.b = 64 \/ k.v.v = HalfRange(f.b) \/ Negative(k.v.v, f.b) THEN [st |-> "any", out |-> <<>>]
         ELSE [st |-> "reject", out |-> <<>>]
    [] f.k = "chr" /\ k.k = "int" -> [st |-> "any", out |-> <<>>]    \* a char is a number too
    [] f.k = "chr" /\ k.k = "chr" -> [st |-> "ok", out |-> <<Limb(k.v)>>]
    [] f.k = "str" /\ k.k = "str" -> [st |-> "ok", out |-> << <<Len(k.v), 0, 0, 0>> >> \o Limbs(k.v)]
    [] f.k = "flt" /\ k.k = "flt" ->
         LET s == Scaled(k.v) IN
         IF s = {} THEN [st |-> "any", out |-> <<>>]
         ELSE [st |-> "ok", out |-> <<Limb(CHOOSE x \in s : TRUE)>>]
    [] f.k \in {"int", "chr", "str", "flt"} /\ k.k \in {"int", "chr", "str", "flt"} /\ f.k # k.k /\ <<f.k, k.k>> # <<"chr", "int">> -> [st |-> "reject", out |-> <<>>]

RECURSIVE Stmts(_, _, _, _), StrRun(_, _)
StrRun(ts, i) == IF ts[i].k = "str" THEN LET r == StrRun(ts, i + 1) IN <<ts[i].v \o r[1], r[2]>> ELSE << <<>>, i>>
Worse(a, b) == IF a = "reject" \/ b = "reject" THEN "reject" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
Stmts(c, ts, i, acc) ==
  LET k == ts[i] IN
  IF k.k = "eof" THEN acc
  ELSE IF k.k = "end" THEN Stmts(c, ts, i + 1, acc)
  ELSE IF k.k = "id" /\ Len(ts) > i + 4 /\ ts[i + 1].k = "(" /\ Fn(c, k.v) # <<>> THEN
       LET f == Fn(c, k.v)[1]
           sr == StrRun(ts, i + 2)
           a == IF ts[i + 2].k = "str" THEN Tk("str", sr[1], 0) ELSE ts[i + 2]
           j == IF ts[i + 2].k = "str" THEN sr[2] ELSE i + 3
       IN IF a.k \in {"int", "chr", "str", "flt"} /\ ts[j].k = ")" /\ ts[j + 1].k \in {"end", "eof"}
          THEN LET r == Arg(f, a) IN Stmts(c, ts, j + 1, [st |-> Worse(acc.st, r.st), out |-> acc.out \o r.out])
          ELSE [acc EXCEPT !.st = "any"]
  ELSE [acc EXCEPT !.st = "any"]

Verdict(c) ==
  LET ts == Toks(c.text, 1, <<>>)
      z == ts[Len(ts)].k
  IN IF \E j \in 1..Len(c.fns) : Len(c.fns[j].n) > 1000 THEN [st |-> "any", out |-> <<>>]
     ELSE IF z = "bad" THEN [st |-> "reject", out |-> <<>>]
     ELSE IF z = "any" THEN [st |-> "any", out |-> <<>>]
     ELSE Stmts(c, ts, 1, [st |-> "ok", out |-> <<>>])

(* ------------------------------------------------------------------------ *)
VARIABLES t, l, want
vars == <<t, l, want>>
Init == t \in 1..Len(Cases) /\ l = 0 /\ want = [st |-> "", out |-> <<>>]
Next == l = 0 /\ l' = 1 /\ t' = t /\ want' = Verdict(Cases[t])
Spec == Init /\ [][Next]_vars

\* got: "reject", or what the compiled program reported
Accepted == l = 1 =>
  CASE want.st = "any" -> Cases[t].got \in {"accept", "reject"}
    [] want.st = "reject" -> Cases[t].got = "reject"
    [] OTHER -> Cases[t].got = "accept" /\ Cases[t].out = want.out
=============================================================================
