------------------------------ MODULE Exhaust -------------------------------
(* Which match statements have to be accepted and which have to be rejected. *)
(*                                                                           *)
(* A case is a type and the list of its patterns.  Dom(T) is a finite set of *)
(* values that represents the whole type: for integers and strings the       *)
(* values mentioned in the patterns and one that is not (if there is one);    *)
(* everything else in full.  Patterns cannot tell values outside this set from those in it.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Cases == ndJsonDeserialize("traces.ndjson")

(* ---- values: <<"n", literal>>, <<"b", 0/1>>, <<"seq", values>>, <<"un", tag, value>> ---- *)
RECURSIVE Dom(_, _), Product(_, _, _)
Product(ts, i, lits) == IF i > Len(ts) THEN {<<>>}
                        ELSE { <<v>> \o w : v \in Dom(ts[i], lits), w \in Product(ts, i + 1, lits) }
Dom(T, lits) ==
  CASE T.k = "lit"  -> { <<"n", x>> : x \in lits[T.c] }
                         \cup (IF T.n > 0 /\ Cardinality(lits[T.c]) >= T.n THEN {} ELSE { <<"other">> })
    [] T.k = "bool" -> { <<"b", 0>>, <<"b", 1>> }
    [] T.k = "unit" -> { <<"unit">> }
    [] T.k = "seq"  -> { <<"seq", v>> : v \in Product(T.ts, 1, lits) }
    [] T.k = "un"   -> UNION { IF T.tags[i][2] = <<>> THEN { <<"un", T.tags[i][1], <<"unit">> >> }
                               ELSE { <<"un", T.tags[i][1], v>> : v \in Dom(T.tags[i][2][1], lits) }
                               : i \in 1..Len(T.tags) }

RECURSIVE M(_, _)
M(p, v) ==
  CASE p.k = "wild" -> TRUE
    [] p.k = "lit"  -> v = <<"n", p.v>>
    [] p.k = "bool" -> v = <<"b", p.v>>
    [] p.k = "seq"  -> \A i \in 1..Len(p.ps) : M(p.ps[i][2], v[2][p.ps[i][1]])
    [] p.k = "un"   -> v[2] = p.t /\ (p.p = <<>> \/ M(p.p[1], v[3]))
    [] p.k = "or"   -> \E i \in 1..Len(p.ps) : M(p.ps[i], v)

(* the patterns without alternatives that a pattern stands for, in order *)
RECURSIVE Alts(_), AltSeq(_, _), Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
AltSeq(ps, i) == IF i > Len(ps) THEN << <<>> >>
                 ELSE LET h == Alts(ps[i][2]) r == AltSeq(ps, i + 1) IN
                      Cat([a \in 1..Len(h) |-> [b \in 1..Len(r) |-> << <<ps[i][1], h[a]>> >> \o r[b]]], 1)
Alts(p) ==
  CASE p.k = "or"  -> Cat([i \in 1..Len(p.ps) |-> Alts(p.ps[i])], 1)
    [] p.k = "seq" -> LET a == AltSeq(p.ps, 1) IN [i \in 1..Len(a) |-> [k |-> "seq", ps |-> a[i]]]
    [] p.k = "un" /\ p.p # <<>> -> LET a == Alts(p.p[1]) IN [i \in 1..Len(a) |-> [k |-> "un", t |-> p.t, p |-> <<a[i]>>]]
    [] OTHER -> <<p>>

SetOf(s) == { s[i] : i \in 1..Len(s) }
Lits(c) == [x \in DOMAIN c.lits |-> SetOf(c.lits[x])]

Verdict(c) ==
  LET D == Dom(c.ty, Lits(c))
      ps == c.pats
      as == Cat([i \in 1..Len(ps) |-> Alts(ps[i])], 1)
      cov == [i \in 1..Len(as) |-> { v \in D : M(as[i], v) }]
  IN IF \E v \in D : \A i \in 1..Len(ps) : ~M(ps[i], v) THEN "reject"
     ELSE IF \A i \in 1..Len(as) : ~(cov[i] \subseteq UNION { cov[j] : j \in 1..(i - 1) }) THEN "accept"
     ELSE "either"

VARIABLES t, l, want
vars == <<t, l, want>>
Init == t \in 1..Len(Cases) /\ l = 0 /\ want = "none"
Next == l = 0 /\ l' = 1 /\ t' = t /\ want' = Verdict(Cases[t])
Spec == Init /\ [][Next]_vars

\* got: what the compiler said
Accepted == l = 1 => want = "either" \/ want = Cases[t].got
=============================================================================
