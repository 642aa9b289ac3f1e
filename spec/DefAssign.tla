----------------------------- MODULE DefAssign -----------------------------
(* Which functions read a variable that nothing has assigned, or run off     *)
(* their end without returning a value.                                      *)
(*                                                                           *)
(* A function is executed over the set of its paths.  A path is represented  *)
(* by the set of the variables not assigned on it since they were declared;  *)
(* as every condition may turn out either way and a read looks at only one   *)
(* variable, paths that meet are merged by uniting these sets (J): no read   *)
(* can tell the difference.  No path at all is {}.  Loops and gotos are      *)
(* followed until no new state appears.  A loop or a label that no path      *)
(* reaches may be refused for what it would do if one did.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Cases == ndJsonDeserialize("traces.ndjson")

(* ---- expressions: [s |-> states afterwards, bad |-> something unassigned was read] ---- *)
\* a condition has the states after it turned out true and false
RECURSIVE Ev(_, _), Evs(_, _, _), Cond(_, _)
R(s, b, m) == [s |-> s, bad |-> b, may |-> m]
Read(v, S) == \E s \in S : v \in s
Add(v, S) == { s \ {v} : s \in S }
J(S) == IF S = {} THEN {} ELSE { UNION S }

Evs(es, i, S) ==
  IF i > Len(es) THEN R(S, FALSE, FALSE)
  ELSE LET a == Ev(es[i], S)  b == Evs(es, i + 1, a.s) IN R(b.s, a.bad \/ b.bad, a.may \/ b.may)

\* reads of v in what is assigned to v are let through by convention (v = v)
\* when they are not separated from the assignment by a branch
Self(v, a, b) == R(Add(v, a.s), b.bad, a.bad \/ a.may)
Asn(v, e, S) == Self(v, Ev(e, S), Ev(e, Add(v, S)))

Ev(e, S) ==
  CASE e.k = "c"    -> R(S, FALSE, FALSE)
    [] e.k = "rd"   -> R(S, Read(e.v, S), FALSE)
    [] e.k = "addr" -> R(S, FALSE, FALSE)
    [] e.k = "op"   -> Evs(e.es, 1, S)
    [] e.k = "asn"  -> Asn(e.v, e.e, S)
    [] e.k = "upd"  -> LET a == Asn(e.v, e.e, S) IN R(a.s, a.bad, a.may \/ Read(e.v, S))
    [] e.k = "inc"  -> R(Add(e.v, S), FALSE, Read(e.v, S))
    [] e.k = "tern" -> LET c == Cond(e.c, S)  a == Ev(e.a, c.t)  b == Ev(e.b, c.f)
                       IN R(J(a.s \cup b.s), c.bad \/ a.bad \/ b.bad, c.may \/ a.may \/ b.may)
    [] e.k \in {"and", "or", "not"} -> LET c == Cond(e, S) IN R(J(c.t \cup c.f), c.bad, c.may)

Cond(e, S) ==
  CASE e.k = "and" -> LET a == Cond(e.a, S)  b == Cond(e.b, a.t)
                      IN [t |-> b.t, f |-> J(a.f \cup b.f), bad |-> a.bad \/ b.bad, may |-> a.may \/ b.may]
    [] e.k = "or"  -> LET a == Cond(e.a, S)  b == Cond(e.b, a.f)
                      IN [t |-> J(a.t \cup b.t), f |-> b.f, bad |-> a.bad \/ b.bad, may |-> a.may \/ b.may]
    [] e.k = "not" -> LET a == Cond(e.a, S) IN [t |-> a.f, f |-> a.t, bad |-> a.bad, may |-> a.may]
    [] OTHER -> LET a == Ev(e, S) IN [t |-> a.s, f |-> a.s, bad |-> a.bad, may |-> a.may]

(* ---- statements: where the paths leave it, and the states of each goto ---- *)
Nil == [n |-> {}, brk |-> {}, cnt |-> {}, go |-> {}, bad |-> FALSE, may |-> FALSE]
Norm(S, a) == [Nil EXCEPT !.n = S, !.bad = a.bad, !.may = a.may]
Ok == [bad |-> FALSE, may |-> FALSE]
Join(a, b) == [n |-> J(a.n \cup b.n), brk |-> J(a.brk \cup b.brk), cnt |-> J(a.cnt \cup b.cnt),
               go |-> a.go \cup b.go, bad |-> a.bad \/ b.bad, may |-> a.may \/ b.may]
\* b runs where a ends
Then(a, b) == [Join(a, b) EXCEPT !.n = b.n]

\* L: the pairs <<label, state>> of the jumps known so far
RECURSIVE St(_, _, _), Blk(_, _, _, _), Iter(_, _, _, _), Arms(_, _, _, _, _)
At(L, lbl) == { p[2] : p \in { q \in L : q[1] = lbl } }
In(S, L, lbl) == J(S \cup At(L, lbl))

Blk(ss, i, S, L) ==
  IF i > Len(ss) THEN Norm(S, Ok)
  ELSE LET a == St(ss[i], S, L) IN Then(a, Blk(ss, i + 1, a.n, L))

\* all the states in which the condition of a loop is evaluated
Iter(s, S, L, fuel) ==
  LET c == Cond(s.c, S)
      b == Blk(s.body, 1, c.t, L)
      st == Blk(s.step, 1, J(b.n \cup b.cnt), L)
      r == [n |-> J(c.f \cup b.brk), brk |-> {}, cnt |-> {}, go |-> b.go, bad |-> c.bad \/ b.bad \/ st.bad,
            may |-> S = {} \/ c.may \/ b.may \/ st.may]
  IN IF J(S \cup st.n) = S \/ fuel = 0 THEN r ELSE Iter(s, J(S \cup st.n), L, fuel - 1)

Arms(arms, i, S, L, acc) ==
  IF i > Len(arms) THEN acc
  ELSE Arms(arms, i + 1, S, L, Join(acc, Blk(arms[i], 1, S, L)))

St(s, S, L) ==
  CASE s.k = "decl" -> Norm({ x \cup {s.v} : x \in S }, Ok)
    [] s.k = "e"    -> LET a == Ev(s.e, S) IN Norm(a.s, a)
    [] s.k = "blk"  -> Blk(s.body, 1, S, L)
    [] s.k = "if"   -> LET c == Cond(s.c, S)
                           r == Join(Blk(s.a, 1, c.t, L), Blk(s.b, 1, c.f, L))
                       IN [r EXCEPT !.bad = r.bad \/ c.bad, !.may = r.may \/ c.may]
    [] s.k = "loop" -> Iter(s, S, L, 1000)
    [] s.k = "match" -> LET a == Ev(s.e, S)  r == Arms(s.arms, 1, a.s, L, Nil)
                        IN [r EXCEPT !.bad = r.bad \/ a.bad, !.may = r.may \/ a.may]
    [] s.k = "ret"  -> LET a == Ev(s.e, S) IN [Nil EXCEPT !.bad = a.bad, !.may = a.may]
    [] s.k = "die"  -> LET a == Ev(s.e, S) IN [Nil EXCEPT !.bad = a.bad, !.may = a.may]
    [] s.k = "brk"  -> [Nil EXCEPT !.brk = S]
    [] s.k = "cnt"  -> [Nil EXCEPT !.cnt = S]
    [] s.k = "goto" -> [Nil EXCEPT !.go = { <<s.l, x>> : x \in S }]
    [] s.k = "label" -> [Norm(In(S, L, s.l), Ok) EXCEPT !.may = In(S, L, s.l) = {}]

RECURSIVE Fix(_, _)
Fix(c, L) == LET r == Blk(c.body, 1, {{}}, L)
             IN IF r.go \subseteq L THEN r ELSE Fix(c, L \cup r.go)

Verdict(c) == LET r == Fix(c, {})
              IN IF r.bad \/ (c.result = 1 /\ r.n # {}) THEN "reject" ELSE IF r.may THEN "either" ELSE "accept"

VARIABLES t, l, want
vars == <<t, l, want>>
Init == t \in 1..Len(Cases) /\ l = 0 /\ want = "none"
Next == l = 0 /\ l' = 1 /\ t' = t /\ want' = Verdict(Cases[t])
Spec == Init /\ [][Next]_vars

\* got: what the compiler said
Accepted == l = 1 => want = "either" \/ want = Cases[t].got
=============================================================================
