------------------------------- MODULE Htab --------------------------------
(* The hash table as its user sees it: a finite map from keys to values.    *)
(* The state is the map; every public operation is one action, whose        *)
(* result is a function of the map.  Trace validation: each row of          *)
(* traces.ndjson is one recorded history of a real table.                   *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES t, l, m     \* trace number, next event, the map
vars == <<t, l, m>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)

(* What each call must return in map f. *)
Result(f, e) ==
  CASE e.op = "put"  -> TRUE
    [] e.op = "del"  -> TRUE
    [] e.op = "get"  -> IF e.k \in DOMAIN f THEN e.r = <<1, f[e.k]>> ELSE e.r = <<0>>
    [] e.op = "getv" -> e.r = <<IF e.k \in DOMAIN f THEN f[e.k] ELSE e.v>>
    [] e.op = "has"  -> e.r = <<IF e.k \in DOMAIN f THEN 1 ELSE 0>>
    [] e.op = "count" -> e.r = <<Cardinality(DOMAIN f)>>
    [] e.op = "keys" -> NoDup(e.r) /\ Range(e.r) = DOMAIN f
    [] e.op = "iter" -> /\ Len(e.r) = 2 * Cardinality(DOMAIN f)
                        /\ {<<e.r[2*i-1], e.r[2*i]>> : i \in 1..(Len(e.r) \div 2)}
                             = {<<k, f[k]>> : k \in DOMAIN f}

Apply(f, e) == CASE e.op = "put" -> Put(f, e.k, e.v)
                 [] e.op = "del" -> Del(f, e.k)
                 [] OTHER -> f

Init == t \in 1..Len(Traces) /\ l = 1 /\ m = Empty
Next == /\ l <= Len(Traces[t])
        /\ Result(m, Traces[t][l])
        /\ m' = Apply(m, Traces[t][l])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

Accepted == l <= Len(Traces[t]) => Result(m, Traces[t][l])
============================================================================
