----------------------------- MODULE HtabImpl ------------------------------
(* The algorithm of the hash table: open addressing with linear probing,    *)
(* tombstones for deleted                                                   *)
(* entries, growth when more than half full and rebuilding when more than a *)
(* quarter of the slots have died.  Model checked against the map it        *)
(* implements: Refines says that probing finds exactly the stored value.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Hash(_), Sz0, MaxSz, Vals

VARIABLES slots, nelt, ndead, m
vars == <<slots, nelt, ndead, m>>

None == <<>>
\* a slot is <<>> (never used) or <<key, val, dead>>
Mk(n) == [i \in 0..n-1 |-> None]
Size(s) == Cardinality(DOMAIN s)

\* index of the d-th probe for hash h
Probe(h, d, n) == (h + d) % n

RECURSIVE Find(_, _, _)
Find(s, k, d) ==
  LET i == Probe(Hash(k), d, Size(s)) IN
  IF s[i] = None THEN -1
  ELSE IF s[i][1] = k /\ ~s[i][3] THEN i
  ELSE IF d > 2 * Size(s) THEN -2      \* would probe for ever
  ELSE Find(s, k, d + 1)

\* first tombstone or empty slot on the probe sequence
RECURSIVE Slot(_, _, _)
Slot(s, k, d) ==
  LET i == Probe(Hash(k), d, Size(s)) IN
  IF s[i] = None \/ s[i][3] THEN i ELSE Slot(s, k, d + 1)

PutIn(s, k, v) ==
  LET i == Find(s, k, 0) IN
  [s EXCEPT ![IF i >= 0 THEN i ELSE Slot(s, k, 0)] = <<k, v, FALSE>>]

Live(s) == {i \in DOMAIN s : s[i] # None /\ ~s[i][3]}

RECURSIVE Refill(_, _, _)
Refill(s, old, todo) ==
  IF todo = {} THEN s
  ELSE LET i == CHOOSE x \in todo : \A y \in todo : x <= y IN
       Refill(PutIn(s, old[i][1], old[i][2]), old, todo \ {i})
Resize(s, n) == Refill(Mk(n), s, Live(s))

Init == slots = Mk(Sz0) /\ nelt = 0 /\ ndead = 0 /\ m = [x \in {} |-> 0]

Put(k, v) ==
  LET found == Find(slots, k, 0) >= 0
      s1 == PutIn(slots, k, v)
      n1 == IF found THEN nelt ELSE nelt + 1 IN
  /\ IF Size(slots) < 2 * n1
     THEN /\ 2 * Size(slots) <= MaxSz
          /\ slots' = Resize(s1, 2 * Size(slots)) /\ ndead' = 0
     ELSE slots' = s1 /\ ndead' = ndead
  /\ nelt' = n1
  /\ m' = [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

Del(k) ==
  LET i == Find(slots, k, 0) IN
  IF i < 0 THEN UNCHANGED vars
  ELSE LET s1 == [slots EXCEPT ![i][3] = TRUE] IN
       /\ nelt' = nelt - 1
       /\ IF Size(slots) < 4 * (ndead + 1)
          THEN slots' = Resize(s1, Size(slots)) /\ ndead' = 0
          ELSE slots' = s1 /\ ndead' = ndead + 1
       /\ m' = [x \in DOMAIN m \ {k} |-> m[x]]

Next == \E k \in Keys : Del(k) \/ \E v \in Vals : Put(k, v)
Spec == Init /\ [][Next]_vars

Refines ==
  /\ \A k \in Keys : LET i == Find(slots, k, 0) IN
        /\ i # -2
        /\ IF k \in DOMAIN m THEN i >= 0 /\ slots[i][2] = m[k] ELSE i = -1
  /\ nelt = Cardinality(DOMAIN m)
  /\ Cardinality(Live(slots)) = nelt
============================================================================
