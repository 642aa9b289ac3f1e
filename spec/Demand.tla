------------------------------- MODULE Demand -------------------------------
(* Demands for traits.  Each row of traces.ndjson names a program and the     *)
(* demands (trait, type) one function of it makes: by applying a trait        *)
(* function to a value of the type, or a generic bounded by the trait, or a   *)
(* generic that applies it to its own parameter.  The compiler accepts the    *)
(* function exactly if every demand is met by the program's implementations   *)
(* (Sat), or, for the parameter of a generic, by the bounds it declares.      *)
EXTENDS Myr, Json

Traces == ndJsonDeserialize("traces.ndjson")
Progs == ndJsonDeserialize("progs.ndjson")

VARIABLES t, l, ok
vars == <<t, l, ok>>

P(i) == Progs[i]
Row == Traces[t]

Met(d) == IF Len(d.y) = 1 /\ d.y[1] \in DOMAIN Row.bounds
          THEN \E b \in 1..Len(Row.bounds[d.y[1]]) :
                  \/ Row.bounds[d.y[1]][b] = d.tr
                  \/ d.tr = "numeric" /\ Row.bounds[d.y[1]][b] \in {"integral", "floating"}
          ELSE Sat(P(Row.prog), d.tr, d.y)

Init == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
Next == /\ l <= Len(Row.demands)
        /\ ok' = (ok /\ Met(Row.demands[l]))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Row.demands) => Row.got = IF ok THEN "accept" ELSE "reject"
=============================================================================
