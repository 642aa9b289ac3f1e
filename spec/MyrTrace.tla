------------------------------ MODULE MyrTrace ------------------------------
(* Compiled programs against the semantics.  Each row of traces.ndjson is a  *)
(* test: the program (prog: index into progs.ndjson), the statements of the  *)
(* test function, and what the compiled program did when it ran: the values  *)
(* it reported and whether it ended normally.  One transition executes one   *)
(* top level statement; everything the statement outputs must be what the    *)
(* real program reported next.                                               *)
EXTENDS Myr, Json

Traces == ndJsonDeserialize("traces.ndjson")
Progs == ndJsonDeserialize("progs.ndjson")

VARIABLES t, l, fr, s
vars == <<t, l, fr, s>>

\* The globals of a program are objects 1..n of the store, initialised in order.
RECURSIVE InitGlobals(_, _, _, _)
InitGlobals(P, i, env, st) ==
  IF i > Len(P.globals) THEN <<env, st>>
  ELSE LET r == Eval(P, P.globals[i].e, [env |-> env, te |-> EmptyEnv, autos |-> <<>>], st)
           s1 == Alloc(r.s, r.v)
       IN InitGlobals(P, i + 1, Bind(env, P.globals[i].n, Len(s1.mem)), s1)

\* the program record with the global environment filled in
Prog(i, env) == [fns |-> Progs[i].fns, impls |-> Progs[i].impls, traits |-> Progs[i].traits, globals |-> Progs[i].globals, genv |-> env]

Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ fr = [env |-> EmptyEnv, te |-> EmptyEnv, autos |-> <<>>]
        /\ s = [mem |-> <<>>, out |-> <<>>, q |-> <<>>, c |-> "ok"]

Start == /\ l = 0
         /\ LET g == InitGlobals(Prog(Traces[t].prog, EmptyEnv), 1, EmptyEnv, s) IN
            /\ s' = g[2]
            /\ fr' = [env |-> g[1], te |-> EmptyEnv, autos |-> <<>>, genv |-> g[1]]
         /\ l' = 1 /\ t' = t

\* the result of the statement at l
Do == Exec(Prog(Traces[t].prog, fr.genv), Traces[t].body[l], fr, s)

Stmt == /\ l > 0 /\ l <= Len(Traces[t].body) /\ s.c = "ok"
        /\ LET r == Do IN
           /\ s' = r.s
           /\ fr' = r.fr
           /\ l' = IF r.s.c # "ok" THEN l
                   ELSE IF r.ctl = "next" THEN l + 1
                   ELSE IF r.ctl = "goto" THEN Find(Traces[t].body, r.v, 1)
                   ELSE Len(Traces[t].body) + 1
        /\ t' = t
Next == Start \/ Stmt
Spec == Init /\ [][Next]_vars

Done == l > 0 /\ (s.c # "ok" \/ l > Len(Traces[t].body))

\* what was output so far is what the real program reported ...
PrefixOk == /\ Len(s.out) <= Len(Traces[t].out)
            /\ SubSeq(Traces[t].out, 1, Len(s.out)) = s.out
\* ... and at the end it is all of it, and the program ended in the same way
EndOk == Done /\ s.c # "open" => Len(s.out) = Len(Traces[t].out) /\ Traces[t].end = s.c
Accepted == PrefixOk /\ EndOk
=============================================================================
