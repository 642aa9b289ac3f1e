----------------------------- MODULE Variadic ------------------------------
(* What a function with a variable number of arguments is entitled to see:  *)
(* for every argument, in order, its type (kind, size, alignment, length,   *)
(* member names) and its value, whatever the mix of types and whatever      *)
(* fixed arguments precede it.  A recorded report is read by a machine      *)
(* whose state is the stack of what is still to be reported.                *)
(*                                                                          *)
(* types: [k |-> "a", c |-> code] atoms; ptr, sl, arr, tup, st, un, nm, fn  *)
(* values: atoms and pointers: the 64 bits reported; aggregates: sequences; *)
(* unions: [i |-> tag index from 1, v |-> <<>> or <<value>>]                *)
EXTENDS Naturals, Sequences, Json, TLC

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES t, l, st       \* row, next report, work to do
vars == <<t, l, st>>

N(n) == <<n % 65536, n \div 65536, 0, 0>>

RECURSIVE Size(_), Align(_), MaxAlign(_), Place(_, _, _)

Up(n, a) == ((n + a - 1) \div a) * a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* size of an atom by its code: void bool char, int8.., byte.., floats
AtomSize(c) == <<0, 1, 4, 1, 2, 4, 4, 8, 1, 1, 2, 4, 4, 8, 4, 8, 8>>[c]

MaxAlign(ts) == IF ts = <<>> THEN 1 ELSE Max(Align(Head(ts)), MaxAlign(Tail(ts)))

\* members placed one after the other from offset o, each at its alignment
Place(ts, o, acc) ==
  IF ts = <<>> THEN [end |-> o, offs |-> acc]
  ELSE LET p == Up(o, Align(Head(ts))) IN Place(Tail(ts), p + Size(Head(ts)), Append(acc, p))

Payload(ts) == IF ts = <<>> THEN 0
               ELSE LET R[i \in 0..Len(ts)] ==
                          IF i = 0 THEN 0
                          ELSE IF ts[i] = <<>> THEN R[i - 1] ELSE Max(R[i - 1], Size(ts[i][1]))
                    IN R[Len(ts)]
PayloadAlign(ts) == LET R[i \in 0..Len(ts)] ==
                          IF i = 0 THEN 4
                          ELSE IF ts[i] = <<>> THEN R[i - 1] ELSE Max(R[i - 1], Align(ts[i][1]))
                    IN R[Len(ts)]

Align(ty) ==
  CASE ty.k = "a" -> Max(1, AtomSize(ty.c))
    [] ty.k \in {"ptr", "sl", "fn"} -> 8
    [] ty.k = "arr" -> Align(ty.t)
    [] ty.k \in {"tup", "st"} -> MaxAlign(ty.ts)
    [] ty.k = "un" -> PayloadAlign(ty.ts)
    [] ty.k = "nm" -> Align(ty.t)

Size(ty) ==
  CASE ty.k = "a" -> AtomSize(ty.c)
    [] ty.k = "ptr" -> 8
    [] ty.k \in {"sl", "fn"} -> 16
    [] ty.k = "arr" -> ty.n * Size(ty.t)
    [] ty.k \in {"tup", "st"} -> Up(Place(ty.ts, 0, <<>>).end, Align(ty))
    [] ty.k = "un" -> \* a tag of four bytes, then the payload
         Up(4 + Payload(ty.ts), Align(ty))
    [] ty.k = "nm" -> Size(ty.t)

Code(k) == CASE k = "ptr" -> 18 [] k = "fn" -> 19 [] k = "sl" -> 20 [] k = "arr" -> 21 [] k = "tup" -> 22
             [] k = "st" -> 23 [] k = "un" -> 24 [] k = "nm" -> 28
Hd(ty) == IF ty.k = "a" THEN <<N(ty.c), N(Size(ty)), N(Align(ty))>>
          ELSE IF ty.k = "fn" THEN <<N(19), N(Len(ty.ts))>>
          ELSE <<N(Code(ty.k)), N(Size(ty)), N(Align(ty))>>
Name(n) == <<N(Len(n))>> \o [i \in 1..Len(n) |-> N(n[i])]

Num(x) == [w |-> "num", x |-> x]
Ty(ty) == [w |-> "ty", t |-> ty]
Val(ty, v) == [w |-> "val", t |-> ty, v |-> v]
Nm(n) == [w |-> "name", n |-> n]
None == Num(N(0))

\* what has to be reported first for an item, and what is left of it
Flat(ss) == LET R[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE R[i - 1] \o ss[i] IN R[Len(ss)]

TyStep(ty) ==
  CASE ty.k = "a"   -> [out |-> Hd(ty), more |-> <<>>]
    [] ty.k \in {"ptr", "sl"} -> [out |-> Hd(ty), more |-> <<Ty(ty.t)>>]
    [] ty.k = "arr" -> [out |-> Hd(ty) \o <<N(ty.n)>>, more |-> <<Ty(ty.t)>>]
    [] ty.k = "fn"  -> [out |-> Hd(ty), more |-> [i \in 1..Len(ty.ts) |-> Ty(ty.ts[i])]]
    [] ty.k = "tup" -> [out |-> Hd(ty) \o <<N(Len(ty.ts))>>, more |-> [i \in 1..Len(ty.ts) |-> Ty(ty.ts[i])]]
    [] ty.k = "st"  -> [out |-> Hd(ty) \o <<N(Len(ty.ts))>>,
                        more |-> Flat([i \in 1..Len(ty.ts) |-> <<Nm(ty.ns[i]), Ty(ty.ts[i])>>])]
    [] ty.k = "un"  -> [out |-> Hd(ty) \o <<N(Len(ty.ts))>>,
                        more |-> Flat([i \in 1..Len(ty.ts) |->
                                   <<Nm(ty.ns[i]), IF ty.ts[i] = <<>> THEN None ELSE Ty(ty.ts[i][1])>>])]
    [] ty.k = "nm"  -> [out |-> Hd(ty) \o Name(ty.n), more |-> <<>>]

ValStep(ty, v) ==
  CASE ty.k = "a"   -> [out |-> Hd(ty) \o <<v>>, more |-> <<>>]
    [] ty.k = "ptr" -> [out |-> Hd(ty), more |-> <<Ty(ty.t), Num(v)>>]
    [] ty.k \in {"sl", "arr"} -> [out |-> Hd(ty) \o <<N(Len(v))>>, more |-> [i \in 1..Len(v) |-> Val(ty.t, v[i])]]
    [] ty.k = "fn"  -> [out |-> Hd(ty), more |-> [i \in 1..Len(ty.ts) |-> Ty(ty.ts[i])]]
    [] ty.k = "tup" -> [out |-> Hd(ty) \o <<N(Len(v))>>, more |-> [i \in 1..Len(v) |-> Val(ty.ts[i], v[i])]]
    [] ty.k = "st"  -> [out |-> Hd(ty) \o <<N(Len(v))>>,
                        more |-> Flat([i \in 1..Len(v) |-> <<Nm(ty.ns[i]), Val(ty.ts[i], v[i])>>])]
    [] ty.k = "un"  -> [out |-> Hd(ty) \o <<N(v.i - 1)>>,
                        more |-> <<Nm(ty.ns[v.i]), IF v.v = <<>> THEN None ELSE Val(ty.ts[v.i][1], v.v[1])>>]
    [] ty.k = "nm"  -> [out |-> Hd(ty) \o Name(ty.n), more |-> <<Val(ty.t, v)>>]

Step(it) ==
  CASE it.w = "num"  -> [out |-> <<it.x>>, more |-> <<>>]
    [] it.w = "name" -> [out |-> Name(it.n), more |-> <<>>]
    [] it.w = "lay"  -> \* the size of a type and the offsets of its members
         LET u == IF it.t.k = "nm" THEN it.t.t ELSE it.t
             offs == IF u.k \in {"tup", "st"} THEN Place(u.ts, 0, <<>>).offs ELSE <<>>
         IN [out |-> <<N(Size(it.t))>> \o [i \in 1..Len(offs) |-> N(offs[i])], more |-> <<>>]
    [] it.w = "ty" -> TyStep(it.t)
    [] it.w = "val" -> ValStep(it.t, it.v)

Out == Traces[t].out
Fits == LET o == Step(Head(st)).out IN
        /\ l + Len(o) - 1 <= Len(Out)
        /\ SubSeq(Out, l, l + Len(o) - 1) = o

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Traces[t].items
Next == /\ st # <<>>
        /\ Fits
        /\ l' = l + Len(Step(Head(st)).out)
        /\ st' = Step(Head(st)).more \o Tail(st)
        /\ t' = t
Spec == Init /\ [][Next]_vars

Accepted == IF st = <<>> THEN l = Len(Out) + 1 /\ Traces[t].end = "ok" ELSE Fits
============================================================================
