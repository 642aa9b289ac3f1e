------------------------------- MODULE Types -------------------------------
(* Which functions are well typed.                                           *)
(*                                                                           *)
(* A case is a set of type definitions, the types of the globals and of the  *)
(* parameters and the body of a function, in which every expression, every   *)
(* variable and every local function has a number: the index of its type     *)
(* variable.  Gather walks the body and lists what its parts demand of these *)
(* types; Solve is unification with classes (numeric, integral, ...),        *)
(* followed by the demands that need a known type (members, elements, struct *)
(* literals), until nothing changes, by the default types of numbers, and    *)
(* by the demands on casts and comparisons.  The function is well typed iff  *)
(* all of them are met and no type is left open.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Cases == ndJsonDeserialize("traces.ndjson")

(* ------------------------------------------------------------------ types *)
\* [h |-> head, n |-> array size, m |-> name, s |-> components, i |-> variable]
Ty(h, n, m, s, i) == [h |-> h, n |-> n, m |-> m, s |-> s, i |-> i]
P(h) == Ty(h, 0, "", <<>>, 0)
V(i) == Ty("var", 0, "", <<>>, i)
PtrTo(t) == Ty("ptr", 0, "", <<t>>, 0)
SliceOf(t) == Ty("slice", 0, "", <<t>>, 0)
ArrOf(n, t) == Ty("array", n, "", <<t>>, 0)
Tuple(ts) == Ty("tuple", 0, "", ts, 0)
Fun(r, as) == Ty("fn", 0, "", <<r>> \o as, 0)
Named(n) == Ty("name", 0, n, <<>>, 0)

Ints == {"char", "int8", "int16", "int", "int32", "int64", "byte", "uint8", "uint16", "uint", "uint32", "uint64"}
Flts == {"flt32", "flt64"}

\* the definition under a name: [k, ms, t]
RECURSIVE Under(_, _)
Under(c, t) == IF t.h = "name" /\ c.names[t.m].k = "alias" THEN Under(c, c.names[t.m].t) ELSE t
Def(c, t) == c.names[t.m]
IsStruct(c, t) == LET u == Under(c, t) IN u.h = "name" /\ Def(c, u).k = "struct"
IsUnion(c, t) == LET u == Under(c, t) IN u.h = "name" /\ Def(c, u).k = "union"

\* the classes of types that a type belongs to
Classes(c, t) ==
  LET u == Under(c, t) IN
  IF u.h \in Ints THEN {"num", "int"}
  ELSE IF u.h \in Flts THEN {"num", "flt"}
  ELSE IF u.h \in {"slice", "array"} THEN {"idx", "slice", "iter"}
  ELSE IF u.h = "ptr" THEN {"slice"}
  ELSE {}

(* ---------------------------------------------------------------- demands *)
Eq(a, b) == <<[k |-> "eq", a |-> a, b |-> b]>>
Is(a, r) == <<[k |-> "is", a |-> a, r |-> r]>>
Bad == <<[k |-> "bad"]>>
Unsaid == <<[k |-> "any"]>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* env: function from names to [t, const]
Bind(env, n, t, cst) == (n :> [t |-> t, cst |-> cst]) @@ env

NumOps == {"+", "-", "*", "/"}
IntOps == {"%", "&", "|", "^", "<<", ">>"}
CmpOps == {"==", "!=", "<", "<=", ">", ">="}
LogOps == {"&&", "||"}

\* a part of a variable, or reached through one
RECURSIVE Rooted(_, _)
Rooted(e, env) ==
  CASE e.k = "var" -> e.n \notin DOMAIN env \/ ~env[e.n].cst
    [] e.k \in {"memb", "tmemb", "idx", "deref"} -> Rooted(e.s[1], env)
    [] OTHER -> FALSE

RECURSIVE E(_, _, _), S(_, _, _, _), Block(_, _, _, _, _), LVal(_, _), Pat(_, _), PatEnv(_, _)

\* is this something that can be assigned to?  "yes", "no", or "any": parts of a
\* constant, what a constant points to, and literals with variables for parts
LVal(e, env) ==
  CASE e.k = "var" -> IF e.n \in DOMAIN env /\ env[e.n].cst THEN "no" ELSE "yes"
    [] e.k \in {"slit", "ucon", "arr", "tup"} -> "any"
    [] e.k = "memb" /\ e.n \in {"len", "tag"} -> "any"
    [] e.k \in {"memb", "tmemb", "idx", "deref"} -> IF Rooted(e, env) THEN "yes" ELSE "any"
    [] OTHER -> "no"
Assignable(e, env) == LET v == LVal(e, env) IN IF v = "no" THEN Bad ELSE IF v = "any" THEN Unsaid ELSE <<>>

\* made of literals and constants only: dividing by one is decided by its value
RECURSIVE Const(_, _)
Const(e, env) == CASE e.k \in {"int", "flt", "chr", "bool"} -> TRUE
                   [] e.k = "var" -> e.n \in DOMAIN env /\ env[e.n].cst
                   [] e.k \in {"bin", "un", "cast", "tern", "memb"} -> \A j \in 1..Len(e.s) : e.k = "memb" \/ Const(e.s[j], env)
                   [] OTHER -> FALSE
ByConst(e, env) == e.s[2].k \notin {"int", "flt"} /\ (Const(e.s[2], env) \/ e.s[2].k = "bin")

\* demands of an expression with number e.i
E(c, e, env) ==
  LET t == V(e.i)
      sub == [j \in 1..Len(e.s) |-> V(e.s[j].i)]
      subs == Cat([j \in 1..Len(e.s) |-> E(c, e.s[j], env)])
  IN
  CASE e.k = "int" -> Is(t, "num") \o Is(t, "int")
    [] e.k = "flt" -> Is(t, "num") \o Is(t, "flt")
    [] e.k = "hole" -> <<>>
    [] e.k = "chr" -> Eq(t, P("char"))
    [] e.k = "bool" -> Eq(t, P("bool"))
    [] e.k = "str" -> Eq(t, SliceOf(P("byte")))
    [] e.k = "var" -> IF e.n \in DOMAIN env THEN Eq(t, env[e.n].t) ELSE Bad
    [] e.k = "bin" ->
         subs \o (IF e.n \in {"/", "%"} /\ ByConst(e, env) THEN Unsaid ELSE <<>>) \o
         (IF e.n \in NumOps THEN Is(t, "num") \o Eq(t, sub[1]) \o Eq(t, sub[2])
          ELSE IF e.n \in IntOps THEN Is(t, "num") \o Is(t, "int") \o Eq(t, sub[1]) \o Eq(t, sub[2])
          ELSE IF e.n \in CmpOps THEN
               Eq(t, P("bool")) \o Eq(sub[1], sub[2]) \o <<[k |-> "cmp", a |-> sub[1], ord |-> e.n \notin {"==", "!="}]>>
          ELSE Eq(t, P("bool")) \o Eq(sub[1], sub[2]) \o <<[k |-> "log", a |-> sub[1]]>>)
    [] e.k = "un" ->
         subs \o
         (IF e.n = "-" THEN Is(t, "num") \o Eq(t, sub[1])
          ELSE IF e.n = "~" THEN Is(t, "num") \o Is(t, "int") \o Eq(t, sub[1])
          ELSE Eq(t, P("bool")) \o Eq(sub[1], P("bool")))
    [] e.k = "inc" -> subs \o Assignable(e.s[1], env) \o Is(t, "num") \o Is(t, "int") \o Eq(t, sub[1])
    [] e.k = "asn" ->
         subs \o (IF e.n \in {"/=", "%="} /\ ByConst(e, env) THEN Unsaid ELSE <<>>) \o
         Assignable(e.s[1], env) \o Eq(t, sub[1]) \o Eq(t, sub[2]) \o
         (IF e.n = "=" THEN <<>> ELSE IF e.n \in {"+=", "-=", "*=", "/="} THEN Is(t, "num") ELSE Is(t, "num") \o Is(t, "int"))
    [] e.k = "dasn" ->      \* (a, b) = e
         subs \o Assignable(e.s[1], env) \o Assignable(e.s[2], env) \o Eq(V(e.s[3].i), Tuple(<<sub[1], sub[2]>>)) \o Eq(t, sub[3])
    [] e.k = "tern" -> subs \o Eq(sub[1], P("bool")) \o Eq(sub[2], sub[3]) \o Eq(t, sub[2])
    [] e.k = "addr" -> subs \o (IF LVal(e.s[1], env) # "yes" /\ e.s[1].k # "var" THEN Unsaid ELSE <<>>) \o Eq(t, PtrTo(sub[1]))
    [] e.k = "deref" -> subs \o Eq(sub[1], PtrTo(t))
    [] e.k = "idx" -> subs \o Is(sub[1], "idx") \o Is(sub[2], "int") \o <<[k |-> "elem", a |-> sub[1], b |-> t]>>
    [] e.k = "slice" -> subs \o Is(sub[1], "slice") \o Is(sub[2], "num") \o Is(sub[2], "int") \o Is(sub[3], "num") \o Is(sub[3], "int")
                        \o Eq(t, SliceOf(V(e.j))) \o <<[k |-> "elem", a |-> sub[1], b |-> V(e.j)]>>
    [] e.k = "memb" -> subs \o <<[k |-> "memb", a |-> sub[1], m |-> e.n, b |-> t]>>
    [] e.k = "tmemb" -> subs \o <<[k |-> "tmemb", a |-> sub[1], n |-> e.j, b |-> t]>>
    [] e.k = "call" -> subs \o <<[k |-> "call", f |-> sub[1], t |-> Fun(t, Tail(sub))]>>
    [] e.k = "cast" -> subs \o Eq(t, e.t) \o <<[k |-> "cast", a |-> sub[1], b |-> e.t]>>
    [] e.k = "tup" -> subs \o Eq(t, Tuple(sub))
    [] e.k = "arr" -> subs \o Eq(t, ArrOf(Len(sub), sub[1])) \o Cat([j \in 1..Len(sub) |-> Eq(sub[1], sub[j])])
    [] e.k = "slit" -> subs \o <<[k |-> "slit", a |-> t, ms |-> e.ms, ts |-> sub]>>
    [] e.k = "ucon" ->
         LET us == { n \in DOMAIN c.names : c.names[n].k = "union" /\ \E j \in 1..Len(c.names[n].ms) : c.names[n].ms[j][1] = e.n }
         IN IF us = {} THEN Bad
            ELSE LET u == CHOOSE n \in us : TRUE
                     j == CHOOSE x \in 1..Len(c.names[u].ms) : c.names[u].ms[x][1] = e.n
                     a == c.names[u].ms[j][2]
                 IN subs \o Eq(t, Named(u)) \o
                    (IF Len(a) # Len(sub) THEN Bad ELSE IF a = <<>> THEN <<>> ELSE Eq(sub[1], a[1]))
    [] e.k = "lam" ->
         LET env1 == [n \in DOMAIN env \cup { e.ps[j].n : j \in 1..Len(e.ps) } |->
                        IF \E j \in 1..Len(e.ps) : e.ps[j].n = n
                        THEN [t |-> V(e.ps[CHOOSE j \in 1..Len(e.ps) : e.ps[j].n = n].i), cst |-> FALSE] ELSE env[n]]
         IN Eq(t, Fun(V(e.j), [j \in 1..Len(e.ps) |-> V(e.ps[j].i)]))
            \o Cat([j \in 1..Len(e.ps) |-> IF e.ps[j].t = <<>> THEN <<>> ELSE Eq(V(e.ps[j].i), e.ps[j].t[1])])
            \o (IF e.t = <<>> THEN <<>> ELSE Eq(V(e.j), e.t[1]))
            \o (IF \E j \in 1..Len(e.b) : e.b[j].k = "ret" THEN <<>> ELSE Eq(V(e.j), P("void")))
            \o Block(c, e.b, 1, env1, V(e.j))
    [] OTHER -> Unsaid

\* names bound by a pattern
PatEnv(p, env) ==
  CASE p.k = "bind" -> Bind(env, p.n, V(p.i), FALSE)
    [] p.k \in {"ucon", "tup", "slit"} ->
         LET F[j \in 0..Len(p.s)] == IF j = 0 THEN env ELSE PatEnv(p.s[j], F[j - 1]) IN F[Len(p.s)]
    [] OTHER -> env
Pat(c, p) ==
  CASE p.k \in {"bind", "gap"} -> <<>>
    [] p.k \in {"ucon", "tup", "slit"} ->
         \* as the expression of this form, over patterns
         E(c, [p EXCEPT !.s = [j \in 1..Len(p.s) |-> [k |-> "hole", i |-> p.s[j].i, s |-> <<>>]]], <<>>) \o Cat([j \in 1..Len(p.s) |-> Pat(c, p.s[j])])
    [] OTHER -> E(c, p, <<>>)

S(c, s, env, ret) ==      \* [cs, env]
  LET same(cs) == [cs |-> cs, env |-> env] IN
  CASE s.k = "var" ->
         LET cs == (IF s.t = <<>> THEN <<>> ELSE Eq(V(s.i), s.t[1]))
                   \o (IF s.e = <<>> THEN <<>> ELSE E(c, s.e[1], env) \o Eq(V(s.i), V(s.e[1].i)))
         IN [cs |-> cs, env |-> Bind(env, s.n, V(s.i), s.cst = 1)]
    [] s.k = "expr" -> same(E(c, s.e[1], env))
    [] s.k = "if" -> same(E(c, s.e[1], env) \o Eq(V(s.e[1].i), P("bool")) \o Block(c, s.a, 1, env, ret) \o Block(c, s.b, 1, env, ret))
    [] s.k = "while" -> same(E(c, s.e[1], env) \o Eq(V(s.e[1].i), P("bool")) \o Block(c, s.a, 1, env, ret))
    [] s.k = "for" ->
         LET d == S(c, s.d, env, ret) IN
         same(d.cs \o E(c, s.e[1], d.env) \o Eq(V(s.e[1].i), P("bool")) \o E(c, s.e[2], d.env) \o Block(c, s.a, 1, d.env, ret))
    [] s.k = "iter" ->
         same(E(c, s.e[1], env) \o Pat(c, s.p) \o Is(V(s.e[1].i), "iter")
              \o <<[k |-> "elem", a |-> V(s.e[1].i), b |-> V(s.p.i)]>> \o Block(c, s.a, 1, PatEnv(s.p, env), ret))
    [] s.k = "match" ->
         same(E(c, s.e[1], env) \o Cat([j \in 1..Len(s.arms) |->
                Pat(c, s.arms[j].p) \o Eq(V(s.e[1].i), V(s.arms[j].p.i)) \o Block(c, s.arms[j].a, 1, PatEnv(s.arms[j].p, env), ret)]))
    [] s.k = "ret" -> same(IF s.e = <<>> THEN Eq(ret, P("void")) ELSE E(c, s.e[1], env) \o Eq(ret, V(s.e[1].i)))
    [] OTHER -> same(Unsaid)

Block(c, ss, j, env, ret) ==
  IF j > Len(ss) THEN <<>>
  ELSE LET r == S(c, ss[j], env, ret) IN r.cs \o Block(c, ss, j + 1, r.env, ret)

(* ------------------------------------------------------------ unification *)
\* st: [sub: variable -> <<>> or <<type>>, cl: variable -> classes, ok]
RECURSIVE Walk(_, _), Occurs(_, _, _), Unify(_, _, _, _), UnifyAll(_, _, _, _, _), Full(_, _)
Walk(st, t) == IF t.h = "var" /\ st.sub[t.i] # <<>> THEN Walk(st, st.sub[t.i][1]) ELSE t
Occurs(st, i, t0) ==
  LET t == Walk(st, t0) IN IF t.h = "var" THEN t.i = i ELSE \E j \in 1..Len(t.s) : Occurs(st, i, t.s[j])
Fail(st) == [st EXCEPT !.ok = FALSE]
BindVar(c, st, i, t) ==
  IF t.h = "var" THEN [st EXCEPT !.sub[i] = <<t>>, !.cl[t.i] = @ \cup st.cl[i]]
  ELSE IF Occurs(st, i, t) \/ ~(st.cl[i] \subseteq Classes(c, t)) THEN Fail(st)
  ELSE [st EXCEPT !.sub[i] = <<t>>]
Unify(c, st, a0, b0) ==
  IF ~st.ok THEN st
  ELSE LET a == Walk(st, a0)
           b == Walk(st, b0)
       IN IF a.h = "var" /\ b.h = "var" THEN IF a.i = b.i THEN st ELSE BindVar(c, st, a.i, b)
          ELSE IF a.h = "var" THEN BindVar(c, st, a.i, b)
          ELSE IF b.h = "var" THEN BindVar(c, st, b.i, a)
          ELSE IF a.h # b.h \/ a.n # b.n \/ a.m # b.m \/ Len(a.s) # Len(b.s) THEN Fail(st)
          ELSE UnifyAll(c, st, a.s, b.s, 1)
UnifyAll(c, st, as, bs, j) == IF j > Len(as) THEN st ELSE UnifyAll(c, Unify(c, st, as[j], bs[j]), as, bs, j + 1)

Require(c, st, a, r) ==
  LET t == Walk(st, a) IN
  IF t.h = "var" THEN [st EXCEPT !.cl[t.i] = @ \cup {r}]
  ELSE IF r \in Classes(c, t) THEN st ELSE Fail(st)

Later == {"elem", "memb", "tmemb", "slit", "call"}
Final == {"cast", "cmp", "log"}

RECURSIVE Solve1(_, _, _, _)
Solve1(c, st, cs, j) ==
  IF j > Len(cs) \/ ~st.ok THEN st
  ELSE LET d == cs[j]
           st1 == CASE d.k = "eq" -> Unify(c, st, d.a, d.b)
                    [] d.k = "is" -> Require(c, st, d.a, d.r)
                    [] d.k = "bad" -> Fail(st)
                    [] d.k = "any" -> [st EXCEPT !.any = TRUE]
                    [] OTHER -> st
       IN Solve1(c, st1, cs, j + 1)

\* one demand that needs to know the type: [st, done]
MemberType(c, u, m) ==
  LET ms == Def(c, u).ms IN
  IF \E j \in 1..Len(ms) : ms[j][1] = m THEN <<ms[CHOOSE j \in 1..Len(ms) : ms[j][1] = m][2][1]>> ELSE <<>>
RECURSIVE SlitAll(_, _, _, _, _, _)
SlitAll(c, st, u, ms, ts, j) ==
  IF j > Len(ms) THEN st
  ELSE LET mt == MemberType(c, u, ms[j]) IN
       IF mt = <<>> THEN Fail(st) ELSE SlitAll(c, Unify(c, st, mt[1], ts[j]), u, ms, ts, j + 1)
Apply(c, st, d) ==
  LET w == Walk(st, IF d.k = "call" THEN d.f ELSE d.a)
      u == IF w.h = "var" THEN w ELSE Under(c, w)
  IN
  IF d.k = "call" THEN
       IF u.h = "var" THEN [st |-> Unify(c, st, u, d.t), done |-> TRUE]
       ELSE IF u.h # "fn" THEN [st |-> Fail(st), done |-> TRUE]
       ELSE [st |-> Unify(c, st, u, d.t), done |-> TRUE]
  ELSE IF u.h = "var" THEN [st |-> st, done |-> FALSE]
  ELSE IF d.k = "elem" THEN
       IF u.h \in {"slice", "array", "ptr"} THEN [st |-> Unify(c, st, u.s[1], d.b), done |-> TRUE]
       ELSE [st |-> Fail(st), done |-> TRUE]
  ELSE IF d.k = "slit" THEN
       IF IsStruct(c, u) THEN [st |-> SlitAll(c, st, u, d.ms, d.ts, 1), done |-> TRUE]
       ELSE [st |-> Fail(st), done |-> TRUE]
  ELSE IF d.k = "memb" /\ u.h \in {"slice", "array"} THEN
       IF d.m = "len" THEN [st |-> Require(c, Require(c, st, d.b, "num"), d.b, "int"), done |-> TRUE]
       ELSE [st |-> Fail(st), done |-> TRUE]
  ELSE IF d.k = "memb" /\ IsUnion(c, u) THEN
       IF d.m = "tag" THEN [st |-> Require(c, Require(c, st, d.b, "num"), d.b, "int"), done |-> TRUE]
       ELSE [st |-> Fail(st), done |-> TRUE]
  ELSE LET w1 == IF u.h = "ptr" THEN Walk(st, u.s[1]) ELSE u
           v == IF w1.h = "var" THEN w1 ELSE Under(c, w1)
       IN IF v.h = "var" THEN [st |-> st, done |-> FALSE]
          ELSE IF d.k = "memb" THEN
               IF IsStruct(c, v) /\ MemberType(c, v, d.m) # <<>>
               THEN [st |-> Unify(c, st, MemberType(c, v, d.m)[1], d.b), done |-> TRUE]
               ELSE [st |-> Fail(st), done |-> TRUE]
          ELSE IF v.h = "tuple" /\ d.n < Len(v.s) THEN [st |-> Unify(c, st, v.s[d.n + 1], d.b), done |-> TRUE]
               ELSE [st |-> Fail(st), done |-> TRUE]

\* all of them, as often as some of them can be applied: [st, left]
RECURSIVE Pass(_, _, _, _, _), Rounds(_, _, _)
Pass(c, st, ds, j, left) ==
  IF j > Len(ds) THEN [st |-> st, left |-> left]
  ELSE LET r == Apply(c, st, ds[j]) IN Pass(c, r.st, ds, j + 1, IF r.done THEN left ELSE Append(left, ds[j]))
Rounds(c, st, ds) ==
  LET r == Pass(c, st, ds, 1, <<>>) IN
  IF ~r.st.ok \/ r.left = <<>> \/ Len(r.left) = Len(ds) THEN r ELSE Rounds(c, r.st, r.left)

\* default types for numbers; what is still open then stays open
Default(st) ==
  [st EXCEPT !.sub = [i \in DOMAIN st.sub |->
     IF st.sub[i] # <<>> THEN st.sub[i]
     ELSE IF st.cl[i] # {} /\ st.cl[i] \subseteq {"num", "int"} THEN <<P("int")>>
     ELSE IF st.cl[i] # {} /\ st.cl[i] \subseteq {"num", "flt"} THEN <<P("flt64")>>
     ELSE <<>>]]
Open(st) == \E i \in DOMAIN st.sub : st.sub[i] = <<>>

\* may a be converted to b?
Full(st, t0) == LET t == Walk(st, t0) IN [t EXCEPT !.s = [j \in 1..Len(t.s) |-> Full(st, t.s[j])]]
RECURSIVE SameUnder(_, _, _)
SameUnder(c, a0, b0) ==
  LET a == Under(c, a0)
      b == Under(c, b0)
  IN a.h = b.h /\ a.n = b.n /\ a.m = b.m /\ Len(a.s) = Len(b.s) /\ a = b
CastOk(c, a0, b0) ==      \* "yes", "no" or "any"
  LET a == Under(c, a0)
      b == Under(c, b0)
  IN IF a = b THEN "yes"
     ELSE IF a.h \in Ints /\ b.h \in Ints \cup Flts THEN "yes"
     ELSE IF a.h \in Flts /\ b.h \in Ints \cup Flts THEN IF b.h = "char" THEN "any" ELSE "yes"
     ELSE IF a.h = "ptr" /\ b.h = "ptr" THEN "yes"
     ELSE IF a.h = "ptr" /\ b.h \in Ints THEN "yes"
     ELSE IF a.h \in Ints /\ b.h = "ptr" THEN "yes"
     ELSE IF a.h = "slice" /\ b.h = "ptr" THEN "yes"
     ELSE IF a.h = "fn" /\ b.h = "ptr" THEN "yes"
     ELSE IF "bool" \in {a.h, b.h} THEN
          IF {a.h, b.h} \cap Ints # {} \/ a.h \in Flts \/ {a.h, b.h} \cap {"ptr", "slice", "fn"} # {} THEN "any" ELSE "no"
     ELSE IF a.h = "slice" /\ b.h \in {"int64", "uint64"} THEN "any"
     ELSE IF {a.h, b.h} \cap {"tuple", "array", "name", "void"} # {} \/ b.h \in {"slice", "fn"} \cup Flts THEN
          IF a.h = b.h THEN "any" ELSE "no"
     ELSE "no"
CmpOk(c, t0, ord) ==
  LET t == Under(c, t0) IN
  IF t.h \in Ints \cup Flts \cup {"bool", "ptr"} THEN IF t.h \in {"bool", "ptr"} /\ ord THEN "any" ELSE "yes"
  ELSE IF t.h = "name" /\ Def(c, t).k = "union" THEN
       IF \A j \in 1..Len(Def(c, t).ms) : Def(c, t).ms[j][2] = <<>> THEN IF ord THEN "no" ELSE "yes" ELSE "no"
  ELSE IF t.h = "void" THEN "any" ELSE "no"

\* the documentation has && and || on truth values; numbers are tolerated
LogOk(c, t0) == LET t == Under(c, t0) IN IF t.h = "bool" THEN "yes" ELSE IF t.h \in Ints THEN "any" ELSE "skip"

Select(cs, ks) == SelectSeq(cs, LAMBDA d : d.k \in ks)

Verdict(c) ==
  LET env0 == [n \in { c.globals[j].n : j \in 1..Len(c.globals) } \cup { c.params[j].n : j \in 1..Len(c.params) } |->
                 IF \E j \in 1..Len(c.params) : c.params[j].n = n
                 THEN [t |-> c.params[CHOOSE j \in 1..Len(c.params) : c.params[j].n = n].t, cst |-> FALSE]
                 ELSE LET g == c.globals[CHOOSE j \in 1..Len(c.globals) : c.globals[j].n = n] IN [t |-> g.t, cst |-> g.cst = 1]]
      cs == Block(c, c.body, 1, env0, c.ret)
      st0 == [sub |-> [i \in 1..c.nv |-> <<>>], cl |-> [i \in 1..c.nv |-> {}], ok |-> TRUE, any |-> FALSE]
      st1 == Solve1(c, st0, cs, 1)
  IN IF ~st1.ok THEN "reject"
     ELSE LET r == Rounds(c, st1, Select(cs, Later)) IN
     IF ~r.st.ok THEN "reject"
     ELSE LET st2 == Default(r.st)
              r2 == IF r.left = <<>> THEN [st |-> st2, left |-> <<>>] ELSE Rounds(c, st2, r.left)
              fin == Select(cs, Final)
              Judge(d) == IF d.k = "log" THEN LogOk(c, Full(st2, d.a)) ELSE IF d.k = "cast" THEN CastOk(c, Full(st2, d.a), Full(st2, d.b)) ELSE CmpOk(c, Full(st2, d.a), d.ord)
          IN IF ~r2.st.ok \/ Open(st2) THEN "reject"
             ELSE IF r2.left # <<>> THEN "reject"
             ELSE LET js == { Judge(fin[j]) : j \in 1..Len(fin) } IN
                  IF "no" \in js THEN "reject" ELSE IF "skip" \in js THEN "skip" ELSE IF "any" \in js \/ st1.any THEN "any" ELSE "accept"

(* ------------------------------------------------------------------------ *)
VARIABLES t, l, want
vars == <<t, l, want>>
Init == t \in 1..Len(Cases) /\ l = 0 /\ want = ""
Next == l = 0 /\ l' = 1 /\ t' = t /\ want' = Verdict(Cases[t])
Spec == Init /\ [][Next]_vars
Accepted == l = 1 => \/ want = Cases[t].got
                     \/ want = "skip"
                     \/ want = "any" /\ Cases[t].got \in {"accept", "reject"}
=============================================================================
