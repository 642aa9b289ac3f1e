-------------------------------- MODULE Myr ---------------------------------
(* An executable semantics of the Myrddin language (doc/lang.txt), used as   *)
(* the oracle for compiled programs.                                         *)
(*                                                                           *)
(* The abstract machine: a store `mem` of objects (each object a value tree),*)
(* environments mapping names to objects, an output sequence, and a control  *)
(* state.  Values:                                                           *)
(*   integer    limbs (see Bits)           bool       TRUE / FALSE           *)
(*   aggregate  sequence of values         union      [t, v]                 *)
(*   pointer    [o, p] object and path     slice      [o, p, lo, hi]         *)
(*   function   [f, env]  (env: name -> object holding the captured copy)    *)
(* Programs are syntax trees (records with a field k) that the generator     *)
(* writes both as JSON for this module and as source text for the compiler.  *)
(*                                                                           *)
(* Evaluation is deterministic; Eval and Exec return a record with the new   *)
(* machine state s; s.c is "ok", or "trap" once the program has ended        *)
(* abnormally (an index out of range), after which nothing is evaluated.     *)
EXTENDS Bits, FiniteSets, TLC

(* ------------------------------ the store ------------------------------- *)
RECURSIVE GetAt(_, _, _), SetAt(_, _, _, _)
GetAt(v, p, i) == IF i > Len(p) THEN v ELSE GetAt(v[p[i]], p, i + 1)
SetAt(v, p, i, x) == IF i > Len(p) THEN x ELSE [v EXCEPT ![p[i]] = SetAt(@, p, i + 1, x)]

Load(s, lv) == GetAt(s.mem[lv.o], lv.p, 1)
Store(s, lv, x) == [s EXCEPT !.mem[lv.o] = SetAt(@, lv.p, 1, x)]
Alloc(s, x) == [s EXCEPT !.mem = Append(@, x)]        \* the new object is Len(mem)
Out(s, x) == [s EXCEPT !.out = Append(@, x)]
Trap(s) == [s EXCEPT !.c = "trap"]
\* from here on anything may happen: a float that 24 bits do not hold
Open(s) == [s EXCEPT !.c = "open"]
OK(s) == s.c = "ok"

EmptyEnv == [x \in {} |-> 0]
Bind(env, n, o) == (n :> o) @@ env

(* ----------------------------- operators -------------------------------- *)
TI == [int8 |-> <<8, TRUE>>, int16 |-> <<16, TRUE>>, int32 |-> <<32, TRUE>>, int64 |-> <<64, TRUE>>,
       int |-> <<32, TRUE>>, uint8 |-> <<8, FALSE>>, uint16 |-> <<16, FALSE>>, uint32 |-> <<32, FALSE>>,
       uint64 |-> <<64, FALSE>>, uint |-> <<32, FALSE>>, byte |-> <<8, FALSE>>, char |-> <<32, FALSE>>]
\* Types are terms <<constructor, argument, ...>>; a scalar type is <<name>>,
\* a type parameter <<"@a">>.  A node's y is the name of a scalar type or of a
\* parameter, which is looked up in the instantiation's type environment.
Ty(y, te) == IF y \in DOMAIN te THEN te[y][1] ELSE y
W(y, te) == TI[Ty(y, te)][1]
S(y, te) == TI[Ty(y, te)][2]
IsFlt(y, te) == Ty(y, te) \in {"flt32", "flt64"}

RECURSIVE Subst(_, _), MatchTy(_, _, _), MatchTys(_, _, _, _)
\* the parameters of a term replaced
Subst(t, te) == IF t[1] \in DOMAIN te THEN te[t[1]]
                ELSE [i \in 1..Len(t) |-> IF i = 1 THEN t[1] ELSE Subst(t[i], te)]
\* matching a pattern term <<"?", name>> / <<c, ..>> against a closed term:
\* <<environment>> or <<>>
MatchTy(p, t, te) ==
  IF p[1] = "?" THEN IF p[2] \in DOMAIN te THEN IF te[p[2]] = t THEN <<te>> ELSE <<>>
                     ELSE << (p[2] :> t) @@ te >>
  ELSE IF p[1] # t[1] \/ Len(p) # Len(t) THEN <<>> ELSE MatchTys(p, t, te, 2)
MatchTys(p, t, te, i) ==
  IF i > Len(p) THEN <<te>>
  ELSE LET r == MatchTy(p[i], t[i], te) IN IF r = <<>> THEN <<>> ELSE MatchTys(p, t, r[1], i + 1)

NumericTypes == DOMAIN TI \cup {"flt32", "flt64"}
RECURSIVE Candidates(_, _, _), Sat(_, _, _)
\* type t satisfies the trait (built in, or one of the program's)
Sat(P, tr, t) == CASE tr = "numeric" -> t[1] \in NumericTypes
                   [] tr = "integral" -> t[1] \in DOMAIN TI
                   [] tr = "floating" -> t[1] \in {"flt32", "flt64"}
                   [] OTHER -> tr \in DOMAIN P.traits /\ Candidates(P, P.traits[tr], t) # {}
\* the implementations of trait function f that apply to type t
Candidates(P, f, t) ==
  {i \in 1..Len(P.impls[f]) :
     LET m == MatchTy(P.impls[f][i].pat, t, [x \in {} |-> 0]) IN
     m # <<>> /\ \A b \in 1..Len(P.impls[f][i].bounds) :
                    LET q == P.impls[f][i].bounds[b] IN Sat(P, q[2], m[1][q[1]])}
\* pattern p is an instance of pattern q
InstOf(p, q) == MatchTy(q, p, [x \in {} |-> 0]) # <<>>
\* the most specific of them, with the instantiation of its parameters
Impl(P, f, t) ==
  LET C == Candidates(P, f, t)
      i == CHOOSE x \in C : \A y \in C : InstOf(P.impls[f][x].pat, P.impls[f][y].pat)
  IN [fn |-> P.impls[f][i].fn, te |-> MatchTy(P.impls[f][i].pat, t, [x \in {} |-> 0])[1]]

BinOp(op, a, b, w, s) ==
  CASE op = "+" -> Add(a, b, w) [] op = "-" -> Sub(a, b, w) [] op = "*" -> Mul(a, b, w)
    [] op = "/" -> DivMod(a, b, w, s)[1] [] op = "%" -> DivMod(a, b, w, s)[2]
    [] op = "&" -> BAnd(a, b) [] op = "|" -> BOr(a, b) [] op = "^" -> BXor(a, b)
    [] op = "<<" -> Shl(a, ToNat(b), w) [] op = ">>" -> Shr(a, ToNat(b), w, s)
Compare(op, a, b, w, s) ==
  CASE op = "==" -> a = b [] op = "!=" -> a # b
    [] op = "<" -> Lt(a, b, w, s) [] op = ">" -> Lt(b, a, w, s)
    [] op = "<=" -> ~Lt(b, a, w, s) [] op = ">=" -> ~Lt(a, b, w, s)
\* floats are only used with small integer values, where IEEE arithmetic is exact
FltAbs(a) == IF a < 0 THEN -a ELSE a
FltBig(op, a, b) == IF op = "*" THEN a # 0 /\ FltAbs(b) > 16777216 \div FltAbs(a) ELSE FltAbs(a) + FltAbs(b) > 16777216
FltOp(op, a, b) == CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b
Arith(op, a, b, y, te) == IF IsFlt(y, te) THEN FltOp(op, a, b) ELSE BinOp(op, a, b, W(y, te), S(y, te))
FltCmp(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
                      [] op = ">" -> a > b [] op = "<=" -> a <= b [] op = ">=" -> a >= b

\* an index value as a native number: -1 when negative or too large to be in range
IdxNat(a, w, s) == IF (s /\ SignBit(a, w)) \/ ~FitsNat(a) THEN -1 ELSE ToNat(a)
IntToNative(a, w, s) == IF s /\ SignBit(a, w) THEN -ToNat(Neg(a, w)) ELSE ToNat(a)
\* conversion between numeric types
Convert(v, fy, y, te) ==
  CASE IsFlt(fy, te) /\ IsFlt(y, te) -> v
    [] IsFlt(fy, te) -> LET w == W(y, te) IN IF v < 0 THEN Neg(FromNat(-v, w), w) ELSE FromNat(v, w)
    [] IsFlt(y, te) -> IF S(fy, te) /\ SignBit(v, W(fy, te)) THEN -ToNat(Neg(v, W(fy, te))) ELSE ToNat(v)
    [] OTHER -> Ext(v, W(fy, te), S(fy, te), W(y, te))
NativeToInt(n, w) == IF n < 0 THEN Neg(FromNat(-n, w), w) ELSE FromNat(n, w)

(* ------------------------- patterns (match, for) ------------------------- *)
\* Match yields [m |-> matched?, b |-> sequence of <<name, value>>]
RECURSIVE MatchP(_, _, _), MatchSeq(_, _, _, _)
NoMatch == [m |-> FALSE, b |-> <<>>]
MatchP(s, p, v) ==
  CASE p.k = "wild" -> [m |-> TRUE, b |-> <<>>]
    [] p.k = "bind" -> [m |-> TRUE, b |-> << <<p.n, v>> >>]
    [] p.k = "lit"  -> [m |-> p.v = v, b |-> <<>>]
    [] p.k = "str"  -> [m |-> /\ v.hi - v.lo = Len(p.v)
                              /\ LET a == GetAt(s.mem[v.o], v.p, 1) IN
                                 \A i \in 1..Len(p.v) : a[v.lo + i] = p.v[i],
                        b |-> <<>>]
    [] p.k = "seq"  -> MatchSeq(s, p.ps, v, 1)
    [] p.k = "or"   -> LET R[i \in 1..Len(p.ps)] ==
                             LET m == MatchP(s, p.ps[i], v) IN
                             IF m.m \/ i = Len(p.ps) THEN m ELSE R[i + 1]
                       IN R[1]
    [] p.k = "un"   -> IF v.t # p.t THEN NoMatch
                       ELSE IF p.p = <<>> THEN [m |-> TRUE, b |-> <<>>] ELSE MatchP(s, p.p[1], v.v)
    [] p.k = "ptr"  -> MatchP(s, p.p, Load(s, v))
\* ps: sequence of <<index, pattern>>
MatchSeq(s, ps, v, i) ==
  IF i > Len(ps) THEN [m |-> TRUE, b |-> <<>>]
  ELSE LET r == MatchP(s, ps[i][2], v[ps[i][1]]) IN
       IF ~r.m THEN NoMatch
       ELSE LET q == MatchSeq(s, ps, v, i + 1) IN [m |-> q.m, b |-> r.b \o q.b]

RECURSIVE BindAll(_, _, _, _)
\* bind pattern variables to fresh objects: <<s, env>>
BindAll(s, env, b, i) ==
  IF i > Len(b) THEN <<s, env>>
  ELSE LET s1 == Alloc(s, b[i][2]) IN BindAll(s1, Bind(env, b[i][1], Len(s1.mem)), b, i + 1)

(* ---------------------------- expressions -------------------------------- *)
\* fr is the frame: [env |-> name -> object, te |-> type environment]
\* P is the program: P.fns name -> function, P.impls <<trait function, type>> -> function
RECURSIVE Eval(_, _, _, _), EvalN(_, _, _, _, _, _), LVal(_, _, _, _),
          Exec(_, _, _, _), Block(_, _, _, _, _), Loop(_, _, _, _, _, _), Each(_, _, _, _, _, _),
          Arms(_, _, _, _, _, _), BindParams(_, _, _, _, _), Find(_, _, _),
          Stmts(_, _, _, _, _), Dispose(_, _, _, _), Drain(_, _), EachIt(_, _, _, _, _, _)

R(s, v) == [s |-> s, v |-> v]
Bad(s) == [s |-> s, v |-> <<>>]

\* evaluate es[i..] left to right, collecting values
EvalN(P, es, i, fr, s, acc) ==
  IF i > Len(es) THEN R(s, acc)
  ELSE LET r == Eval(P, es[i], fr, s) IN
       IF ~OK(r.s) THEN Bad(r.s) ELSE EvalN(P, es, i + 1, fr, r.s, Append(acc, r.v))

BindParams(ps, vs, i, env, s) ==
  IF i > Len(ps) THEN <<s, env>>
  ELSE LET s1 == Alloc(s, vs[i]) IN BindParams(ps, vs, i + 1, Bind(env, ps[i], Len(s1.mem)), s1)

\* call function f with argument values; cenv holds captured objects
Call(P, f, cenv, te, vs, s) ==
  LET fn == P.fns[f]
      b == BindParams(fn.ps, vs, 1, cenv @@ P.genv, s)
      r == Block(P, fn.body, 1, [env |-> b[2], te |-> te, autos |-> <<>>], [b[1] EXCEPT !.q = <<>>])
  IN IF ~OK(r.s) THEN Bad(r.s) ELSE R([r.s EXCEPT !.q = s.q], IF r.ctl = "ret" THEN r.v ELSE <<>>)

\* the type environment of an instantiation: parameter -> type name;
\* arguments that are themselves parameters are looked up in the caller's
Inst(ta, te) == [x \in DOMAIN ta |-> Subst(ta[x], te)]

Eval(P, e, fr, s) ==
  CASE e.k = "lit" -> R(s, e.v)
    [] e.k = "glit" -> R(s, IF IsFlt(e.y, fr.te) THEN e.v ELSE FromNat(e.v, W(e.y, fr.te)))   \* literal of a generic's type
    [] e.k = "str" -> LET s1 == Alloc(s, [i \in 1..Len(e.v) |-> e.v[i]])
                      IN R(s1, [o |-> Len(s1.mem), p |-> <<>>, lo |-> 0, hi |-> Len(e.v)])
    [] e.k = "var" -> R(s, s.mem[fr.env[e.n]])
    [] e.k = "bin" -> LET r == EvalN(P, <<e.a, e.b>>, 1, fr, s, <<>>) IN
                      IF ~OK(r.s) THEN Bad(r.s)
                      ELSE IF IsFlt(e.y, fr.te) /\ FltBig(e.op, r.v[1], r.v[2]) THEN Bad(Open(r.s))
                      ELSE R(r.s, Arith(e.op, r.v[1], r.v[2], e.y, fr.te))
    [] e.k = "cmp" -> LET r == EvalN(P, <<e.a, e.b>>, 1, fr, s, <<>>) IN
                      IF ~OK(r.s) THEN Bad(r.s)
                      ELSE R(r.s, IF IsFlt(e.y, fr.te) THEN FltCmp(e.op, r.v[1], r.v[2])
                                  ELSE Compare(e.op, r.v[1], r.v[2], W(e.y, fr.te), S(e.y, fr.te)))
    [] e.k = "fbin" -> LET r == EvalN(P, <<e.a, e.b>>, 1, fr, s, <<>>) IN
                       IF ~OK(r.s) THEN Bad(r.s) ELSE IF FltBig(e.op, r.v[1], r.v[2]) THEN Bad(Open(r.s)) ELSE R(r.s, FltOp(e.op, r.v[1], r.v[2]))
    [] e.k = "fcmp" -> LET r == EvalN(P, <<e.a, e.b>>, 1, fr, s, <<>>) IN
                       IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, FltCmp(e.op, r.v[1], r.v[2]))
    [] e.k = "f2i" -> LET r == Eval(P, e.a, fr, s) IN
                      IF ~OK(r.s) THEN r ELSE R(r.s, NativeToInt(r.v, W(e.y, fr.te)))
    [] e.k = "i2f" -> LET r == Eval(P, e.a, fr, s) IN
                      IF ~OK(r.s) THEN r ELSE R(r.s, IntToNative(r.v, W(e.fy, fr.te), S(e.fy, fr.te)))
    [] e.k = "fneg" -> LET r == Eval(P, e.a, fr, s) IN IF ~OK(r.s) THEN r ELSE R(r.s, -r.v)
    [] e.k = "and" -> LET r == Eval(P, e.a, fr, s) IN
                      IF ~OK(r.s) THEN Bad(r.s) ELSE IF ~r.v THEN R(r.s, FALSE) ELSE Eval(P, e.b, fr, r.s)
    [] e.k = "or"  -> LET r == Eval(P, e.a, fr, s) IN
                      IF ~OK(r.s) THEN Bad(r.s) ELSE IF r.v THEN R(r.s, TRUE) ELSE Eval(P, e.b, fr, r.s)
    [] e.k = "not" -> LET r == Eval(P, e.a, fr, s) IN IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, ~r.v)
    [] e.k = "neg" -> LET r == Eval(P, e.a, fr, s) IN IF ~OK(r.s) THEN Bad(r.s)
                       ELSE R(r.s, IF IsFlt(e.y, fr.te) THEN -r.v ELSE Neg(r.v, W(e.y, fr.te)))
    [] e.k = "bnot" -> LET r == Eval(P, e.a, fr, s) IN IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, BNot(r.v, W(e.y, fr.te)))
    [] e.k = "cast" -> LET r == Eval(P, e.a, fr, s) IN
                       IF ~OK(r.s) THEN Bad(r.s)
                       ELSE R(r.s, Convert(r.v, e.fy, e.y, fr.te))
    [] e.k = "b2i" -> LET r == Eval(P, e.a, fr, s) IN
                      IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, FromNat(IF r.v THEN 1 ELSE 0, W(e.y, fr.te)))
    [] e.k = "tern" -> LET r == Eval(P, e.c, fr, s) IN
                       IF ~OK(r.s) THEN Bad(r.s) ELSE Eval(P, IF r.v THEN e.a ELSE e.b, fr, r.s)
    [] e.k = "agg" -> \* struct, tuple or array literal; e.ix: position of each expression; e.z: zero value
                      LET r == EvalN(P, e.es, 1, fr, s, <<>>) IN
                      IF ~OK(r.s) THEN Bad(r.s)
                      ELSE R(r.s, [i \in 1..Len(e.z) |->
                                    IF \E j \in 1..Len(e.ix) : e.ix[j] = i
                                    THEN r.v[CHOOSE j \in 1..Len(e.ix) : e.ix[j] = i] ELSE e.z[i]])
    [] e.k = "un" -> IF e.e = <<>> THEN R(s, [t |-> e.t, v |-> <<>>])
                     ELSE LET r == Eval(P, e.e[1], fr, s) IN
                          IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, [t |-> e.t, v |-> r.v])
    [] e.k = "fld" -> LET r == Eval(P, e.e, fr, s) IN IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, r.v[e.i])
    [] e.k = "len" -> LET r == Eval(P, e.e, fr, s) IN
                      IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, FromNat(r.v.hi - r.v.lo, 64))
    [] e.k = "seqeq" -> \* element-wise equality written as a loop by the generator's helper
                      LET r == EvalN(P, <<e.a, e.b>>, 1, fr, s, <<>>) IN
                      IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, r.v[1] = r.v[2])
    [] e.k \in {"idx", "deref", "lfld"} ->
                      LET r == LVal(P, e, fr, s) IN
                      IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, Load(r.s, r.v))
    [] e.k = "aidx" -> \* index of an array rvalue
                      LET r == EvalN(P, <<e.e, e.ie>>, 1, fr, s, <<>>) IN
                      IF ~OK(r.s) THEN Bad(r.s)
                      ELSE LET i == IdxNat(r.v[2], W(e.y, fr.te), S(e.y, fr.te)) IN
                           IF i < 0 \/ i >= Len(r.v[1]) THEN Bad(Trap(r.s)) ELSE R(r.s, r.v[1][i + 1])
    [] e.k = "addr" -> LVal(P, e.e, fr, s)
    [] e.k = "slice" -> \* of a slice value (e.on = "slice") or an array lvalue
         LET b == IF e.on = "slice" THEN Eval(P, e.e, fr, s) ELSE LVal(P, e.e, fr, s) IN
         IF ~OK(b.s) THEN Bad(b.s)
         ELSE LET n == IF e.on = "slice" THEN b.v.hi - b.v.lo ELSE Len(Load(b.s, b.v))
                  r == EvalN(P, e.b, 1, fr, b.s, <<>>)     \* the bounds present, in order
              IN IF ~OK(r.s) THEN Bad(r.s)
                 ELSE LET lo == IF e.lo THEN IdxNat(r.v[1], W(e.y, fr.te), S(e.y, fr.te)) ELSE 0
                          hi == IF e.hi THEN IdxNat(r.v[Len(r.v)], W(e.y, fr.te), S(e.y, fr.te)) ELSE n
                          b0 == IF e.on = "slice" THEN b.v.lo ELSE 0
                      IN IF lo < 0 \/ hi < lo \/ hi > n THEN Bad(Trap(r.s))
                         ELSE R(r.s, [o |-> b.v.o, p |-> b.v.p, lo |-> b0 + lo, hi |-> b0 + hi])
    [] e.k = "lam" -> \* capture by value: fresh objects hold the copies
         LET c == BindAll(s, EmptyEnv, [i \in 1..Len(e.caps) |-> <<e.caps[i], s.mem[fr.env[e.caps[i]]]>>], 1)
         IN R(c[1], [f |-> e.f, env |-> c[2], te |-> fr.te])
    [] e.k = "fn" -> R(s, [f |-> e.f, env |-> EmptyEnv, te |-> Inst(e.ta, fr.te)])
    [] e.k = "tfn" -> LET m == Impl(P, e.f, Subst(e.y, fr.te)) IN R(s, [f |-> m.fn, env |-> EmptyEnv, te |-> m.te])
    [] e.k = "call" ->
         LET r == EvalN(P, e.es, 1, fr, s, <<>>) IN
         IF ~OK(r.s) THEN Bad(r.s) ELSE Call(P, e.f, EmptyEnv, Inst(e.ta, fr.te), r.v, r.s)
    [] e.k = "tcall" -> \* trait function: the implementation for the type at hand
         LET r == EvalN(P, e.es, 1, fr, s, <<>>)
         IN IF ~OK(r.s) THEN Bad(r.s) ELSE LET m == Impl(P, e.f, Subst(e.y, fr.te)) IN Call(P, m.fn, EmptyEnv, m.te, r.v, r.s)
    [] e.k = "callv" ->
         LET g == Eval(P, e.e, fr, s) IN
         IF ~OK(g.s) THEN Bad(g.s)
         ELSE LET r == EvalN(P, e.es, 1, fr, g.s, <<>>) IN
              IF ~OK(r.s) THEN Bad(r.s) ELSE Call(P, g.v.f, g.v.env, g.v.te, r.v, r.s)
    [] e.k = "dup" -> \* a closure copied to the heap: its captured copies are copied again
         LET g == Eval(P, e.e, fr, s) IN
         IF ~OK(g.s) THEN Bad(g.s)
         ELSE LET ns == DOMAIN g.v.env
                  RECURSIVE ToSeq(_)
                  ToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE
                                                       IN << <<x, g.s.mem[g.v.env[x]]>> >> \o ToSeq(X \ {x})
                  c == BindAll(g.s, EmptyEnv, ToSeq(ns), 1)
              IN R(c[1], [f |-> g.v.f, env |-> c[2], te |-> g.v.te])
    [] e.k = "asn" -> \* assignment used as an expression: its value is what was stored
         LET l == LVal(P, e.lv, fr, s) IN
         IF ~OK(l.s) THEN Bad(l.s)
         ELSE LET r == Eval(P, e.e, fr, l.s) IN
              IF ~OK(r.s) THEN Bad(r.s) ELSE R(Store(r.s, l.v, r.v), r.v)
    [] e.k = "preinc" -> LET l == LVal(P, e.lv, fr, s) w == W(e.y, fr.te) IN
         IF ~OK(l.s) THEN Bad(l.s)
         ELSE LET v == IF e.d = 1 THEN Add(Load(l.s, l.v), FromNat(1, w), w) ELSE Sub(Load(l.s, l.v), FromNat(1, w), w)
              IN R(Store(l.s, l.v, v), v)
    [] e.k = "postinc" -> \* the variable changes at the end of the full expression
         LET l == LVal(P, e.lv, fr, s) IN
         IF ~OK(l.s) THEN Bad(l.s)
         ELSE R([l.s EXCEPT !.q = Append(@, [lv |-> l.v, d |-> e.d, w |-> W(e.y, fr.te)])], Load(l.s, l.v))
    [] e.k = "obs" -> LET r == Eval(P, e.e, fr, s) IN IF ~OK(r.s) THEN Bad(r.s) ELSE R(Out(r.s, r.v), r.v)

\* an lvalue as a location [o, p]
LVal(P, e, fr, s) ==
  CASE e.k = "var" -> R(s, [o |-> fr.env[e.n], p |-> <<>>])
    [] e.k \in {"lfld", "fld"} ->
                     LET r == LVal(P, e.e, fr, s) IN
                     IF ~OK(r.s) THEN Bad(r.s) ELSE R(r.s, [o |-> r.v.o, p |-> Append(r.v.p, e.i)])
    [] e.k = "deref" -> Eval(P, e.e, fr, s)
    [] e.k = "idx" ->
         LET b == IF e.on = "slice" THEN Eval(P, e.e, fr, s) ELSE LVal(P, e.e, fr, s) IN
         IF ~OK(b.s) THEN Bad(b.s)
         ELSE LET r == Eval(P, e.ie, fr, b.s) IN
              IF ~OK(r.s) THEN Bad(r.s)
              ELSE LET i == IdxNat(r.v, W(e.y, fr.te), S(e.y, fr.te))
                       n == IF e.on = "slice" THEN b.v.hi - b.v.lo ELSE Len(Load(r.s, b.v))
                       b0 == IF e.on = "slice" THEN b.v.lo ELSE 0
                   IN IF i < 0 \/ i >= n THEN Bad(Trap(r.s))
                      ELSE R(r.s, [o |-> b.v.o, p |-> Append(b.v.p, b0 + i + 1)])
    [] OTHER -> \* an aggregate written in place has a place of its own
         LET r == Eval(P, e, fr, s) IN
         IF ~OK(r.s) THEN Bad(r.s)
         ELSE LET s1 == Alloc(r.s, r.v) IN R(s1, [o |-> Len(s1.mem), p |-> <<>>])

(* ----------------------------- statements -------------------------------- *)
\* result: [s, fr, ctl, v]; ctl in {"next","brk","cont","ret","goto"}
X(s, fr, ctl, v) == [s |-> s, fr |-> fr, ctl |-> ctl, v |-> v]

\* the increments deferred to the end of the full expression
Drain(s, i) ==
  IF ~OK(s) THEN s
  ELSE IF i > Len(s.q) THEN [s EXCEPT !.q = <<>>]
  ELSE LET x == s.q[i] v == Load(s, x.lv) IN
       Drain(Store(s, x.lv, IF x.d = 1 THEN Add(v, FromNat(1, x.w), x.w) ELSE Sub(v, FromNat(1, x.w), x.w)), i + 1)
D(s) == Drain(s, 1)

Exec(P, st, fr, s) ==
  CASE st.k = "decl" ->
         LET r == Eval(P, st.e, fr, s) IN
         IF ~OK(r.s) THEN X(r.s, fr, "next", <<>>)
         ELSE LET s1 == Alloc(r.s, r.v) IN X(D(s1), [fr EXCEPT !.env = Bind(@, st.n, Len(s1.mem))], "next", <<>>)
    [] st.k = "auto" -> \* a declaration whose value is disposed of at the end of the block
         LET r == Eval(P, st.e, fr, s) IN
         IF ~OK(r.s) THEN X(r.s, fr, "next", <<>>)
         ELSE LET s1 == Alloc(r.s, r.v) IN
              X(D(s1), [fr EXCEPT !.env = Bind(@, st.n, Len(s1.mem)), !.autos = Append(@, <<Subst(st.y, fr.te), r.v>>)], "next", <<>>)
    [] st.k = "obs" ->
         LET r == Eval(P, st.e, fr, s) IN
         X(IF OK(r.s) THEN D(Out(r.s, r.v)) ELSE r.s, fr, "next", <<>>)
    [] st.k = "expr" -> X(D(Eval(P, st.e, fr, s).s), fr, "next", <<>>)
    [] st.k = "asn" ->
         LET l == LVal(P, st.lv, fr, s) IN
         IF ~OK(l.s) THEN X(l.s, fr, "next", <<>>)
         ELSE LET r == Eval(P, st.e, fr, l.s) IN
              X(IF OK(r.s) THEN D(Store(r.s, l.v, r.v)) ELSE r.s, fr, "next", <<>>)
    [] st.k = "tasn" -> \* tuple assignment: each component, <<>> is a gap
         LET r == Eval(P, st.e, fr, s)
             RECURSIVE Go(_, _)
             Go(i, s1) == IF i > Len(st.lvs) \/ ~OK(s1) THEN s1
                          ELSE IF st.lvs[i] = <<>> THEN Go(i + 1, s1)
                          ELSE LET l == LVal(P, st.lvs[i][1], fr, s1) IN
                               Go(i + 1, IF OK(l.s) THEN Store(l.s, l.v, r.v[i]) ELSE l.s)
         IN X(IF OK(r.s) THEN D(Go(1, r.s)) ELSE r.s, fr, "next", <<>>)
    [] st.k = "opasn" -> \* the target is evaluated once
         LET l == LVal(P, st.lv, fr, s) IN
         IF ~OK(l.s) THEN X(l.s, fr, "next", <<>>)
         ELSE LET r == Eval(P, st.e, fr, l.s) IN
              X(IF OK(r.s)
                THEN IF IsFlt(st.y, fr.te) /\ FltBig(st.op, Load(r.s, l.v), r.v) THEN D(Open(r.s)) ELSE D(Store(r.s, l.v, Arith(st.op, Load(r.s, l.v), r.v, st.y, fr.te)))
                ELSE r.s, fr, "next", <<>>)
    [] st.k = "inc" ->
         LET l == LVal(P, st.lv, fr, s) w == W(st.y, fr.te) IN
         X(IF OK(l.s)
           THEN Store(l.s, l.v, IF st.d = 1 THEN Add(Load(l.s, l.v), FromNat(1, w), w)
                                ELSE Sub(Load(l.s, l.v), FromNat(1, w), w))
           ELSE l.s, fr, "next", <<>>)
    [] st.k = "if" ->
         LET r == Eval(P, st.c, fr, s) IN
         IF ~OK(r.s) THEN X(r.s, fr, "next", <<>>)
         ELSE LET b == Block(P, IF r.v THEN st.t ELSE st.f, 1, fr, D(r.s)) IN X(b.s, fr, b.ctl, b.v)
    [] st.k = "block" -> LET b == Block(P, st.b, 1, fr, s) IN X(b.s, fr, b.ctl, b.v)
    [] st.k = "while" -> LET b == Loop(P, st.c, <<>>, st.b, fr, s) IN X(b.s, fr, b.ctl, b.v)
    [] st.k = "for" ->
         LET i == Exec(P, st.i, fr, s) IN
         IF ~OK(i.s) THEN X(i.s, fr, "next", <<>>)
         ELSE LET b == Loop(P, st.c, <<st.st>>, st.b, i.fr, i.s) IN X(b.s, fr, b.ctl, b.v)
    [] st.k = "each" -> \* over the elements of a slice or array value
         LET r == Eval(P, st.e, fr, s) IN
         IF ~OK(r.s) THEN X(r.s, fr, "next", <<>>)
         ELSE LET b == Each(P, st, r.v, 1, fr, r.s) IN X(b.s, fr, b.ctl, b.v)
    [] st.k = "eachit" -> \* over an iterable of type y: a user-defined one, or a slice
         LET r == Eval(P, st.e, fr, s) IN
         IF ~OK(r.s) THEN X(r.s, fr, "next", <<>>)
         ELSE IF Subst(st.y, fr.te)[1] \in {"[:]", "[]"}
         THEN LET b == Each(P, [p |-> st.p, b |-> st.b, on |-> IF Subst(st.y, fr.te)[1] = "[]" THEN "arr" ELSE "slice"],
                            r.v, 1, fr, D(r.s)) IN X(b.s, fr, b.ctl, b.v)
         ELSE LET s1 == Alloc(D(r.s), r.v)
                  s2 == Alloc(s1, st.z)
                  b == EachIt(P, st, [o |-> Len(s1.mem), p |-> <<>>], [o |-> Len(s2.mem), p |-> <<>>], fr, s2)
              IN X(b.s, fr, b.ctl, b.v)
    [] st.k = "match" ->
         LET r == Eval(P, st.e, fr, s) IN
         IF ~OK(r.s) THEN X(r.s, fr, "next", <<>>)
         ELSE LET b == Arms(P, st.arms, r.v, 1, fr, D(r.s)) IN X(b.s, fr, b.ctl, b.v)
    [] st.k = "brk" -> X(s, fr, "brk", <<>>)
    [] st.k = "cont" -> X(s, fr, "cont", <<>>)
    [] st.k = "goto" -> X(s, fr, "goto", st.l)
    [] st.k = "label" -> X(s, fr, "next", <<>>)
    [] st.k = "ret" -> IF st.e = <<>> THEN X(s, fr, "ret", <<>>)
                       ELSE LET r == Eval(P, st.e[1], fr, s) IN X(D(r.s), fr, IF OK(r.s) THEN "ret" ELSE "next", r.v)

\* position of label l in block b, or 0
Find(b, l, i) == IF i > Len(b) THEN 0 ELSE IF b[i].k = "label" /\ b[i].l = l THEN i ELSE Find(b, l, i + 1)

Stmts(P, b, i, fr, s) ==
  IF i > Len(b) THEN X(s, fr, "next", <<>>)
  ELSE LET r == Exec(P, b[i], fr, s) IN
       IF ~OK(r.s) THEN r
       ELSE IF r.ctl = "next" THEN Stmts(P, b, i + 1, r.fr, r.s)
       ELSE IF r.ctl = "goto" /\ Find(b, r.v, 1) > 0 THEN Stmts(P, b, Find(b, r.v, 1), r.fr, r.s)
       ELSE r

\* dispose of autos i..1 (in reverse order of appearance)
Dispose(P, autos, i, s) ==
  IF i = 0 \/ ~OK(s) THEN s
  ELSE LET m == Impl(P, "__dispose__", autos[i][1]) IN
       Dispose(P, autos, i - 1, Call(P, m.fn, EmptyEnv, m.te, <<autos[i][2]>>, s).s)

\* a block: whatever way it is left, its autos are disposed of
Block(P, b, i, fr, s) ==
  LET r == Stmts(P, b, i, [fr EXCEPT !.autos = <<>>], s) IN
  IF ~OK(r.s) \/ r.fr.autos = <<>> THEN r
  ELSE [r EXCEPT !.s = Dispose(P, r.fr.autos, Len(r.fr.autos), r.s)]

EachIt(P, st, ip, vp, fr, s) ==
  LET y == Subst(st.y, fr.te)
      m0 == Impl(P, "__iternext__", y)
      r == Call(P, m0.fn, EmptyEnv, m0.te, <<ip, vp>>, s) IN
  IF ~OK(r.s) \/ ~r.v THEN X(r.s, fr, "next", <<>>)
  ELSE LET m == MatchP(r.s, st.p, Load(r.s, vp))
           c == BindAll(r.s, fr.env, m.b, 1)
           x == IF m.m THEN Block(P, st.b, 1, [fr EXCEPT !.env = c[2]], c[1]) ELSE X(r.s, fr, "next", <<>>)
       IN IF ~OK(x.s) \/ x.ctl = "brk" THEN X(x.s, fr, "next", <<>>)
          ELSE IF x.ctl \in {"ret", "goto"} THEN X(x.s, fr, x.ctl, x.v)
          ELSE LET m1 == Impl(P, "__iterfin__", y)
                   f == Call(P, m1.fn, EmptyEnv, m1.te, <<ip, vp>>, x.s) IN
               IF ~OK(f.s) THEN X(f.s, fr, "next", <<>>)
               ELSE EachIt(P, st, ip, vp, fr, f.s)

\* step: <<>> or a statement run after the body (also after continue)
Loop(P, c, step, b, fr, s) ==
  LET r == Eval(P, c, fr, s) IN
  IF ~OK(r.s) \/ ~r.v THEN X(D(r.s), fr, "next", <<>>)
  ELSE LET x == Block(P, b, 1, fr, D(r.s)) IN
       IF ~OK(x.s) THEN X(x.s, fr, "next", <<>>)
       ELSE IF x.ctl = "brk" THEN X(x.s, fr, "next", <<>>)
       ELSE IF x.ctl \in {"ret", "goto"} THEN X(x.s, fr, x.ctl, x.v)
       ELSE IF step = <<>> THEN Loop(P, c, step, b, fr, x.s)
       ELSE LET y == Exec(P, step[1], fr, x.s) IN
            IF ~OK(y.s) THEN X(y.s, fr, "next", <<>>) ELSE Loop(P, c, step, b, fr, y.s)

Each(P, st, v, i, fr, s) ==
  LET n == IF st.on = "slice" THEN v.hi - v.lo ELSE Len(v) IN
  IF i > n THEN X(s, fr, "next", <<>>)
  ELSE LET el == IF st.on = "slice" THEN GetAt(s.mem[v.o], v.p, 1)[v.lo + i] ELSE v[i]
           m == MatchP(s, st.p, el)
       IN IF ~m.m THEN Each(P, st, v, i + 1, fr, s)
          ELSE LET c == BindAll(s, fr.env, m.b, 1)
                   x == Block(P, st.b, 1, [fr EXCEPT !.env = c[2]], c[1])
               IN IF ~OK(x.s) \/ x.ctl = "brk" THEN X(x.s, fr, "next", <<>>)
                  ELSE IF x.ctl \in {"ret", "goto"} THEN X(x.s, fr, x.ctl, x.v)
                  ELSE Each(P, st, v, i + 1, fr, x.s)

Arms(P, arms, v, i, fr, s) ==
  IF i > Len(arms) THEN X(s, fr, "next", <<>>)
  ELSE LET m == MatchP(s, arms[i].p, v) IN
       IF ~m.m THEN Arms(P, arms, v, i + 1, fr, s)
       ELSE LET c == BindAll(s, fr.env, m.b, 1)
                x == Block(P, arms[i].b, 1, [fr EXCEPT !.env = c[2]], c[1])
            IN X(x.s, fr, x.ctl, x.v)
=============================================================================
