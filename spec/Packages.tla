------------------------------ MODULE Packages ------------------------------
(* Files, packages and what they may call each other's declarations.         *)
(*                                                                           *)
(* A program is a list of files.  A file declares a package (or none) and    *)
(* names with a visibility: exported, package-local or private.  It uses     *)
(* other files one by one, or packages merged into one.  A reference is a    *)
(* name, qualified with a package or not, in one of the files.               *)
(*                                                                           *)
(* Verdict: a program is accepted exactly if every reference means something *)
(* visible.  Initialisation: before main, the __init__ of every file that    *)
(* the program consists of runs exactly once, and after those of all files   *)
(* it uses (lang.txt 3.6).                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Traces == ndJsonDeserialize("packages.ndjson")

VARIABLES t, l, done
vars == <<t, l, done>>

Row == Traces[t]
F(i) == Row.files[i]
NF == Len(Row.files)

\* files that file i sees: used directly, or part of a merged package it uses
Sees(i) == {e \in 1..NF : e # i /\
              (\/ \E k \in 1..Len(F(i).uses) : F(i).uses[k] = F(e).name
               \/ \E k \in 1..Len(F(i).merged) : F(i).merged[k] = F(e).pkg)}

\* the visibility of a name declared in file e as file i sees it
Decl(e, n) == {F(e).decls[k].vis : k \in {j \in 1..Len(F(e).decls) : F(e).decls[j].n = n}}

Means(r) ==
  LET i == r.file IN
  \/ /\ r.q = F(i).pkg                       \* a name of its own package, written without
     /\ \/ Decl(i, r.n) # {}
        \/ \E e \in Sees(i) : F(e).pkg = F(i).pkg /\ F(i).pkg # "" /\ Decl(e, r.n) \cap {"export", "pkglocal"} # {}
  \/ /\ r.q # F(i).pkg                       \* a name of another package
     /\ \E e \in Sees(i) : F(e).pkg = r.q /\ "export" \in Decl(e, r.n)

Valid == \A k \in 1..Len(Row.refs) : Means(Row.refs[k])

\* a package-local name of another package, used file by file: how far
\* package-local reaches is only told for packages merged into one
Unsure(r) == /\ r.q # F(r.file).pkg
             /\ \E k \in 1..Len(F(r.file).uses) : \E e \in 1..NF :
                  F(e).name = F(r.file).uses[k] /\ F(e).pkg = r.q /\ "pkglocal" \in Decl(e, r.n)
Decided == \A k \in 1..Len(Row.refs) : ~Unsure(Row.refs[k])

\* what a reference from the last file (which has main) reports: 77 for a union tag
ValueOf(r) ==
  LET i == r.file
      S == {e \in Sees(i) \cup {i} : F(e).pkg = r.q /\ (e = i \/ Decl(e, r.n) \cap {"export", "pkglocal"} # {})}
      \* its own file's declaration comes first
      e == IF i \in S /\ Decl(i, r.n) # {} THEN i ELSE CHOOSE x \in S : Decl(x, r.n) # {}
      k == CHOOSE j \in 1..Len(F(e).decls) : F(e).decls[j].n = r.n
  IN IF F(e).decls[k].kind = "tag" THEN 77 ELSE F(e).decls[k].v

MainRefs == SelectSeq(Row.refs, LAMBDA r : r.file = NF)
Expected == [k \in 1..Len(MainRefs) |-> ValueOf(MainRefs[k])]

\* the files file i depends on
RECURSIVE Reach(_)
Reach(S) == LET n == S \cup UNION {Sees(i) : i \in S} IN IF n = S THEN S ELSE Reach(n)
Below(i) == Reach(Sees(i))

HasInit(i) == F(i).init # 0
Of(v) == CHOOSE i \in 1..NF : F(i).init = v

Init == t \in 1..Len(Traces) /\ l = 1 /\ done = {}
\* one initialiser runs
Next == /\ l <= Len(Row.inits)
        /\ \E i \in 1..NF :
              /\ F(i).init = Row.inits[l]
              /\ i \notin done
              /\ \A e \in Below(i) : (HasInit(e) => e \in done)
              /\ done' = done \cup {i}
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

\* what the program consists of
Parts == Below(NF) \cup {NF}

Accepted == /\ (l = 1 => IF Decided THEN Row.got = IF Valid THEN "accept" ELSE "reject"
                                    ELSE Row.got \in {"accept", "reject"})
            /\ (l <= Len(Row.inits) => ENABLED Next)
            /\ (l = 1 /\ Valid /\ Row.got = "accept" => Row.out = Expected)
            /\ (l > Len(Row.inits) /\ Row.ran => \A i \in Parts : HasInit(i) => i \in done)
=============================================================================
