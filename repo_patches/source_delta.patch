From e216422b913ddefc958b6a2a2b076f1a68df7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 01/66] fix: htput: look past tombstones for the key before
 reusing one

Inserting a key whose entry lies beyond a deleted one in the probe
sequence stored the key a second time, so that a later delete brought
the old value back and the count and the iterators saw it twice.
---
 lib/std/htab.myr | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/std/htab.myr b/lib/std/htab.myr
index 9c00da5..936e089 100644
--- a/lib/std/htab.myr
+++ b/lib/std/htab.myr
@@ -132,13 +132,25 @@ generic htput = {ht, k, v
 	var i, di
 	var h
 	var found
+	var reuse, slot
 
 	di = 0
 	h = xhash(k)
 	i = h & (ht.keys.len - 1)
 	found = false
-	while ht.hashes[i] != 0 && !ht.dead[i]
-		if ht.hashes[i] == h &&	eq(ht.keys[i], k)
+	reuse = false
+	slot = 0
+	/*
+	 the key may sit beyond a tombstone, so we can only reuse the
+	 tombstone once we know that the key isn't in the chain.
+	*/
+	while ht.hashes[i] != 0
+		if ht.dead[i]
+			if !reuse
+				reuse = true
+				slot = i
+			;;
+		elif ht.hashes[i] == h && eq(ht.keys[i], k)
 			found = true
 			break
 		;;
@@ -146,6 +158,9 @@ generic htput = {ht, k, v
 		i = (h + di) & (ht.keys.len - 1)
 	;;
 	if !found
+		if reuse
+			i = slot
+		;;
 		ht.keys[i] = k
 		ht.nelt++
 	;;
-- 
2.43.0


From 1017ea651fb6de4b4c12d3257cef6426d1cb3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 02/66] fix: isel: do 8 bit division in 32 bits, %ah can't be
 combined with REX registers

---
 6/isel.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 0000424..84d9508 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -892,6 +892,8 @@ selexpr(Isel *s, Node *n)
 	Loc *edx, *cl; /* x86 wants some hard-coded regs */
 	Node **args;
 	size_t al;
+	AsmOp ext;
+	Mode m;
 	Op op;
 
 	args = n->expr.args;
@@ -928,12 +930,24 @@ selexpr(Isel *s, Node *n)
 		a = selexpr(s, args[0]);
 		b = selexpr(s, args[1]);
 		b = newr(s, b);
-		c = coreg(Reax, mode(n));
 		r = locreg(a->mode);
-		g(s, Imov, a, c, NULL);
+		m = mode(n);
+		if (m == ModeB) {
+			/* 8 bit division goes through %ah, which can't be used in the
+			 * same instruction as most registers, so divide as 32 bits. */
+			ext = istysigned(exprtype(args[0])) ? Imovsx : Imovzx;
+			m = ModeL;
+			c = coreg(Reax, m);
+			d = locreg(m);
+			g(s, ext, inr(s, a), c, NULL);
+			g(s, ext, b, d, NULL);
+			b = d;
+		} else {
+			c = coreg(Reax, m);
+			g(s, Imov, a, c, NULL);
+		}
 		if (istysigned(exprtype(args[0]))) {
-			switch (r->mode) {
-			case ModeB:	g(s, Imovsx, c, coreg(Rrax, ModeW), NULL);	break;
+			switch (m) {
 			case ModeW:	g(s, Icwd, NULL);	break;
 			case ModeL:	g(s, Icdq, NULL);	break;
 			case ModeQ:	g(s, Icqo, NULL);	break;
@@ -941,18 +955,13 @@ selexpr(Isel *s, Node *n)
 			}
 			g(s, Iidiv, b, NULL);
 		} else {
-			if (r->mode == ModeB)
-				g(s, Ixor, locphysreg(Rah), locphysreg(Rah), NULL);
-			else
-				g(s, Ixor, edx, edx, NULL);
+			g(s, Ixor, edx, edx, NULL);
 			g(s, Idiv, b, NULL);
 		}
 		if (exprop(n) == Odiv)
 			d = coreg(Reax, mode(n));
-		else if (r->mode != ModeB)
-			d = coreg(Redx, mode(n));
 		else
-			d = locphysreg(Rah);
+			d = coreg(Redx, mode(n));
 		g(s, Imov, d, r, NULL);
 		break;
 	case Oneg:
-- 
2.43.0


From 3eb9a269e84e66c0f99966acd79d3f046d07f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 03/66] fix: isel: shift right according to the operand's type,
 not the type it is cast to

---
 6/isel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/isel.c b/6/isel.c
index 84d9508..96f65e0 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1004,7 +1004,7 @@ selexpr(Isel *s, Node *n)
 			d = cl;
 		}
 		if (exprop(n) == Obsr) {
-			if (istysigned(n->expr.type))
+			if (istysigned(exprtype(args[0])))
 				g(s, Isar, d, a, NULL);
 			else
 				g(s, Ishr, d, a, NULL);
-- 
2.43.0


From d27d7bb2d96178d1f81075c70af38fadaef30a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 04/66] fix: ra: insert spill code for a use or def through a
 coalesced register

---
 6/ra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/ra.c b/6/ra.c
index 3ec5cb1..630c76e 100644
--- a/6/ra.c
+++ b/6/ra.c
@@ -1182,7 +1182,7 @@ remap(Isel *s, Htab *map, Insn *insn, regid *use, size_t nuse, regid *def, size_
 
 	remapped = 0;
 	for (i = 0; i < nuse; i++) {
-		ruse = getalias(s, use[i]);
+		ruse = use[i] = getalias(s, use[i]);
 		if (!bshas(s->spilled, ruse))
 			continue;
 		tmp = locreg(locmap[ruse]->mode);
@@ -1192,7 +1192,7 @@ remap(Isel *s, Htab *map, Insn *insn, regid *use, size_t nuse, regid *def, size_
 	}
 
 	for (i = 0; i < ndef; i++) {
-		rdef = getalias(s, def[i]);
+		rdef = def[i] = getalias(s, def[i]);
 		if (!bshas(s->spilled, rdef))
 			continue;
 		if (hthas(map, locmap[rdef]))
-- 
2.43.0


From 0237dcacd2869e725d9c2f31576a52f50217f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 05/66] fix: gengas: keep 32 to 64 bit zero extension of a
 register to itself

---
 6/gengas.c | 3 +--
 6/genp9.c  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/6/gengas.c b/6/gengas.c
index b224300..f101a6a 100644
--- a/6/gengas.c
+++ b/6/gengas.c
@@ -126,8 +126,7 @@ iprintf(FILE *fd, Insn *insn)
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
 			}
 		}
-		if(dumbmov(insn->args[0], insn->args[1]))
-			return;
+		/* even between the same reg, this clears the high bits */
 		break;
 	case Imovs:
 		if(dumbmov(insn->args[0], insn->args[1]))
diff --git a/6/genp9.c b/6/genp9.c
index 4fd9257..54d257d 100644
--- a/6/genp9.c
+++ b/6/genp9.c
@@ -124,8 +124,7 @@ iprintf(FILE *fd, Insn *insn)
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
 			}
 		}
-		if(dumbmov(insn->args[0], insn->args[1]))
-			return;
+		/* even between the same reg, this clears the high bits */
 		break;
 	case Imovs:
 		if(dumbmov(insn->args[0], insn->args[1]))
-- 
2.43.0


From ae4a0547baca543612767e3413313a713fdb27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 06/66] fix: fold: compute constants in their type, keep
 operands with side effects

---
 parse/fold.c | 128 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 104 insertions(+), 24 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 4094c49..97c61c2 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -43,12 +43,72 @@ isintval(Node *n, vlong val)
 	return v == val;
 }
 
+/* the value that 'v' has once it's stored in something of type 't' */
+static vlong
+wrapint(vlong v, Type *t)
+{
+	if (!t)
+		return v;
+	switch (tybase(t)->type) {
+	case Tyint8:	return (int8_t)v;	break;
+	case Tyint16:	return (int16_t)v;	break;
+	case Tyint32: case Tyint:
+		return (int32_t)v;
+		break;
+	case Tybyte: case Tyuint8:
+		return (uint8_t)v;
+		break;
+	case Tyuint16:	return (uint16_t)v;	break;
+	case Tyuint32: case Tyuint: case Tychar:
+		return (uint32_t)v;
+		break;
+	default:
+		return v;
+		break;
+	}
+}
+
+static int
+intval(Node *n, vlong *v)
+{
+	if (!getintlit(n, v))
+		return 0;
+	*v = wrapint(*v, exprtype(n));
+	return 1;
+}
+
+/* can 'n' be dropped without losing side effects? */
+static int
+droppable(Node *n)
+{
+	size_t i;
+
+	if (n->type != Nexpr)
+		return 1;
+	switch (exprop(n)) {
+	case Ovar: case Olit:
+		return 1;
+		break;
+	case Oadd: case Osub: case Omul: case Oneg:
+	case Obor: case Oband: case Obxor: case Obnot:
+	case Obsl: case Obsr: case Ocast:
+		for (i = 0; i < n->expr.nargs; i++)
+			if (!droppable(n->expr.args[i]))
+				return 0;
+		return 1;
+		break;
+	default:
+		return 0;
+		break;
+	}
+}
+
 static Node *
 val(Srcloc loc, vlong val, Type *t)
 {
 	Node *l, *n;
 
-	l = mkint(loc, val);
+	l = mkint(loc, wrapint(val, t));
 	n = mkexpr(loc, Olit, l, NULL);
 	l->lit.type = t;
 	n->expr.type = t;
@@ -70,11 +130,32 @@ issmallconst(Node *dcl)
 	return 0;
 }
 
+static vlong
+divint(vlong a, vlong b, Type *t)
+{
+	if (t && istyunsigned(t))
+		return (uvlong)a / (uvlong)b;
+	else if (b == -1)
+		return -(uvlong)a;
+	else
+		return a / b;
+}
+
+static vlong
+shrint(vlong a, vlong b, Type *t)
+{
+	if (t && istyunsigned(t))
+		return (uvlong)a >> b;
+	else
+		return a >> b;
+}
+
 static Node *
 foldcast(Node *n)
 {
 	Type *to, *from;
 	Node *sub;
+	vlong v;
 
 	sub = n->expr.args[0];
 	to = exprtype(n);
@@ -92,6 +173,8 @@ foldcast(Node *n)
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
 		case Typtr:
+			if (intval(sub, &v))
+				return val(n->loc, v, to);
 			if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
 				sub->expr.type = to;
 				return sub;
@@ -170,14 +253,14 @@ fold(Node *n, int foldvar)
 			r = args[1];
 		if (isintval(args[1], 0))
 			r = args[0];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a + b, exprtype(n));
+		if (intval(args[0], &a) && intval(args[1], &b))
+			r = val(n->loc, (uvlong)a + b, exprtype(n));
 		break;
 	case Osub:
 		/* x - 0 = 0 */
 		if (isintval(args[1], 0))
 			r = args[0];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (intval(args[0], &a) && intval(args[1], &b))
 			r = val(n->loc, (uint64_t)a - b, exprtype(n));
 		break;
 	case Omul:
@@ -187,12 +270,12 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 1))
 			r = args[0];
 		/* 0 * x = 0 */
-		if (isintval(args[0], 0))
+		if (isintval(args[0], 0) && droppable(args[1]))
 			r = args[0];
-		if (isintval(args[1], 0))
+		if (isintval(args[1], 0) && droppable(args[0]))
 			r = args[1];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a * b, exprtype(n));
+		if (intval(args[0], &a) && intval(args[1], &b))
+			r = val(n->loc, (uvlong)a * b, exprtype(n));
 		break;
 	case Odiv:
 		/* x/0 = error */
@@ -201,44 +284,41 @@ fold(Node *n, int foldvar)
 		/* x/1 = x */
 		if (isintval(args[1], 1))
 			r = args[0];
-		/* 0/x = 0 */
-		if (isintval(args[1], 0))
-			r = args[1];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a / b, exprtype(n));
+		if (intval(args[0], &a) && intval(args[1], &b))
+			r = val(n->loc, divint(a, b, exprtype(n)), exprtype(n));
 		break;
 	case Omod:
 		/* x%0 = error */
 		if (isintval(args[1], 0))
 			fatal(args[1], "division by zero");
 		/* x%1 = 0 */
-		if (isintval(args[1], 1))
+		if (isintval(args[1], 1) && droppable(args[0]))
 			r = val(n->loc, 0, exprtype(n));
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a % b, exprtype(n));
+		if (intval(args[0], &a) && intval(args[1], &b))
+			r = val(n->loc, a - (uvlong)b*divint(a, b, exprtype(n)), exprtype(n));
 		break;
 	case Oneg:
-		if (getintlit(args[0], &a))
-			r = val(n->loc, -a, exprtype(n));
+		if (intval(args[0], &a))
+			r = val(n->loc, -(uvlong)a, exprtype(n));
 		break;
 	case Obsl:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (intval(args[0], &a) && intval(args[1], &b))
 			r = val(n->loc, (uint64_t)a << b, exprtype(n));
 		break;
 	case Obsr:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a >> b, exprtype(n));
+		if (intval(args[0], &a) && intval(args[1], &b))
+			r = val(n->loc, shrint(a, b, exprtype(n)), exprtype(n));
 		break;
 	case Obor:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (intval(args[0], &a) && intval(args[1], &b))
 			r = val(n->loc, a | b, exprtype(n));
 		break;
 	case Oband:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (intval(args[0], &a) && intval(args[1], &b))
 			r = val(n->loc, a & b, exprtype(n));
 		break;
 	case Obxor:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
+		if (intval(args[0], &a) && intval(args[1], &b))
 			r = val(n->loc, a ^ b, exprtype(n));
 		break;
 	case Omemb:
-- 
2.43.0


From aa4cc27ad00562a52d0adaf7d8a490640bc9069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 07/66] fix: fold: don't share a constant's literal with its
 uses, or retype it in a cast

---
 parse/fold.c  | 6 +++++-
 parse/infer.c | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 97c61c2..de53b8e 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -244,8 +244,12 @@ fold(Node *n, int foldvar)
 		r = args[0]->expr.args[1];
 		break;
 	case Ovar:
-		if (foldvar && issmallconst(decls[n->expr.did]))
+		if (foldvar && issmallconst(decls[n->expr.did])) {
 			r = fold(decls[n->expr.did]->decl.init, foldvar);
+			/* the use may get retyped, so it can't share the literal */
+			if (getintlit(r, &a))
+				r = val(n->loc, a, exprtype(r));
+		}
 		break;
 	case Oadd:
 		/* x + 0 = 0 */
diff --git a/parse/infer.c b/parse/infer.c
index 68a0fd4..6b62f6a 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2740,7 +2740,7 @@ typesub(Node *n, int noerr)
 		typesub(n->expr.idx, noerr);
 		if (exprop(n) == Ocast && exprop(n->expr.args[0]) == Olit) {
 			l = n->expr.args[0]->expr.args[0];
-			if(l->lit.littype == Lint && istyint(exprtype(n))) {
+			if(l->lit.littype == Lint && istyint(exprtype(n)) && type(l)->type == Tyvar) {
 				settype(n->expr.args[0], exprtype(n));
 				settype(n->expr.args[0]->expr.args[0], exprtype(n));
 			}
-- 
2.43.0


From d0d27bf51c7f4415543f70cad4d440bf0a673c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 08/66] fix: memory class dominates when classifying arguments

---
 6/typeinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/6/typeinfo.c b/6/typeinfo.c
index b570e00..59d34ed 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -428,6 +428,8 @@ static void join_classification(PassIn *current, PassIn new)
 {
 	if (*current == PassInNoPref) {
 		*current = new;
+	} else if ((*current == PassInMemory) || (new == PassInMemory)) {
+		*current = PassInMemory;
 	} else if ((*current == PassInInt) || (new == PassInInt)) {
 		*current = PassInInt;
 	} else if (*current != new) {
-- 
2.43.0


From cb390d3b7816aafa8d811c76a36f72250819488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 09/66] fix: infer the types of nested struct patterns

---
 parse/infer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 6b62f6a..4258a90 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2384,13 +2384,20 @@ checkstruct(Node *n, Postcheck ***post, size_t *npost)
 	t = tybase(tf(n->lit.type));
 	/*
 	 * If we haven't inferred the type, and it's inside another struct,
-	 * we'll eventually get to it.
+	 * we'll eventually get to it: in a pattern, the inner literals come
+	 * first, so check it again after the others.
 	 *
 	 * If, on the other hand, it is genuinely underspecified, we'll give
 	 * a better error on it later.
 	 */
-	if (t->type == Tyvar)
+	if (t->type == Tyvar) {
+		pc = xalloc(sizeof(Postcheck));
+		pc->node = n;
+		pc->stab = curstab();
+		pc->env = curenv();
+		lappend(post, npost, pc);
 		return;
+	}
 	if (t->type != Tystruct)
 		fatal(n, "struct literal is used as non struct type %s", tystr(n->lit.type));
 	for (i = 0; i < n->expr.nargs; i++) {
-- 
2.43.0


From bb63a58484e08e1c1adc27895ffd1290e028ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 10/66] fix: or-patterns apply the rest of the pattern to every
 alternative

Elements to the right of an or-pattern were only added to its first
alternative, captures were lost when an alternative was reached by the
default edge, and the alternatives shared nodes that later passes rewrite.
Named constants use the path of the value they stand for.
---
 mi/match.c | 120 +++++++++++++++++++++++++++++++++++++++--------------
 mi/mi.h    |   1 +
 2 files changed, 91 insertions(+), 30 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index fd443d1..7ccfe06 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -155,6 +155,33 @@ structmemb(Node *n, Node *name, Type *ty)
 	return elt;
 }
 
+/*
+ * The same load can be evaluated on several paths through the match, and the
+ * passes that follow rewrite nodes in place: each use needs its own nodes.
+ */
+static Node *
+copyload(Node *n)
+{
+	Node *c;
+
+	switch (exprop(n)) {
+	case Outag:
+	case Oudata:
+	case Oderef:
+		c = mkexpr(n->loc, exprop(n), copyload(n->expr.args[0]), NULL);
+		break;
+	case Omemb:
+	case Otupget:
+	case Oidx:
+		c = mkexpr(n->loc, exprop(n), copyload(n->expr.args[0]), n->expr.args[1], NULL);
+		break;
+	default:
+		return n;
+	}
+	c->expr.type = n->expr.type;
+	return c;
+}
+
 static Node *
 addcapture(Node *n, Node **cap, size_t ncap)
 {
@@ -435,16 +462,38 @@ static Frontier *
 frontierdup(Frontier *fs)
 {
 	Frontier *out;
+	Node *asn;
+	size_t i;
 
 	out = mkfrontier(fs->i, fs->lbl);
 	out->slot = memdup(fs->slot, fs->nslot*sizeof(fs->slot[0]));
 	out->nslot = fs->nslot;
-	out->cap = memdup(fs->cap, fs->ncap*sizeof(fs->cap[0]));
-	out->ncap = fs->ncap;
+	for (i = 0; i < fs->ncap; i++) {
+		asn = mkexpr(fs->cap[i]->loc, Oasn, fs->cap[i]->expr.args[0], copyload(fs->cap[i]->expr.args[1]), NULL);
+		asn->expr.type = fs->cap[i]->expr.type;
+		lappend(&out->cap, &out->ncap, asn);
+	}
 	return out;
 }
 
 
+static void addrec(Frontier *fs, Node *pat, Node *val, Path *path);
+
+/*
+ * adds a pattern to the frontier fs, and to the alternatives that or-patterns
+ * to its left have created: they are linked between fs and end.
+ */
+static void
+addall(Frontier *fs, Frontier *end, Node *pat, Node *val, Path *path)
+{
+	Frontier *next;
+
+	for (; fs != end; fs = next) {
+		next = fs->next;
+		addrec(fs, pat, val, path);
+	}
+}
+
 /* addrec generates a list of slots for a Frontier by walking a pattern tree.
  * It collects only the terminal patterns like union tags and literals.
  * Non-terminal patterns like tuple/struct/array help encode the path only.
@@ -457,9 +506,10 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 	Node *memb, *name, *tagid, *p, *v, *lit, *dcl, *asn, *deref;
 	Ucon *uc;
 	char *s;
-	Frontier *next;
+	Frontier *next, *end;
 
 	pat = fold(pat, 1);
+	end = fs->next;
 	switch (exprop(pat)) {
 	case Olor:
 		next = frontierdup(fs);
@@ -481,9 +531,9 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				fatal(dcl, "bad pattern %s:%s: unmatchable type", declname(dcl), tystr(ty));
 			if (!dcl->decl.init)
 				fatal(dcl, "bad pattern %s:%s: missing initializer", declname(dcl), tystr(ty));
-			addrec(fs, dcl->decl.init, val, mkpath(path, 0));
+			addrec(fs, dcl->decl.init, val, path);
 		} else {
-			asn = mkexpr(pat->loc, Oasn, pat, val, NULL);
+			asn = mkexpr(pat->loc, Oasn, pat, copyload(val), NULL);
 			asn->expr.type = exprtype(pat);
 			lappend(&fs->cap, &fs->ncap, asn);
 
@@ -525,16 +575,16 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 		tagid->expr.type = mktype(pat->loc, Tyint32);
 		addrec(fs, tagid, utag(val), mkpath(path, 0));
 		if (uc->etype)
-			addrec(fs, pat->expr.args[1], uvalue(val, uc->etype), mkpath(path, 1));
+			addall(fs, end, pat->expr.args[1], uvalue(val, uc->etype), mkpath(path, 1));
 		break;
 	case Otup:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
+			addall(fs, end, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Oarr:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
+			addall(fs, end, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Ostruct:
@@ -547,7 +597,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				memb = mkexpr(ty->sdecls[i]->loc, Ogap, NULL);
 				memb->expr.type = mty;
 			}
-			addrec(fs, memb, structmemb(val, name, mty), mkpath(path, i));
+			addall(fs, end, memb, structmemb(val, name, mty), mkpath(path, i));
 		}
 		break;
 	default:
@@ -921,6 +971,20 @@ capcompatible(Node *a, Node *b)
 	return pa->expr.did == pb->expr.did && tyeq(exprtype(va), exprtype(vb));
 }
 
+/* the captures are assigned once, between the test and the match arm */
+static void
+setcapture(Frontier *fs)
+{
+	Dtree *final;
+
+	final = fs->final;
+	final->cap = fs->cap;
+	final->ncap = fs->ncap;
+	final->arm = final->lbl;
+	if (final->ncap > 0)
+		final->lbl = genlbl(final->loc);
+}
+
 Dtree *
 gendtree(Node *m, Node *val, Node **lbl, size_t nlbl)
 {
@@ -972,8 +1036,7 @@ gendtree(Node *m, Node *val, Node **lbl, size_t nlbl)
 		 * assignments to the ir generation of dtree
 		 */
 		if (cur->hasorpat) {
-			cur->final->cap = cur->cap;
-			cur->final->ncap = cur->ncap;
+			setcapture(cur);
 		} else {
 			addcapture(pat[cur->i]->match.block, cur->cap, cur->ncap);
 		}
@@ -1017,7 +1080,6 @@ void
 genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 {
 	Node *jmp, *eq, *fail;
-	Node *next;
 	int emit;
 	size_t i;
 
@@ -1027,7 +1089,13 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 
 	/* the we jump to the accept label when generating the parent */
 	if (dt->accept) {
-		jmp = mkexpr(dt->loc, Ojmp, dt->lbl, NULL);
+		if (dt->ncap > 0) {
+			lappend(out, nout, dt->lbl);
+			lcat(out, nout, dt->cap, dt->ncap);
+			jmp = mkexpr(dt->loc, Ojmp, dt->arm, NULL);
+		} else {
+			jmp = mkexpr(dt->loc, Ojmp, dt->lbl, NULL);
+		}
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
 		return;
@@ -1042,26 +1110,13 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 			fail = genlbl(dt->loc);
 			emit = 1;
 		}
-		if (dt->next[i]->accept && dt->next[i]->ncap > 0) {
-			next = genlbl(dt->next[i]->loc);
-		} else {
-			next = dt->next[i]->lbl;
-		}
 
-		eq = mkexpr(dt->loc, Oeq, dt->load, dt->pat[i], NULL);
+		eq = mkexpr(dt->loc, Oeq, copyload(dt->load), dt->pat[i], NULL);
 		eq->expr.type = mktype(dt->loc, Tybool);
-		jmp = mkexpr(dt->loc, Ocjmp, eq, next, fail, NULL);
+		jmp = mkexpr(dt->loc, Ocjmp, eq, dt->next[i]->lbl, fail, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
 
-		if (dt->next[i]->accept && dt->next[i]->ncap > 0) {
-			lappend(out, nout, next);
-			lcat(out, nout, dt->next[i]->cap, dt->next[i]->ncap);
-			jmp = mkexpr(dt->loc, Ojmp, dt->next[i]->lbl, NULL);
-			jmp->expr.type = mktype(dt->loc, Tyvoid);
-			lappend(out, nout, jmp);
-		}
-
 		genmatchcode(dt->next[i], out, nout);
 		if (emit)
 			lappend(out, nout, fail);
@@ -1078,14 +1133,19 @@ void
 genonematch(Node *pat, Node *val, Node *iftrue, Node *iffalse, Node ***out, size_t *nout, Node ***cap, size_t *ncap)
 {
 	Frontier **frontier;
-	size_t nfrontier;
+	size_t i, nfrontier;
 	Dtree *root;
 
 	ndtree = 0;
 	frontier = NULL;
 	nfrontier = 0;
 	genfrontier(0, val, pat, iftrue, &frontier, &nfrontier);
-	lcat(cap, ncap, frontier[0]->cap, frontier[0]->ncap);
+	if (frontier[0]->hasorpat) {
+		for (i = 0; i < nfrontier; i++)
+			setcapture(frontier[i]);
+	} else {
+		lcat(cap, ncap, frontier[0]->cap, frontier[0]->ncap);
+	}
 	genfrontier(1, val, mkexpr(iffalse->loc, Ogap, NULL), iffalse, &frontier, &nfrontier);
 	root = compile(frontier, nfrontier);
 	genmatchcode(root, out, nout);
diff --git a/mi/mi.h b/mi/mi.h
index 15664f5..468f8e9 100644
--- a/mi/mi.h
+++ b/mi/mi.h
@@ -60,6 +60,7 @@ struct Dtree {
 	 * before jumping into the block of a match arm .*/
 	Node **cap;
 	size_t ncap;
+	Node *arm;
 
 	size_t refcnt;
 };
-- 
2.43.0


From 05ea81166bc1390318bfd8ba231a6e97b8bbbf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 11/66] fix: reject matches whose default case is not
 exhaustive

---
 mi/match.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 7ccfe06..56644e6 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -280,8 +280,8 @@ dtreusable(Dtree *dt, Node *load, Node **pat, size_t npat, Dtree **next, size_t
 			return 0;
 	}
 
-	if (dt->any == NULL && any == NULL)
-		return 1;
+	if (dt->any == NULL || any == NULL)
+		return dt->any == any;
 
 	if (dt->any->id != any->id)
 		return 0;
@@ -886,9 +886,9 @@ verifymatch(Dtree *t)
 	if (t->accept)
 		return 1;
 
-	ret = 0;
-	if (t->nnext == t->nconstructors || t->any)
-		ret = 1;
+	ret = 1;
+	if (t->nnext != t->nconstructors)
+		ret = t->any && verifymatch(t->any);
 	for (i = 0; i < t->nnext; i++)
 		if (!verifymatch(t->next[i]))
 			ret = 0;
-- 
2.43.0


From fff33707ac1042589c30b5ce58c529c771d69fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 12/66] fix: deferred increments in a loop condition also
 happen when the loop ends

---
 mi/flatten.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 193e64b..946233f 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -741,12 +741,11 @@ flattenloop(Flattenctx *s, Node *n)
 	Loop l;
 	Node *lbody;
 	Node *lend;
-	Node *ldec;
 	Node *lcond;
 	Node *lstep;
+	Node *cond, *t;
 
 	lbody = genlbl(n->loc);
-	ldec = genlbl(n->loc);
 	lcond = genlbl(n->loc);
 	lstep = genlbl(n->loc);
 	lend = genlbl(n->loc);
@@ -767,12 +766,15 @@ flattenloop(Flattenctx *s, Node *n)
 	flatten(s, lstep);             /* test lbl */
 	flatten(s, n->loopstmt.step);  /* step */
 	flatten(s, lcond);             /* test lbl */
-	flattencond(s, n->loopstmt.cond, ldec, lend);    /* repeat? */
-	flatten(s, ldec);        	/* drain decrements */
-	draininc(s);
-	jmp(s, lbody);              	/* goto test */
+	cond = rval(s, n->loopstmt.cond);
+	if (s->incqueue) {
+		t = temp(s, cond);
+		flatten(s, asn(t, cond));
+		draininc(s);
+		cond = t;
+	}
+	flattencond(s, cond, lbody, lend);    /* repeat? */
 	flatten(s, lend);             	/* exit */
-	draininc(s);
 
 	s->inloop--;
 	s->loop = l;
-- 
2.43.0


From 4a27429bb5afff3bf839c277a79305d26ab5b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 13/66] fix: continue in a loop over an iterator runs the
 clean-up of the value

---
 mi/flatten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 946233f..b0fad2b 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -971,7 +971,7 @@ flattentraititer(Flattenctx *s, Node *n)
 
 	s->inloop++;
 	l = s->loop;
-	s->loop.lcnt = lstep;
+	s->loop.lcnt = lclean;
 	s->loop.lbrk = lend;
 	s->loop.body = n->iterstmt.body->block.scope;
 
-- 
2.43.0


From 8527304a1827d268efee53c29e4945d11df93fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 14/66] fix: isel: evaluate divisions and shifts in arguments
 before placing arguments

Arguments are evaluated and moved into their registers one by one, so a
division in a later argument overwrote the third argument (rdx), and a
shift the fourth (rcx).
---
 6/isel.c | 54 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 96f65e0..403b8ce 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -525,12 +525,34 @@ clear(Isel *s, Loc *val, size_t sz, size_t align)
 	}
 }
 
+/* Multiplication, division and shifts use rax, rdx and rcx, the last two
+ * of which also hold arguments. */
+static int
+usesargregs(Node *n)
+{
+	size_t i;
+
+	if (n->type != Nexpr)
+		return 0;
+	switch (exprop(n)) {
+	case Omul: case Odiv: case Omod:
+	case Obsl: case Obsr: case Obor:
+		return 1;
+	case Olit: case Ovar:
+		return 0;
+	default:
+		for (i = 0; i < n->expr.nargs; i++)
+			if (usesargregs(n->expr.args[i]))
+				return 1;
+		return 0;
+	}
+}
+
 static void
-call(Isel *s, Node *n)
+call(Isel *s, Node *n, Loc *f, Loc *e)
 {
 	AsmOp op;
 	Node *fn;
-	Loc *f, *e;
 
 	if (exprop(n) == Ocall) {
 		op = Icall;
@@ -539,8 +561,10 @@ call(Isel *s, Node *n)
 		f = locmeml(htget(s->globls, fn), NULL, NULL, mode(fn));
 	} else {
 		op = Icallind;
-		f = selexpr(s, n->expr.args[0]);
-		e = selexpr(s, n->expr.args[1]);
+		if (!f)
+			f = selexpr(s, n->expr.args[0]);
+		if (!e)
+			e = selexpr(s, n->expr.args[1]);
 		g(s, Imov, e, locphysreg(Rrax), NULL);
 	}
 	g(s, op, f, NULL);
@@ -640,7 +664,7 @@ plus8(Isel *s, Loc *base)
 static void
 gencall(Isel *s, Node *n)
 {
-	Loc *arg;	/* values we reduced */
+	Loc *arg, **early, *fnloc, *env;	/* values we reduced */
 	size_t argsz, argoff, nargs, falseargs, vasplit;
 	size_t nfloats, nints;
 	Loc *retloc1, *retloc2, *rsp;	/* hard-coded registers */
@@ -736,13 +760,28 @@ gencall(Isel *s, Node *n)
 	if (argsz)
 		g(s, Isub, stkbump, rsp, NULL);
 
+	/* Anything that would clobber the arguments already in registers
+	 * has to be evaluated before the first one is placed. */
+	fnloc = NULL;
+	env = NULL;
+	if (exprop(n) == Ocallind) {
+		if (usesargregs(n->expr.args[0]))
+			fnloc = inr(s, selexpr(s, n->expr.args[0]));
+		if (usesargregs(n->expr.args[1]))
+			env = inr(s, selexpr(s, n->expr.args[1]));
+	}
+	early = zalloc(nargs * sizeof(Loc *));
+	for (i = 0; i < nargs; i++)
+		if (usesargregs(args[i]))
+			early[i] = selexpr(s, args[i]);
+
 	/* Now, we can evaluate the arguments */
 	argoff = 0;
 	nfloats = 0;
 	nints = 0;
 	vararg = 0;
 	for (i = 0; i < nargs; i++) {
-		arg = selexpr(s, args[i]);
+		arg = early[i] ? early[i] : selexpr(s, args[i]);
 		t = exprtype(args[i]);
 		argoff = alignto(argoff, t);
 		ArgType a = ArgBig;
@@ -792,7 +831,8 @@ gencall(Isel *s, Node *n)
 		}
 
 	}
-	call(s, n);
+	free(early);
+	call(s, n, fnloc, env);
 	if (argsz)
 		g(s, Iadd, stkbump, rsp, NULL);
 
-- 
2.43.0


From 48e3b3b0c84609840084f3ca358bf3a4855e8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 15/66] fix: ra: freeze: ignore moves whose ends have become
 the same register

Active moves whose source and destination were coalesced by way of other
moves made the compiler die with 'Reg not in freeze wl'.
---
 6/ra.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/6/ra.c b/6/ra.c
index 630c76e..2ff7c8f 100644
--- a/6/ra.c
+++ b/6/ra.c
@@ -1011,6 +1011,9 @@ freezemoves(Isel *s, Loc *u)
 			mldel(&s->wlmove, &s->nwlmove, s->wlmoveset, m);
 
 		lappend(&s->mfrozen, &s->nmfrozen, m);
+		/* both ends of the move may have been coalesced through others */
+		if (v == u)
+			continue;
 		if (!moverelated(s, v->reg.id) && istrivial(s, v->reg.id)) {
 			if (!wlfind(s->wlfreeze, s->nwlfreeze, v->reg.id, &idx))
 				die("Reg %zd not in freeze wl\n", v->reg.id);
-- 
2.43.0


From 64eb24964b2f4846ad10fea61ccb253384539db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 16/66] fix: simp: trap every out of range index and slice
 bound

---
 6/simp.c     | 32 ++++++++++++++++++++++----------
 parse/fold.c | 10 ++++++++--
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 6b2a9d6..23ef690 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -323,13 +323,16 @@ seqlen(Simp *s, Node *n, Type *ty)
 	Node *t, *r;
 
         r = NULL;
-	if (exprtype(n)->type == Tyslice) {
+	if (tybase(exprtype(n))->type == Tyslice) {
 		t = slicelen(s, n);
 		r = simpcast(s, t, ty);
-	} else if (exprtype(n)->type == Tyarray) {
-		t = exprtype(n)->asize;
-                if (t)
-                    r = simpcast(s, t, ty);
+	} else if (tybase(exprtype(n))->type == Tyarray) {
+		t = tybase(exprtype(n))->asize;
+		if (t) {
+			/* the size is shared with the type; don't retype it */
+			r = mkintlit(n->loc, t->expr.args[0]->lit.intval);
+			r->expr.type = ty;
+		}
 	}
 	return r;
 }
@@ -415,7 +418,7 @@ ptrsized(Simp *s, Node *v)
 	if (size(v) == Ptrsz)
 		return v;
 	else if (size(v) < Ptrsz)
-		v = mkexpr(v->loc, Ozwiden, v, NULL);
+		v = mkexpr(v->loc, istysigned(exprtype(v)) ? Oswiden : Ozwiden, v, NULL);
 	else if (size(v) > Ptrsz)
 		v = mkexpr(v->loc, Otrunc, v, NULL);
 	v->expr.type = tyintptr;
@@ -489,7 +492,7 @@ idxaddr(Simp *s, Node *seq, Node *idx)
 	assert(exprtype(t)->type == Typtr);
 	u = rval(s, idx, NULL);
 	u = ptrsized(s, u);
-	checkidx(s, Olt, w, u);
+	checkidx(s, Oult, w, u);
 	sz = tysize(ty);
 	v = mul(u, disp(seq->loc, sz));
 	r = add(t, v);
@@ -669,6 +672,12 @@ simpcast(Simp *s, Node *val, Type *to)
 	return r;
 }
 
+static int
+iszero(Node *n)
+{
+	return exprop(n) == Olit && n->expr.args[0]->lit.intval == 0;
+}
+
 /* Simplifies taking a slice of an array, pointer,
  * or other slice down to primitive pointer operations */
 static Node *
@@ -698,9 +707,12 @@ simpslice(Simp *s, Node *n, Node *dst)
 	len = sub(end, start);
 	/* we can be storing through a pointer, in the case
 	 * of '*foo = bar'. */
-	max = seqlen(s, seq, tyword);
-	if (max)
-		checkidx(s, Ole, max, end);
+	max = seqlen(s, seq, tyintptr);
+	if (max) {
+		checkidx(s, Oule, max, end);
+		if (!iszero(n->expr.args[1]))
+			checkidx(s, Oule, end, start);
+	}
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
 		sz = addk(simpcast(s, t, mktyptr(t->loc, tyintptr)), Ptrsz);
diff --git a/parse/fold.c b/parse/fold.c
index de53b8e..01409fd 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -329,8 +329,14 @@ fold(Node *n, int foldvar)
 		t = tybase(exprtype(args[0]));
 		/* we only fold lengths right now */
 		if (t->type == Tyarray && !strcmp(namestr(args[1]), "len")) {
-			r = t->asize;
-			r->expr.type = exprtype(n);
+			t->asize = fold(t->asize, 1);
+			if (getintlit(t->asize, &a)) {
+				/* the size is shared with the type; don't retype it */
+				r = val(n->loc, a, exprtype(n));
+			} else {
+				r = t->asize;
+				r->expr.type = exprtype(n);
+			}
 		} else if (t->type == Tyunion && !strcmp(namestr(args[1]), "tag")) {
 			r = mkexpr(n->loc, Outag, args[0], NULL);
 			r->expr.type = mktype(n->loc, Tyint32);
-- 
2.43.0


From 8cefea510a15f0abf7919f24acf1b6e0af07aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 17/66] fix: flatten: only apply increments in operands that
 were evaluated

---
 mi/flatten.c | 71 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 3 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index b0fad2b..683e59f 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -42,6 +42,10 @@ struct Flattenctx {
 	/* pre/postinc handling */
 	Node **incqueue;
 	size_t nqueue;
+	Node **incguard;	/* set when the increment was reached; NULL if always */
+	size_t nguard;
+	size_t inlazy;
+	size_t lazystart;
 
 	/* break/continue handling */
 	Loop loop;
@@ -245,25 +249,70 @@ dispose(Flattenctx *s, Stab *st, size_t n)
 	}
 }
 
+static Node *
+boollit(Srcloc loc, int val)
+{
+	Node *n;
+
+	n = mkexpr(loc, Olit, mkbool(loc, val), NULL);
+	n->expr.type = mktype(loc, Tybool);
+	return n;
+}
+
+/* start: where in the flattened code the lazy expression starts */
+static void
+enterlazy(Flattenctx *s, size_t start)
+{
+	if (s->inlazy++ == 0)
+		s->lazystart = start;
+}
+
+static void
+leavelazy(Flattenctx *s)
+{
+	s->inlazy--;
+}
+
+static void
+queueinc(Flattenctx *s, Node *n)
+{
+	Node *guard;
+
+	guard = NULL;
+	if (s->inlazy) {
+		guard = gentemp(n->loc, mktype(n->loc, Tybool), NULL);
+		linsert(&s->stmts, &s->nstmts, s->lazystart, asn(guard, boollit(n->loc, 0)));
+		append(s, asn(guard, boollit(n->loc, 1)));
+	}
+	lappend(&s->incqueue, &s->nqueue, n);
+	lappend(&s->incguard, &s->nguard, guard);
+}
+
 static void
 flattencond(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse)
 {
 	Node **args;
 	Node *v, *lnext;
+	size_t start;
 
 	args = n->expr.args;
+	start = s->nstmts;
 	switch (exprop(n)) {
 	case Oland:
 		lnext = genlbl(n->loc);
 		flattencond(s, args[0], lnext, lfalse);
 		append(s, lnext);
+		enterlazy(s, start);
 		flattencond(s, args[1], ltrue, lfalse);
+		leavelazy(s);
 		break;
 	case Olor:
 		lnext = genlbl(n->loc);
 		flattencond(s, args[0], ltrue, lnext);
 		append(s, lnext);
+		enterlazy(s, start);
 		flattencond(s, args[1], ltrue, lfalse);
+		leavelazy(s);
 		break;
 	case Olnot:
 		flattencond(s, args[0], lfalse, ltrue);
@@ -280,13 +329,16 @@ flattentern(Flattenctx *s, Node *n)
 {
 	Node *l1, *l2, *l3;
 	Node *res, *t;
+	size_t start;
 
 	l1 = genlbl(n->loc);
 	l2 = genlbl(n->loc);
 	l3 = genlbl(n->loc);
 
+	start = s->nstmts;
 	res = temp(s, n);
 	flattencond(s, n->expr.args[0], l1, l2);
+	enterlazy(s, start);
 
 	append(s, l1);
 	t = assign(s, res, rval(s, n->expr.args[1]));
@@ -298,6 +350,7 @@ flattentern(Flattenctx *s, Node *n)
 	append(s, t);
 
 	append(s, l3);
+	leavelazy(s);
 
 	return res;
 }
@@ -470,11 +523,23 @@ assign(Flattenctx *s, Node *lhs, Node *rhs)
 static void
 draininc(Flattenctx *fc)
 {
+	Node *linc, *lnext;
 	size_t i;
 
-	for (i = 0; i < fc->nqueue; i++)
+	for (i = 0; i < fc->nqueue; i++) {
+		if (!fc->incguard[i]) {
+			append(fc, fc->incqueue[i]);
+			continue;
+		}
+		linc = genlbl(fc->incqueue[i]->loc);
+		lnext = genlbl(fc->incqueue[i]->loc);
+		cjmp(fc, fc->incguard[i], linc, lnext);
+		append(fc, linc);
 		append(fc, fc->incqueue[i]);
+		append(fc, lnext);
+	}
 	lfree(&fc->incqueue, &fc->nqueue);
+	lfree(&fc->incguard, &fc->nguard);
 }
 
 /* returns 1 when the exit jump needs to be emitted */
@@ -601,12 +666,12 @@ rval(Flattenctx *s, Node *n)
 	case Opostinc:
 		r = lval(s, args[0]);
 		t = asn(r, addk(r, 1));
-		lappend(&s->incqueue, &s->nqueue, t);
+		queueinc(s, t);
 		break;
 	case Opostdec:
 		r = lval(s, args[0]);
 		t = asn(r, subk(r, 1));
-		lappend(&s->incqueue, &s->nqueue, t);
+		queueinc(s, t);
 		break;
 	case Olit:
 		switch (args[0]->lit.littype) {
-- 
2.43.0


From cbcf88650f4e16cafb7c8eb1439a70dfa96a0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 18/66] fix: simp: don't build an aggregate over the operands
 it reads

---
 6/simp.c | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 23ef690..934ba4c 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -782,13 +782,67 @@ tupget(Simp *s, Node *tup, size_t idx, Node *dst)
 	return dst;
 }
 
+/* could evaluating n read what the lvalue dst holds? */
+static int
+mayread(Node *n, Node *dst)
+{
+	Node **env;
+	size_t nenv, i;
+	int r;
+
+	if (n->type != Nexpr)
+		return 0;
+	switch (exprop(n)) {
+	case Osize:
+		return 0;
+	case Ovar:
+		return exprop(dst) != Ovar || n->expr.did == dst->expr.did;
+	case Oderef: case Ocall: case Ocallind:
+		return 1;
+	case Omemb: case Otupmemb: case Oidx: case Oslice:
+		if (tybase(exprtype(n->expr.args[0]))->type == Typtr)
+			return 1;
+		if (exprop(n) == Oidx && tybase(exprtype(n->expr.args[0]))->type == Tyslice)
+			return 1;
+		break;
+	case Olit:
+		if (n->expr.args[0]->lit.littype != Lfunc)
+			return 0;
+		r = 0;
+		env = getclosure(n->expr.args[0]->lit.fnval->func.scope, &nenv);
+		for (i = 0; i < nenv; i++)
+			if (exprop(dst) != Ovar || env[i]->decl.did == dst->expr.did)
+				r = 1;
+		free(env);
+		return r;
+	default:
+		break;
+	}
+	for (i = 0; i < n->expr.nargs; i++)
+		if (mayread(n->expr.args[i], dst))
+			return 1;
+	return 0;
+}
+
+/* can n be built in place, piece by piece, while dst is being overwritten? */
+static int
+inplace(Node *n, Node *dst)
+{
+	switch (exprop(n)) {
+	case Otup: case Ostruct: case Oarr: case Oucon: case Oslice:
+		return !mayread(n, dst);
+	default:
+		return 1;
+	}
+}
+
 static Node *
 assign(Simp *s, Node *lhs, Node *rhs)
 {
 	Node *t, *u, *v, *r;
 
 	t = lval(s, lhs);
-	u = rval(s, rhs, t);
+	u = rval(s, rhs, inplace(rhs, lhs) ? t : NULL);
 
 	if (tybase(exprtype(lhs))->type == Tyvoid)
 		return u;
-- 
2.43.0


From 855466bad7fe28dc990d2e051f1abfb7518f2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 19/66] fix: isel: don't store past the end of an aggregate
 returned in registers

---
 6/isel.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 403b8ce..ff2ff9b 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -661,6 +661,28 @@ plus8(Isel *s, Loc *base)
 	return locmem(8, forcedreg, NULL, ModeQ);
 }
 
+/* Stores the eightbyte of an aggregate returned in a register, without
+ * touching whatever follows when the aggregate ends partway through it. */
+static void
+storret(Isel *s, Loc *ret, Node *dst, size_t disp, size_t sz)
+{
+	static Mode modes[] = {[1] = ModeB, [2] = ModeW, [4] = ModeL, [8] = ModeQ};
+	Reg r = ret->reg.colour;
+	Loc *base;
+	size_t off, n;
+
+	base = inri(s, selexpr(s, dst));
+	sz = min(sz - disp, 8);
+	for (off = 0; off < sz; off += n) {
+		n = 8;
+		while (n > sz - off)
+			n /= 2;
+		g(s, Imov, coreg(r, modes[n]), locmem(disp + off, base, NULL, modes[n]), NULL);
+		if (off + n < sz)
+			g(s, Ishr, loclit(8 * n, ModeB), coreg(r, ModeQ), NULL);
+	}
+}
+
 static void
 gencall(Isel *s, Node *n)
 {
@@ -853,22 +875,22 @@ gencall(Isel *s, Node *n)
 			g(s, Imov, retloc1, ret, NULL);
 		break;
 	case ArgAggrI:
-		g(s, Imov, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
+		storret(s, retloc1, retnode, 0, size(n));
 		break;
 	case ArgAggrF:
 		g(s, Imovs, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
 		break;
 	case ArgAggrII:
-		g(s, Imov, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
-		g(s, Imov, retloc2, locmem(8, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
+		storret(s, retloc1, retnode, 0, size(n));
+		storret(s, retloc2, retnode, 8, size(n));
 		break;
 	case ArgAggrIF:
-		g(s, Imov,  retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
+		storret(s, retloc1, retnode, 0, size(n));
 		g(s, Imovs, retloc2, locmem(8, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
 		break;
 	case ArgAggrFI:
 		g(s, Imovs, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
-		g(s, Imov,  retloc2, locmem(8, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
+		storret(s, retloc2, retnode, 8, size(n));
 		break;
 	case ArgAggrFF:
 		g(s, Imovs, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
-- 
2.43.0


From 1e26ead65b28cf813bd0a35dbe7f4771d173211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 20/66] fix: simp: convert between floats and integers of every
 size

---
 6/simp.c | 101 ++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 97 insertions(+), 4 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 934ba4c..be7e931 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -588,6 +588,101 @@ intconvert(Simp *s, Node *from, Type *to, int issigned)
 	return r;
 }
 
+static Node *
+mkop(Op o, Type *ty, Node *a, Node *b)
+{
+	Node *n;
+
+	n = mkexpr(a->loc, o, a, b, NULL);
+	n->expr.type = ty;
+	return n;
+}
+
+static Node *
+savedin(Simp *s, Node *val)
+{
+	Node *t;
+
+	t = gentemp(val->loc, exprtype(val), NULL);
+	append(s, set(t, val));
+	return t;
+}
+
+static Node *
+scaled(Simp *s, Node *val, double by)
+{
+	Node *lit, *n;
+
+	lit = mkfloat(val->loc, by);
+	lit->lit.type = exprtype(val);
+	n = mkexpr(val->loc, Olit, lit, NULL);
+	n->expr.type = exprtype(val);
+	return mkop(Ofmul, exprtype(val), val, simpblob(s, n));
+}
+
+static Node *
+shiftby(Node *val, uvlong n)
+{
+	Node *lit;
+
+	lit = mkintlit(val->loc, n);
+	lit->expr.type = exprtype(val);
+	return lit;
+}
+
+/* The machine only converts from signed words and double words. */
+static Node *
+int2flt(Simp *s, Node *val, Type *to)
+{
+	Node *hi, *lo;
+	Type *t, *i64, *f64;
+
+	t = tybase(exprtype(val));
+	i64 = mktype(val->loc, Tyint64);
+	f64 = mktype(val->loc, Tyflt64);
+	if (istysigned(t) && size(val) >= 4) {
+		val = rval(s, val, NULL);
+	} else if (size(val) < 8) {
+		val = intconvert(s, val, i64, istysigned(t));
+	} else {
+		val = savedin(s, rval(s, val, NULL));
+		hi = mkop(Obsr, exprtype(val), val, shiftby(val, 32));
+		lo = mkop(Obsl, exprtype(val), val, shiftby(val, 32));
+		lo = mkop(Obsr, exprtype(val), lo, shiftby(val, 32));
+		hi = scaled(s, mkop(Oint2flt, f64, hi, NULL), 4294967296.0);
+		val = mkop(Ofadd, f64, hi, mkop(Oint2flt, f64, lo, NULL));
+		if (tybase(to)->type == Tyflt32)
+			val = mkop(Oflt2flt, to, val, NULL);
+		val->expr.type = to;
+		return val;
+	}
+	return mkop(Oint2flt, to, val, NULL);
+}
+
+/* The machine only converts flt64s, to signed words and double words. */
+static Node *
+flt2int(Simp *s, Node *val, Type *to)
+{
+	Node *hi, *lo;
+	Type *t, *i64, *f64;
+
+	t = tybase(to);
+	i64 = mktype(val->loc, Tyint64);
+	f64 = mktype(val->loc, Tyflt64);
+	val = rval(s, val, NULL);
+	if (tybase(exprtype(val))->type == Tyflt32)
+		val = mkop(Oflt2flt, f64, val, NULL);
+	if (istysigned(t) && tysize(t) >= 4)
+		return mkop(Oflt2int, to, val, NULL);
+	if (tysize(t) < 8)
+		return mkop(Otrunc, to, mkop(Oflt2int, i64, val, NULL), NULL);
+	val = savedin(s, val);
+	hi = savedin(s, mkop(Oflt2int, i64, scaled(s, val, 1.0/4294967296.0), NULL));
+	lo = mkop(Ofsub, f64, val, scaled(s, mkop(Oint2flt, f64, hi, NULL), 4294967296.0));
+	lo = mkop(Oflt2int, i64, lo, NULL);
+	return mkop(Oadd, to, mkop(Obsl, i64, hi, shiftby(hi, 32)), lo);
+}
+
 static Node *
 simpcast(Simp *s, Node *val, Type *to)
 {
@@ -638,8 +733,7 @@ simpcast(Simp *s, Node *val, Type *to)
 			if (tybase(to)->type == Typtr)
 				fatal(val, "bad cast from %s to %s",
 						tystr(exprtype(val)), tystr(to));
-			r = mkexpr(val->loc, Oflt2int, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = flt2int(s, val, to);
 			break;
 		default:
 			fatal(val, "bad cast from %s to %s",
@@ -651,8 +745,7 @@ simpcast(Simp *s, Node *val, Type *to)
 		case Tyint8: case Tyint16: case Tyint32: case Tyint64:
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
-			r = mkexpr(val->loc, Oint2flt, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = int2flt(s, val, to);
 			break;
 		case Tyflt32: case Tyflt64:
 			r = mkexpr(val->loc, Oflt2flt, rval(s, val, NULL), NULL);
-- 
2.43.0


From 961f2f36e86e7dc0f3239e57902c3b7885d767c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 21/66] fix: blob: leave room for array elements that are not
 initialised

---
 6/blob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/blob.c b/6/blob.c
index 9301723..7091fa6 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -322,11 +322,11 @@ blobrec(Blob *b, Htab *globls, Htab *strtab, Node *n)
 		for (i = 0; i < n->expr.nargs; i++) {
 			if (!getintlit(n->expr.args[i]->expr.idx, &idx))
 				die("non-numeric array size");
-			if (idx != last + 1)
-				sz += blobpad(b, (idx - last)*size(n->expr.args[i]));
+			sz += blobpad(b, (idx - last)*size(n->expr.args[i]));
 			sz += blobrec(b, globls, strtab, n->expr.args[i]);
 			last = idx + 1;
 		}
+		sz += blobpad(b, (nelt - last)*tysize(tybase(ty)->sub[0]));
 		/* if we need padding at the end.. */
 		end = alignto(sz, exprtype(n));
 		sz += blobpad(b, end - sz);
-- 
2.43.0


From 2768b6d09cab0243164a608108c8ffc70d7364d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 22/66] fix: fold: negate float literals, so that they can
 initialise globals

---
 parse/fold.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parse/fold.c b/parse/fold.c
index 01409fd..865093a 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -115,6 +115,18 @@ val(Srcloc loc, vlong val, Type *t)
 	return n;
 }
 
+static Node *
+fltval(Srcloc loc, double val, Type *t)
+{
+	Node *l, *n;
+
+	l = mkfloat(loc, val);
+	n = mkexpr(loc, Olit, l, NULL);
+	l->lit.type = t;
+	n->expr.type = t;
+	return n;
+}
+
 static int
 issmallconst(Node *dcl)
 {
@@ -304,6 +316,8 @@ fold(Node *n, int foldvar)
 	case Oneg:
 		if (intval(args[0], &a))
 			r = val(n->loc, -(uvlong)a, exprtype(n));
+		else if (exprop(args[0]) == Olit && args[0]->expr.args[0]->lit.littype == Lflt)
+			r = fltval(n->loc, -args[0]->expr.args[0]->lit.fltval, exprtype(n));
 		break;
 	case Obsl:
 		if (intval(args[0], &a) && intval(args[1], &b))
-- 
2.43.0


From 3c312d4cf1f5a5dc90dac3865409415c40437131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 23/66] fix: isel: count the register a float aggregate is
 passed in

---
 6/isel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/6/isel.c b/6/isel.c
index ff2ff9b..82fb5bd 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -640,6 +640,7 @@ sufficientregs(ArgType a, size_t nfloats, size_t nints)
 		int freg;
 	} needed[] = {
 	[ArgAggrI]   = {1, 0},
+	[ArgAggrF]   = {0, 1},
 	[ArgAggrFI]  = {1, 1},
 	[ArgAggrIF]  = {1, 1},
 	[ArgAggrII]  = {2, 0},
-- 
2.43.0


From d87f7978219c467f6ec69c464c34ff870ddf2bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 24/66] fix: ra: don't put a node on the simplify list twice

---
 6/ra.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/6/ra.c b/6/ra.c
index 2ff7c8f..68770db 100644
--- a/6/ra.c
+++ b/6/ra.c
@@ -820,8 +820,10 @@ wladd(Isel *s, regid u)
 		return;
 
 	assert(locmap[u]->list == &s->wlfreeze || locmap[u]->list == &s->wlsimp);
-	if (wlfind(s->wlfreeze, s->nwlfreeze, u, &i))
-		wldel(s, &s->wlfreeze, &s->nwlfreeze, i);
+	/* simplifying a node twice would take it off its neighbours' degrees twice */
+	if (!wlfind(s->wlfreeze, s->nwlfreeze, u, &i))
+		return;
+	wldel(s, &s->wlfreeze, &s->nwlfreeze, i);
 	wlput(&s->wlsimp, &s->nwlsimp, locmap[u]);
 }
 
-- 
2.43.0


From 0051cd7ac1519d606a6327215e28e0ceb4a5f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 25/66] fix: cfg: don't define the labels of unreachable blocks
 twice

---
 mi/cfg.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mi/cfg.c b/mi/cfg.c
index 6e9a6ad..e8e2dd4 100644
--- a/mi/cfg.c
+++ b/mi/cfg.c
@@ -112,7 +112,7 @@ addlabel(Cfg *cfg, Bb *bb, Node **nl, size_t i, Srcloc loc)
 void
 delete(Cfg *cfg, Bb *bb)
 {
-	size_t i, j;
+	size_t i;
 
 	if (bb == cfg->start || bb == cfg->end)
 		return;
@@ -123,8 +123,6 @@ delete(Cfg *cfg, Bb *bb)
 	for (i = 0; bsiter(bb->succ, &i); i++) {
 		bsunion(cfg->bb[i]->pred, bb->pred);
 		bsdel(cfg->bb[i]->pred, bb->id);
-		for (j = 0; j < bb->nlbls; j++)
-			strlabel(cfg, bb->lbls[j], cfg->bb[i]);
 	}
 	cfg->bb[bb->id] = NULL;
 }
-- 
2.43.0


From fe6ae04e73490430ce1568205a7ddd67aeadc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 26/66] fix: std: fput: count the bytes written from zero

---
 lib/std/fmt.myr | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/std/fmt.myr b/lib/std/fmt.myr
index 4a70c21..d701d94 100644
--- a/lib/std/fmt.myr
+++ b/lib/std/fmt.myr
@@ -114,6 +114,7 @@ const fput = {fd, fmt, args
 const fputv = {fd, fmt, ap
 	var sb, s, nw
 
+	nw = 0
 	sb = mksb()
 	sbfmtv(sb, fmt, ap)
 	s = sbfin(sb)
-- 
2.43.0


From 6792679cb96c0f15060a5176259c0ba3722436fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 27/66] fix: tok: don't take a 0xff byte for the end of the
 file

Bytes were read as signed characters, so 0xff compared equal to End.
---
 parse/tok.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 8b40dc2..e32d238 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -33,7 +33,7 @@ peekn(int n)
 	if (fidx + n >= fbufsz)
 		return End;
 	else
-		return fbuf[fidx + n];
+		return (unsigned char)fbuf[fidx + n];
 }
 
 static int
-- 
2.43.0


From b55ff099398bf0995124a9845d0d911c8fa7bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 28/66] fix: tok: allow the b suffix after decimal, octal and
 binary digits

'b' was taken for a digit outside of the base.
---
 parse/tok.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/tok.c b/parse/tok.c
index e32d238..3ac1f3a 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -676,6 +676,9 @@ number(int base)
 	 */
 	maybefloat = !curtok || (curtok->type != Tdot);
 	for (c = peek(); isxdigit(c) || (maybefloat && c == '.') || c == '_'; c = peek()) {
+		/* not a digit below base 12, but the 8 bit suffix */
+		if (base < 12 && (c == 'b' || c == 'B'))
+			break;
 		next();
 		if (c == '_')
 			continue;
-- 
2.43.0


From 6ad608e625048ec3cf57f4aa0446a8f9d803d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 29/66] fix: tok: reject malformed floating point literals

1.2.3 or 1.5e were accepted, and the part that strtod() didn't use was
dropped.
---
 parse/tok.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 3ac1f3a..9d93f8b 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -714,7 +714,7 @@ number(int base)
 		t = mktok(Tfloatlit);
 		t->id = strdupn(&fbuf[start], fidx - start);
 		t->fltval = strtod(buf, &endp);
-		if (endp == buf)
+		if (endp == buf || *endp)
 			lfatal(curloc, "%s is not a valid floating point value", buf);
 	} else {
 		t = mktok(Tintlit);
-- 
2.43.0


From cde76243d2b67e57f5c2043fdcf0031ee9ce543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 30/66] fix: tok: reject integer literals that don't fit 64
 bits

They were silently replaced by the largest 64 bit value.
---
 parse/tok.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/tok.c b/parse/tok.c
index 9d93f8b..b496f4c 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -719,7 +719,10 @@ number(int base)
 	} else {
 		t = mktok(Tintlit);
 		t->id = strdupn(&fbuf[start], fidx - start);
+		errno = 0;
 		t->intval = strtoull(buf, &endp, base);
+		if (errno == ERANGE)
+			lfatal(curloc, "integer literal %s out of range", buf);
 		if (endp == buf)
 			lfatal(curloc, "%s is not a valid integer value", buf);
 			
-- 
2.43.0


From 4956fb4db985c0d780c86d5a3aede951590c1842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 31/66] fix: tok: don't overflow the identifier buffer

Identifiers that don't fit are now reported, rather than split.
---
 parse/tok.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index b496f4c..3c5d35d 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -231,7 +231,9 @@ identstr(char *buf, size_t sz)
 	char c;
 
 	i = 0;
-	for (c = peek(); i < sz && identchar(c); c = peek()) {
+	for (c = peek(); identchar(c); c = peek()) {
+		if (i == sz - 1)
+			lfatal(curloc, "identifier too long");
 		next();
 		buf[i++] = c;
 	}
-- 
2.43.0


From 8c861403aaa72634caebf2c6ab354c13bfbd0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 32/66] fix: constants could be assigned with +=, ++ and the
 like

Only plain assignment was checked.
---
 parse/infer.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 4258a90..5d51084 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1651,6 +1651,26 @@ infersub(Node *n, Type *ret, int *sawret, int *exprconst)
 	*exprconst = n->expr.isconst;
 }
 
+/* Constants can't be the target of any form of assignment. */
+static void
+checkassign(Node *n)
+{
+	Node *lhs;
+
+	switch (exprop(n)) {
+	case Oasn:
+	case Oaddeq: case Osubeq: case Omuleq: case Odiveq: case Omodeq:
+	case Oboreq: case Obandeq: case Obxoreq: case Obsleq: case Obsreq:
+	case Opreinc: case Opredec: case Opostinc: case Opostdec:
+		lhs = n->expr.args[0];
+		if (lhs->expr.isconst)
+			fatal(n, "attempting to assign constant \"%s\"", ctxstr(lhs));
+		break;
+	default:
+		break;
+	}
+}
+
 static void
 inferexpr(Node **np, Type *ret, int *sawret)
 {
@@ -1695,6 +1715,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		}
 		n->expr.isconst = isconst;
 		settype(n, t);
+		checkassign(n);
 		break;
 	case Omod:	/* @a % @a -> @a */
 	case Obor:	/* @a | @a -> @a */
@@ -1724,6 +1745,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		}
 		n->expr.isconst = isconst;
 		settype(n, t);
+		checkassign(n);
 		break;
 	case Oasn:	/* @a = @a -> @a */
 		infersub(n, ret, sawret, &isconst);
@@ -1731,8 +1753,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		for (i = 1; i < nargs; i++)
 			t = unify(n, t, type(args[i]));
 		settype(n, t);
-		if (args[0]->expr.isconst)
-			fatal(n, "attempting to assign constant \"%s\"", ctxstr(args[0]));
+		checkassign(n);
 		break;
 
 		/* operands same type, returning bool */
-- 
2.43.0


From 6c928d091e578fa498bbc24b26c55cce72cbf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 33/66] fix: functions of a named type could not be called

unifycall looked at the subtypes of the name rather than of the function
type that it stands for, and complained about the arity.
---
 parse/infer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 5d51084..e9d1057 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1283,8 +1283,10 @@ unifycall(Node *n)
 		/* the first arg is the function itself, so it shouldn't be counted */
 		ft = mktyfunc(n->loc, &n->expr.args[1], n->expr.nargs - 1, mktyvar(n->loc));
 		unify(n, ft, type(n->expr.args[0]));
-	} else if (tybase(ft)->type != Tyfunc) {
-		fatal(n, "calling uncallable type %s", tystr(ft));
+	} else {
+		if (tybase(ft)->type != Tyfunc)
+			fatal(n, "calling uncallable type %s", tystr(ft));
+		ft = tybase(ft);
 	}
 	/* first arg: function itself */
 	for (i = 1; i < n->expr.nargs; i++) {
-- 
2.43.0


From 0d351a163ddec9565fbd868cd7de6aa777a22258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 34/66] fix: shift by a constant count over 255 failed to
 assemble

---
 6/isel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/6/isel.c b/6/isel.c
index 82fb5bd..c65e328 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1060,7 +1060,8 @@ selexpr(Isel *s, Node *n)
 		a = newr(s, selexpr(s, args[0]));
 		b = selexpr(s, args[1]);
 		if (b->type == Loclit) {
-			d = b;
+			/* immediate counts are one byte, masked like those in %cl */
+			d = loclit(b->lit & 0x3f, b->mode);
 		} else {
 			c = coreg(Rcl, b->mode);
 			g(s, Imov, b, c, NULL);
-- 
2.43.0


From aa6cb2b228e1cfeab689c722e77a612d1cde116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 35/66] fix: members of tuple literals, casts and address
 expressions

(a, b).0 and (&x).a were refused: their operand needn't be an lvalue.
---
 6/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index be7e931..f2d2fcc 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -435,9 +435,9 @@ membaddr(Simp *s, Node *n)
 	args = n->expr.args;
 	ty = tybase(exprtype(args[0]));
 	if (ty->type == Typtr) {
-		t = lval(s, args[0]);
+		t = rval(s, args[0], NULL);
 	} else {
-		t = addr(s, lval(s, args[0]), exprtype(n));
+		t = addr(s, rval(s, args[0], NULL), exprtype(n));
 	}
 	u = disp(n->loc, offset(args[0], args[1]));
 	r = add(t, u);
-- 
2.43.0


From 38f15851818cbdae506fa4af1ab879cf8adb10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 36/66] fix: using the tag of a union as an integer that isn't
 32 bits wide

Loading it mixed up the sizes, which the assembler refused.
---
 parse/fold.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/fold.c b/parse/fold.c
index 865093a..c94cd1a 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -352,8 +352,11 @@ fold(Node *n, int foldvar)
 				r->expr.type = exprtype(n);
 			}
 		} else if (t->type == Tyunion && !strcmp(namestr(args[1]), "tag")) {
+			/* the tag is 32 bits wide, and may be used as any integer */
 			r = mkexpr(n->loc, Outag, args[0], NULL);
 			r->expr.type = mktype(n->loc, Tyint32);
+			r = mkexpr(n->loc, Ocast, r, NULL);
+			r->expr.type = exprtype(n);
 		}
 		break;
 	case Oarr:
-- 
2.43.0


From b00dd98db57ef6da02d39c0244d33492b556e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 37/66] fix: (a, b) = (b, a) assigned the same value to both

The right side was evaluated again for every target, after some of them
had been assigned to.
---
 mi/flatten.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 683e59f..7730faa 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -409,12 +409,11 @@ destructure(Flattenctx *s, Node *lhs, Node *rhs)
 	size_t i;
 
 	args = lhs->expr.args;
-	rhs = rval(s, rhs);
 	for (i = 0; i < lhs->expr.nargs; i++) {
 		idx = mkintlit(rhs->loc, i);
 		idx->expr.type = mktype(rhs->loc, Tyuint64);
 		rv = mkexpr(rhs->loc, Otupget, rhs, idx, NULL);
-		rv->expr.type = lhs->expr.type;
+		rv->expr.type = exprtype(args[i]);
 
 		if (exprop(args[i]) == Otup) {
 			destructure(s, args[i], rv);
@@ -503,7 +502,10 @@ assign(Flattenctx *s, Node *lhs, Node *rhs)
 	Node *r, *t, *e, *u;
 
 	if (exprop(lhs) == Otup) {
-		r = destructure(s, lhs, rhs);
+		/* the targets may be used in rhs, so work on a copy of it */
+		t = temp(s, rhs);
+		append(s, asn(t, rval(s, rhs)));
+		r = destructure(s, lhs, t);
 	} else if (tybase(exprtype(lhs))->type != Tyvoid) {
 		t = lval(s, lhs);
 		u = rval(s, rhs);
-- 
2.43.0


From 8415c1f1cc6508c5ab5cccb249405fe33c11138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 38/66] fix: a slice or array of a named type could not be
 iterated over

---
 mi/flatten.c  | 4 ++--
 parse/infer.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 7730faa..683c832 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -173,10 +173,10 @@ seqlen(Flattenctx *s, Node *n, Type *ty)
 
 	if (!ty)
 		ty = n->expr.type;
-	if (exprtype(n)->type == Tyarray) {
+	if (tybase(exprtype(n))->type == Tyarray) {
 		r = mkexpr(n->loc, Osllen, rval(s, n), NULL);
 		r->expr.type = ty;
-	} else if (exprtype(n)->type == Tyslice) {
+	} else if (tybase(exprtype(n))->type == Tyslice) {
 		r = mkexpr(n->loc, Osllen, rval(s, n), NULL);
 		r->expr.type = ty;
 	} else {
diff --git a/parse/infer.c b/parse/infer.c
index e9d1057..8f4340b 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -288,7 +288,7 @@ additerspecialization(Node *n, Stab *stab)
 	size_t i;
 
 	tr = traittab[Tciter];
-	ty = exprtype(n->iterstmt.seq);
+	ty = tybase(exprtype(n->iterstmt.seq));
 	if (ty->type == Tyslice || ty->type == Tyarray || ty->type == Typtr)
 		return;
 	ty = tyfreshen(NULL, ty);
-- 
2.43.0


From ab8d7060769f97091f71bbbdecb4daa0c670cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 39/66] fix: uses of an enum's tag in a slice bound crashed the
 compiler

Converting between types of the same size gave the variable itself the new
type, which the next time it was looked at was wrong.
---
 6/simp.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/6/simp.c b/6/simp.c
index f2d2fcc..dfed7d8 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -567,6 +567,16 @@ lval(Simp *s, Node *n)
 	return r;
 }
 
+static Node *
+copynode(Node *n)
+{
+	Node *r;
+
+	r = xalloc(sizeof(Node));
+	memcpy(r, n, sizeof(Node));
+	return r;
+}
+
 static Node *
 intconvert(Simp *s, Node *from, Type *to, int issigned)
 {
@@ -583,6 +593,9 @@ intconvert(Simp *s, Node *from, Type *to, int issigned)
 			r = mkexpr(from->loc, Oswiden, r, NULL);
 		else
 			r = mkexpr(from->loc, Ozwiden, r, NULL);
+	} else {
+		/* r may be part of from, which can be simplified again */
+		r = copynode(r);
 	}
 	r->expr.type = to;
 	return r;
-- 
2.43.0


From a44e6e579b97a9d0b1b65a0065bab7e62b200540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 40/66] fix: constants could be assigned to by destructuring

---
 parse/infer.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 8f4340b..1877d93 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1653,20 +1653,28 @@ infersub(Node *n, Type *ret, int *sawret, int *exprconst)
 	*exprconst = n->expr.isconst;
 }
 
+static void
+checklhs(Node *n, Node *lhs)
+{
+	size_t i;
+
+	if (lhs->expr.isconst)
+		fatal(n, "attempting to assign constant \"%s\"", ctxstr(lhs));
+	if (exprop(lhs) == Otup)
+		for (i = 0; i < lhs->expr.nargs; i++)
+			checklhs(n, lhs->expr.args[i]);
+}
+
 /* Constants can't be the target of any form of assignment. */
 static void
 checkassign(Node *n)
 {
-	Node *lhs;
-
 	switch (exprop(n)) {
 	case Oasn:
 	case Oaddeq: case Osubeq: case Omuleq: case Odiveq: case Omodeq:
 	case Oboreq: case Obandeq: case Obxoreq: case Obsleq: case Obsreq:
 	case Opreinc: case Opredec: case Opostinc: case Opostdec:
-		lhs = n->expr.args[0];
-		if (lhs->expr.isconst)
-			fatal(n, "attempting to assign constant \"%s\"", ctxstr(lhs));
+		checklhs(n, n->expr.args[0]);
 		break;
 	default:
 		break;
-- 
2.43.0


From 34ad37d1b81b1cccefc221ca2e715b8fb432bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 41/66] fix: members of numeric literals crashed the compiler

They were never checked again once the literal got its default type.
---
 parse/infer.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 1877d93..3a3a219 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2562,6 +2562,33 @@ postinfer(void)
 	}
 }
 
+/*
+ * The types of numeric literals are only settled once the default types
+ * are filled in, so look again at members of what was unknown before.
+ */
+static void
+checkmembers(void)
+{
+	Postcheck **post;
+	size_t i, npost;
+	Node *n;
+
+	post = NULL;
+	npost = 0;
+	for (i = 0; i < npostcheck; i++) {
+		n = postcheck[i]->node;
+		if (n->type != Nexpr)
+			continue;
+		if (exprop(n) != Omemb && exprop(n) != Otupmemb)
+			continue;
+		pushstab(postcheck[i]->stab);
+		pushenv(postcheck[i]->env);
+		infercompn(n, &post, &npost);
+		popenv(postcheck[i]->env);
+		popstab();
+	}
+}
+
 /* After inference, replace all
  * types in symbol tables with
  * the final computed types */
@@ -3104,6 +3131,7 @@ infer(void)
 	for (i = 0; i < file.nstmts; i++)
 		typesub(file.stmts[i], 0);
 	popstab();
+	checkmembers();
 
 	specialize();
 	verify();
-- 
2.43.0


From fba4025a61c32517cf93e0d4c02649c63517936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 42/66] fix: storing through a slice cast to a pointer crashed
 the compiler

The cast kept the type of pointers to the slice's elements.
---
 6/simp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index dfed7d8..3e26763 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -724,9 +724,10 @@ simpcast(Simp *s, Node *val, Type *to)
 				fatal(val, "bad cast from %s to %s", tystr(exprtype(val)), tystr(to));
 			val = rval(s, val, NULL);
 			r = slicebase(s, val, NULL);
+			r->expr.type = to;
 			break;
 		case Tyfunc:
-			if (to->type != Typtr)
+			if (tybase(to)->type != Typtr)
 				fatal(val, "bad cast from %s to %s", tystr(exprtype(val)), tystr(to));
 			r = getcode(s, val);
 			break;
-- 
2.43.0


From 9319baf340e141d87b441cfe63c0f5f8c4548fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 43/66] fix: slicing a slice of a named type used the wrong
 element size

---
 6/simp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 3e26763..8521411 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -517,7 +517,7 @@ slicebase(Simp *s, Node *n, Node *off)
 	/* safe: all types we allow here have a sub[0] that we want to grab */
 	if (off) {
 		off = ptrsized(s, rval(s, off, NULL));
-		sz = tysize(n->expr.type->sub[0]);
+		sz = tysize(ty->sub[0]);
 		v = mul(off, disp(n->loc, sz));
 		return add(u, v);
 	} else {
-- 
2.43.0


From cb24466c16e8475f275ee857214b41f535d6c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 44/66] fix: delimit type names in generated identifiers

The name of a specialization was ambiguous: 'foo(int8)' and 'foob', or
'(a, int8)' and '(ab,)', had the same one, so that a generic or trait
function used at both types ran the code for whichever came first.
---
 6/gen.c      | 2 ++
 parse/type.c | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/6/gen.c b/6/gen.c
index 8b6e222..06bf257 100644
--- a/6/gen.c
+++ b/6/gen.c
@@ -170,6 +170,8 @@ tydescid(char *buf, size_t bufsz, Type *ty)
 			p += bprintf(p, end - p, "_tydesc$%s%s%s", ns, sep, ty->name->name.name, ty->tid);
 		else
 			p += bprintf(p, end - p, "_tydesc$%s%s%s$%d", ns, sep, ty->name->name.name, ty->tid);
+		if (ty->narg)
+			p += bprintf(p, end - p, "$$");
 		for (i = 0; i < ty->narg; i++)
 			p += tyidfmt(p, end - p, ty->arg[i]);
 	} else {
diff --git a/parse/type.c b/parse/type.c
index 31a9d35..1613701 100644
--- a/parse/type.c
+++ b/parse/type.c
@@ -1010,6 +1010,7 @@ tyidfmt(char *buf, size_t sz, Type *ty)
 			p += tyidfmt(p, end - p, ty->sub[i]);
 			p += bprintf(p, end - p, "$");
 		}
+		p += bprintf(p, end - p, "$z");
 		break;
 	case Tyfunc:
 		p += bprintf(p, end - p, "$f");
@@ -1017,13 +1018,14 @@ tyidfmt(char *buf, size_t sz, Type *ty)
 			p += tyidfmt(p, end - p, ty->sub[i]);
 			p += bprintf(p, end - p, "$");
 		}
+		p += bprintf(p, end - p, "$z");
 		break;
 	case Tytuple:
 		p += bprintf(p, end - p, "$e");
 		for (i = 0; i < ty->nsub; i++) {
 			p += tyidfmt(p, end - p, ty->sub[i]);
 		}
-		p += bprintf(p, end - p, "$");
+		p += bprintf(p, end - p, "$z");
 		break;
 	case Tystruct:	p += bprintf(p, end - p, "$t%lld", ty->tid);	break;
 	case Tyunion:	p += bprintf(p, end - p, "$u%lld", ty->tid);	break;
@@ -1033,13 +1035,15 @@ tyidfmt(char *buf, size_t sz, Type *ty)
 		p += bprintf(p, end - p, "$n");
 		if (ty->name->name.ns)
 			p += bprintf(p, end - p, "%s", ty->name->name.ns);
-		p += bprintf(p, end - p, "$%s", ty->name->name.name);
+		/* delimited, so that 'foo(int8)' and 'foob' differ */
+		p += bprintf(p, end - p, "$%s$", ty->name->name.name);
 		if (ty->arg)
 			for (i = 0; i < ty->narg; i++)
 				p += tyidfmt(p, end - p, ty->arg[i]);
 		else if (ty->gparam)
 			for (i = 0; i < ty->ngparam; i++)
 				p += tyidfmt(p, end - p, ty->gparam[i]);
+		p += bprintf(p, end - p, "$z");
 		break;
 	case Tygeneric:
 		break;
-- 
2.43.0


From addf9a1823e5519b7190fb9b56f7a08092e43d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 45/66] fix: find implementations of traits for array and
 pointer types

The sizes of arrays were compared the wrong way round, so an
implementation matched every array but those of its own size, and the
element type of pointers and arrays was not looked at when a concrete
type was checked for a trait.
---
 parse/infer.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 3a3a219..4a02c0e 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -846,12 +846,15 @@ tymatchrank(Type *pat, Type *to)
 	case Tyarray:
 		/* unsized arrays are ok */
 		if (pat->asize && to->asize) {
-			if (!!litvaleq(pat->asize->expr.args[0], to->asize->expr.args[0]))
+			if (arraysz(pat->asize) != arraysz(to->asize))
 				return -1;
 		} else if (pat->asize != to->asize) {
 			return -1;
 		}
-		else return tymatchrank(pat->sub[0], to->sub[0]);
+		q = tymatchrank(pat->sub[0], to->sub[0]);
+		if (q < 0)
+			return -1;
+		match = q + 1;
 		break;
 	default:
 		if (pat->nsub != to->nsub)
@@ -953,10 +956,12 @@ traitsfor(Type *base, Bitset *dst)
 				if (tymatchrank(tm->filter[i], ty) >= 0)
 					bsput(dst, tm->filtertr[i]->uid);
 			}
-			if (!tm->sub[ty->type] || ty->nsub != 1)
+			if (ty->nsub != 1)
 				break;
+			ty = tysearch(ty->sub[0]);
 			tm = tm->sub[ty->type];
-			ty = ty->sub[0];
+			if (!tm)
+				break;
 		}
 		if (base->type != Tyname)
 			break;
@@ -974,11 +979,10 @@ verifytraits(Node *ctx, Type *a, Type *b)
 	Srcloc l;
 	char *sep;
 
+	/* only type variables and parameters need traits */
 	abs = a->trneed;
-	if (!abs) {
-		abs = mkbs();
-		traitsfor(a, abs);
-	}
+	if (!abs)
+		return;
 	bbs = b->trneed;
 	if (!bbs) {
 		bbs = mkbs();
@@ -1005,8 +1009,6 @@ verifytraits(Node *ctx, Type *a, Type *b)
 		fatal(ctx, "%s needs trait %s near %s%s%s",
 			bbuf, traitbuf, ctxstr(ctx), srcstr(a), srcstr(b));
 	}
-	if (!a->trneed)
-		bsfree(abs);
 	if (!b->trneed)
 		bsfree(bbs);
 }
-- 
2.43.0


From 244721b56db82fdb5d52cfe55f0cc21a62f8648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 46/66] fix: type parameters in the body of a generic have its
 traits

A local variable or function literal declared with a type parameter of
the enclosing generic got a parameter of its own without any traits, so
'var z : @n = x + y' was rejected.
---
 parse/infer.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 4a02c0e..af7a386 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -335,12 +335,35 @@ typeerror(Type *a, Type *b, Node *ctx, char *msg)
 	free(c);
 }
 
-/* Set a scope's enclosing scope up correctly. */
+/* Set a scope's enclosing scope up correctly. Type
+ * parameters that are bound outside are the same ones. */
 static void
 setsuperenv(Tyenv *e, Tyenv *super)
 {
-	if (e)
-		e->super = super;
+	size_t i, nk;
+	Type *t, *r;
+	Tyenv *s;
+	void **k;
+
+	if (!e)
+		return;
+	e->super = super;
+	k = htkeys(e->tab, &nk);
+	for (i = 0; i < nk; i++) {
+		t = tysearch(htget(e->tab, k[i]));
+		if (t->type != Typaram || t->nspec)
+			continue;
+		for (s = super; s; s = s->super) {
+			r = tysearch(htget(s->tab, k[i]));
+			if (r && r != t) {
+				tytab[t->tid] = r;
+				htput(e->tab, k[i], r);
+			}
+			if (r)
+				break;
+		}
+	}
+	free(k);
 }
 
 /* Set a scope's enclosing scope up correctly. */
@@ -2085,6 +2108,7 @@ inferstab(Stab *s)
 	se = curenv();
 	for (i = 0; i < n; i++) {
 		dcl = htget(s->dcl, k[i]);
+		setsuperenv(dcl->decl.env, se);
 		pushenv(dcl->decl.env);
 		tf(type(dcl));
 		popenv(dcl->decl.env);
-- 
2.43.0


From 3e1fb611803ff866ee1af9439326de4999296ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 47/66] fix: parameters of a type are not those of the generic
 that uses it

Follow-up to the previous change: members of a parameterised type that was
first resolved inside a generic got the traits of the generic's parameter
of the same name, and casts in function literals still used a parameter
without traits.
---
 parse/infer.c | 22 +++++++++++++++-------
 parse/stab.c  |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index af7a386..6e09bfb 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -335,19 +335,27 @@ typeerror(Type *a, Type *b, Node *ctx, char *msg)
 	free(c);
 }
 
-/* Set a scope's enclosing scope up correctly. Type
- * parameters that are bound outside are the same ones. */
+/* Set a scope's enclosing scope up correctly. */
 static void
 setsuperenv(Tyenv *e, Tyenv *super)
+{
+	if (e)
+		e->super = super;
+}
+
+/* Type parameters that are bound outside are the same ones,
+ * except in the declaration of a type. */
+static void
+mergesuperenv(Tyenv *e, Tyenv *super)
 {
 	size_t i, nk;
 	Type *t, *r;
 	Tyenv *s;
 	void **k;
 
-	if (!e)
+	setsuperenv(e, super);
+	if (!e || inaggr)
 		return;
-	e->super = super;
 	k = htkeys(e->tab, &nk);
 	for (i = 0; i < nk; i++) {
 		t = tysearch(htget(e->tab, k[i]));
@@ -2108,7 +2116,7 @@ inferstab(Stab *s)
 	se = curenv();
 	for (i = 0; i < n; i++) {
 		dcl = htget(s->dcl, k[i]);
-		setsuperenv(dcl->decl.env, se);
+		mergesuperenv(dcl->decl.env, se);
 		pushenv(dcl->decl.env);
 		tf(type(dcl));
 		popenv(dcl->decl.env);
@@ -2149,7 +2157,7 @@ infernode(Node **np, Type *ret, int *sawret)
 		if (n->decl.isgeneric)
 			ingeneric++;
 		indentdepth++;
-		setsuperenv(n->decl.env, curenv());
+		mergesuperenv(n->decl.env, curenv());
 		pushenv(n->decl.env);
 		inferdecl(n);
 		if (hasparams(type(n)) && !ingeneric)
@@ -2225,7 +2233,7 @@ infernode(Node **np, Type *ret, int *sawret)
 	case Nfunc:
 		setsuper(n->func.scope, curstab());
 		pushstab(n->func.scope);
-		setsuperenv(n->func.env, curenv());
+		mergesuperenv(n->func.env, curenv());
 		pushenv(n->func.env);
 		inferstab(n->func.scope);
 		inferfunc(n);
diff --git a/parse/stab.c b/parse/stab.c
index 67fbeef..092bb5b 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -747,7 +747,7 @@ boundtype(Type *t)
 	for (e = curenv(); e; e = e->super) {
 		r = htget(e->tab, t);
 		if (r)
-			return r;
+			return tysearch(r);
 	}
 	return NULL;
 }
-- 
2.43.0


From 55914249752264fe9a0c5bdc3f2a45b155a7063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 48/66] fix: a trait implementation for a type parameter isn't
 for one of the same name elsewhere

---
 parse/infer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 6e09bfb..de50264 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2501,7 +2501,8 @@ checkvar(Node *n, Postcheck ***post, size_t *npost)
 	ty = NULL;
 	dcl = NULL;
 	pushenv(proto->decl.env);
-	if (n->expr.param)
+	/* the parameters of a generic impl aren't the ones used here */
+	if (n->expr.param && !hasparams(tf(n->expr.param)))
 		dcl = htget(proto->decl.impls, tf(n->expr.param));
 	if (dcl)
 		ty = dcl->decl.type;
-- 
2.43.0


From 75f999e2d937321a22d120b2997263a3ea0dcb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:51 +0000
Subject: [PATCH 49/66] fix: distinct type parameters were unified

A generic could return a value of one parameter's type where another's was
expected; instantiated at types of different sizes it read and wrote the
wrong memory.  lib/math relied on this in a few expressions, which now say
which type they mean.
---
 lib/math/exp-impl.myr    | 6 +++---
 lib/math/log-impl.myr    | 6 +++---
 lib/math/pown-impl.myr   | 4 ++--
 lib/math/scale2-impl.myr | 6 +++---
 parse/infer.c            | 2 ++
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/math/exp-impl.myr b/lib/math/exp-impl.myr
index 877abeb..b41805d 100644
--- a/lib/math/exp-impl.myr
+++ b/lib/math/exp-impl.myr
@@ -240,7 +240,7 @@ generic expgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating,std.equata
 	   exact, without need for an FMA. R1 + R2 will approximate
 	   (very well) f reduced into [ -ln(2)/64, ln(2)/64 ]
 	 */
-	if std.abs(N) >= (1 << d.nabs)
+	if std.abs(N) >= (1 << (d.nabs : @i))
 		R1 = (x - (N1 : @f) * d.frombits(d.L1)) - ((N2 : @f) * d.frombits(d.L1))
 	else
 		R1 = x - (N : @f) * d.frombits(d.L1)
@@ -346,7 +346,7 @@ generic expm1gen = {x : @f, d : fltdesc(@f, @u, @i) :: \
 	   As in the exp case, R1 + R2 very well approximates f
 	   reduced into [ -ln(2)/64, ln(2)/64 ]
 	 */
-	if std.abs(N) >= (1 << d.nabs)
+	if std.abs(N) >= (1 << (d.nabs : @i))
 		R1 = (x - (N1 : @f) * d.frombits(d.L1)) - ((N2 : @f) * d.frombits(d.L1))
 	else
 		R1 = x - (N : @f) * d.frombits(d.L1)
@@ -373,7 +373,7 @@ generic expm1gen = {x : @f, d : fltdesc(@f, @u, @i) :: \
 	   underflow flag when not technically required. We currently
 	   do not care about such flags, so that logic is omitted.
 	 */
-	if M >= d.precision
+	if M >= (d.precision : @i)
 		-> scale2(S_hi + (S * P + (S_lo - scale2(1.0, -M))), M)
 	elif M <= -8
 		-> scale2(S_hi + (S * P + S_lo), M) - (1.0 : @f)
diff --git a/lib/math/log-impl.myr b/lib/math/log-impl.myr
index f2ff68e..4f4a1f2 100644
--- a/lib/math/log-impl.myr
+++ b/lib/math/log-impl.myr
@@ -431,7 +431,7 @@ generic loggen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, numeri
 		var first_1 = find_first1_64((s : uint64), (d.precision : int64))
 		var offset = (d.precision : @u) - 1 - (first_1 : @u)
 		s = s << offset
-		e = d.emin - offset
+		e = d.emin - (offset : @i)
 	;;
 
 	m = e
@@ -494,7 +494,7 @@ generic log1pgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, nume
 	   example: 1 + x might be infinity).
 	 */
 	var Y, m, F, f
-	if e > d.T3exp
+	if e > (d.T3exp : @i)
 		Y = x
 	else
 		Y = (1.0 : @f) + x
@@ -520,7 +520,7 @@ generic log1pgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, nume
 	 */
 	if m <= -2
 		f = Y - F
-	elif m <= d.precision - 1
+	elif m <= (d.precision : @i) - 1
 		f = (d.assem(false, -m, 0) - F) + scale2(x, -m)
 	else
 		f = (scale2(x, -m) - F) + d.assem(false, -m, 0)
diff --git a/lib/math/pown-impl.myr b/lib/math/pown-impl.myr
index 6dfec19..b7511a2 100644
--- a/lib/math/pown-impl.myr
+++ b/lib/math/pown-impl.myr
@@ -365,13 +365,13 @@ generic rootngen = {x : @f, q : @u, d : fltdesc(@f, @u, @i) :: numeric,floating,
 	(G1, G2) = d.split_mul(ln_xs_hi, ln_xs_lo, qinv_hi, qinv_lo)
 
 	var E : @i
-	if q > std.abs(xe)
+	if q > (std.abs(xe) : @u)
 		/* Don't cast q to @i unless we're sure it's in small range */
 		E = 0
 	else
 		E = xe / (q : @i)
 	;;
-	var qpsi = xe - q * E
+	var qpsi = xe - (q : @i) * E
 	var psi_hi = (qpsi : @f) / qf
 	var psi_lo = -math.fma(psi_hi, qf, -(qpsi : @f)) / qf
 	var log2_hi, log2_lo
diff --git a/lib/math/scale2-impl.myr b/lib/math/scale2-impl.myr
index f75aac8..77a1048 100644
--- a/lib/math/scale2-impl.myr
+++ b/lib/math/scale2-impl.myr
@@ -36,12 +36,12 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 		var sprime = s
 		var eprime = e
 		if e < emin
-			sprime = s >> (-m)
+			sprime = s >> (-m : @u)
 			if need_round_away(0, (s : uint64), (-m : int64))
 				sprime++
 			;;
 			eprime = emin - 1
-		elif e + m < emin - p - 2
+		elif e + m < emin - (p : @i) - 2
 			sprime = 0
 			eprime = emin - 1
 		elif e + m < emin
@@ -64,7 +64,7 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 			m -= (shift : @i)
 			e = emin
 		else
-			-> (n, e, s << m)
+			-> (n, e, s << (m : @u))
 		;;
 	;;
 
diff --git a/parse/infer.c b/parse/infer.c
index de50264..aaa26c5 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1257,6 +1257,8 @@ unify(Node *ctx, Type *u, Type *v)
 		if (a->type == Tyname)
 			if (!nameeq(a->name, b->name))
 				typeerror(a, b, ctx, "incompatible types");
+		if (a->type == Typaram && !streq(a->pname, b->pname))
+			typeerror(a, b, ctx, "incompatible types");
 		if (hasargs(a) && hasargs(b)) {
 			/* Only Tygeneric and Tyname should be able to unify. And they
 			 * should have the same names for this to be true. */
-- 
2.43.0


From a927fc1636b66b3a4497208531583a26d8e721a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 50/66] fix: instantiating a parameterised type made its
 environment its own parent

Members of an instantiated struct type share the environment of the type,
which was then set up as its own enclosing scope; looking up a parameter
that it doesn't bind looped forever.
---
 parse/infer.c | 11 +++++++++--
 u.json        |  0
 u1.json       |  0
 u1x.json      |  0
 4 files changed, 9 insertions(+), 2 deletions(-)
 delete mode 100644 u.json
 delete mode 100644 u1.json
 delete mode 100644 u1x.json

diff --git a/parse/infer.c b/parse/infer.c
index aaa26c5..d6fc473 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -339,8 +339,15 @@ typeerror(Type *a, Type *b, Node *ctx, char *msg)
 static void
 setsuperenv(Tyenv *e, Tyenv *super)
 {
-	if (e)
-		e->super = super;
+	Tyenv *s;
+
+	if (!e)
+		return;
+	/* an instantiation's members share its environment */
+	for (s = super; s; s = s->super)
+		if (s == e)
+			return;
+	e->super = super;
 }
 
 /* Type parameters that are bound outside are the same ones,
diff --git a/u.json b/u.json
deleted file mode 100644
index e69de29..0000000
diff --git a/u1.json b/u1.json
deleted file mode 100644
index e69de29..0000000
diff --git a/u1x.json b/u1x.json
deleted file mode 100644
index e69de29..0000000
-- 
2.43.0


From cc9248d5e1afea4dd18554bc7a2b6961db57f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 51/66] fix: arrays and pointers of a type parameter implement
 traits

An implementation for @a[n] or @a# with a trait bound was not found for an
array of, or a pointer to, a type parameter of a generic that has the trait.
---
 parse/infer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index d6fc473..33de564 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -3064,7 +3064,8 @@ addtraittab(Traitmap *m, Trait *tr, Type *ty)
 	case Tygeneric:
 	case Typaram:
 		for (i = 0; i < Ntypes; i++) {
-			if (i == Typaram)
+			/* elements may be parameters of a generic */
+			if (i == Typaram && m == traitmap)
 				continue;
 			if (!m->sub[i])
 				m->sub[i] = mktraitmap();
-- 
2.43.0


From 70a897d559a6680b94d2911cf2890ee70539a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:21 +0000
Subject: [PATCH 52/66] fix: an implementation for a tuple applied to tuples of
 any length

A pattern with a different number of parts matched, with the lowest rank;
6m then aborted in fillsubst, or called the alternatives ambiguous.
---
 parse/infer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 33de564..8209798 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -896,7 +896,7 @@ tymatchrank(Type *pat, Type *to)
 		break;
 	default:
 		if (pat->nsub != to->nsub)
-			break;
+			return -1;
 		if (pat->type == to->type)
 			match = 1;
 		for (i = 0; i < pat->nsub; i++) {
-- 
2.43.0


From 1a1217ab9db511e0e517a261a6ab79330de3504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 53/66] fix: names applied to type parameters were merged on
 use whatever their traits

---
 parse/use.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/use.c b/parse/use.c
index 5b01860..a1b978e 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -800,7 +800,9 @@ fixtypemappings(Stab *st)
 
 	for (i = 0; i < ntypefix; i++) {
 		old = *typefix[i].dest;
-		if (old->type == Tyname || old->type == Tygeneric) {
+		/* a name applied to type parameters means their traits too,
+		 * which depend on where it stands */
+		if (old->type == Tygeneric || (old->type == Tyname && !hasparams(old))) {
 			t = tydedup(old);
 			*typefix[i].dest = t;
 		}
-- 
2.43.0


From 3f2af3b3bf01f41a5a471bb333f1f46f68c9b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 54/66] fix: a definition before its prototype in the package
 was emitted twice

---
 parse/gram.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/gram.y b/parse/gram.y
index 9b8f36e..914e2b8 100644
--- a/parse/gram.y
+++ b/parse/gram.y
@@ -381,11 +381,14 @@ pkgbody : pkgitem
 
 pkgitem : decl {
 		size_t i;
+		int hasinit;
 		for (i = 0; i < $1.nn; i++) {
 			$1.nl[i]->decl.vis = Visexport;
 			$1.nl[i]->decl.isglobl = 1;
+			/* putdcl can merge in the init of an earlier definition */
+			hasinit = $1.nl[i]->decl.init != NULL;
 			putdcl(file.globls, $1.nl[i]);
-			if ($1.nl[i]->decl.init)
+			if (hasinit)
 				lappend(&file.stmts, &file.nstmts, $1.nl[i]);
 		}
 	}
-- 
2.43.0


From 725d68967ea992014c632852808e266dae0a741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:05 +0000
Subject: [PATCH 55/66] fix: integer literals were cut to 32 bits in .use files

---
 mbld/libs.myr |  2 +-
 parse/parse.h |  2 +-
 parse/use.c   |  4 ++--
 util/pack.c   | 16 ++++++++++++++++
 util/util.h   |  2 ++
 5 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/mbld/libs.myr b/mbld/libs.myr
index 66d0957..37460ef 100644
--- a/mbld/libs.myr
+++ b/mbld/libs.myr
@@ -23,7 +23,7 @@ pkg bld =
 ;;
 
 /* Keep in sync with parse/parse.h */
-const Abiversion = 23
+const Abiversion = 24
 
 const builtlib = {b, mt, dep, dyndep
 	var ldep, l, u
diff --git a/parse/parse.h b/parse/parse.h
index e3b402f..b45118c 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -1,4 +1,4 @@
-#define Abiversion 23
+#define Abiversion 24
 
 typedef struct Srcloc Srcloc;
 typedef struct Tysubst Tysubst;
diff --git a/parse/use.c b/parse/use.c
index a1b978e..3bc3083 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -528,7 +528,7 @@ pickle(FILE *fd, Node *n)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	wrint(fd, n->lit.chrval);	break;
-		case Lint:	wrint(fd, n->lit.intval);	break;
+		case Lint:	wrlong(fd, n->lit.intval);	break;
 		case Lflt:	wrflt(fd, n->lit.fltval);	break;
 		case Lstr:	wrlenstr(fd, n->lit.strval);	break;
 		case Llbl:	wrstr(fd, n->lit.lblval);	break;
@@ -651,7 +651,7 @@ unpickle(FILE *fd)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	n->lit.chrval = rdint(fd);	break;
-		case Lint:	n->lit.intval = rdint(fd);	break;
+		case Lint:	n->lit.intval = rdlong(fd);	break;
 		case Lflt:	n->lit.fltval = rdflt(fd);	break;
 		case Lstr:	rdlenstr(fd, &n->lit.strval);	break;
 		case Llbl:	n->lit.lblval = rdstr(fd);	break;
diff --git a/util/pack.c b/util/pack.c
index 6457ba0..59cbea1 100644
--- a/util/pack.c
+++ b/util/pack.c
@@ -175,6 +175,22 @@ rdlenstr(FILE *fd, Str *str)
 	str->buf[str->len] = '\0';
 }
 
+void
+wrlong(FILE *fd, vlong val)
+{
+	byte buf[8];
+	be64(val, buf);
+	wrbuf(fd, buf, 8);
+}
+
+vlong
+rdlong(FILE *fd)
+{
+	byte buf[8];
+	rdbuf(fd, buf, 8);
+	return host64(buf);
+}
+
 void
 wrflt(FILE *fd, double val)
 {
diff --git a/util/util.h b/util/util.h
index be09dfc..197078a 100644
--- a/util/util.h
+++ b/util/util.h
@@ -148,6 +148,8 @@ void wrbyte(FILE *fd, char val);
 char rdbyte(FILE *fd);
 void wrint(FILE *fd, long val);
 long rdint(FILE *fd);
+void wrlong(FILE *fd, vlong val);
+vlong rdlong(FILE *fd);
 void wrstr(FILE *fd, char *val);
 char *rdstr(FILE *fd);
 void wrlenstr(FILE *fd, Str str);
-- 
2.43.0


From 3053b5d68dfe43d8b819ae66254afb9d64c003f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 56/66] fix: a generic implementation of a trait from elsewhere
 could not use its own file's names

---
 parse/infer.c      |  4 ++++
 parse/specialize.c | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 8209798..96b509a 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1925,6 +1925,10 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		s = getdcl(ns, args[0]);
 		if (!s)
 			fatal(n, "undeclared var %s", ctxstr(args[0]));
+		/* the trait an exported implementation is for may come from
+		 * elsewhere, and it will be specialized there */
+		if (s->decl.isglobl && !args[0]->name.ns)
+			setns(args[0], s->decl.name->name.ns);
 		if (n->expr.param && !s->decl.trait)
 			fatal(n, "var %s must refer to a trait decl", ctxstr(args[0]));
 		pushenv(s->decl.env);
diff --git a/parse/specialize.c b/parse/specialize.c
index 6e8c6fd..4530d6c 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -566,8 +566,15 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	if (debugopt['S'])
 		printf("specializing [%d]%s => %s\n", g->loc.line,
 			namestr(g->decl.name), namestr(n));
-	/* namespaced names need to be looked up in context. */
-	pushstab(st);
+	/*
+	 * namespaced names need to be looked up in context. An
+	 * implementation is in the context of its file, and not that
+	 * of the trait.
+	 */
+	if (gnode->decl.trait && !g->decl.isimport)
+		pushstab(file.globls);
+	else
+		pushstab(st);
 
 	/* specialize */
 	tsmap = mksubst();
-- 
2.43.0


From 829b34e22ca8f3dfcfde8d79aca14fee7d75be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 57/66] fix: the types of an exported implementation were left
 unresolved

---
 parse/infer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 96b509a..77b9543 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2883,6 +2883,9 @@ typesub(Node *n, int noerr)
 		break;
 	case Nimpl:
 		pushenv(n->impl.env);
+		n->impl.type = tyfix(n, n->impl.type, noerr);
+		for (i = 0; i < n->impl.naux; i++)
+			n->impl.aux[i] = tyfix(n, n->impl.aux[i], noerr);
 		putimpl(curstab(), n);
 		popenv(n->impl.env);
 	case Nname: case Nuse:
-- 
2.43.0


From 0034322f6adaf7f007520077b65dca57f8640372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 58/66] fix: what a generic's local initialisers refer to was
 not exported with it

---
 parse/export.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/export.c b/parse/export.c
index fb7b05f..aacb6a5 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -188,7 +188,7 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 			n->decl.vis = Vishidden;
 		n->decl.isexportval = isexportval(n);
 		if (n->decl.isexportval || ingeneric)
-			tagnode(st, n->decl.init, n->decl.isgeneric, hidelocal);
+			tagnode(st, n->decl.init, n->decl.isgeneric || (ingeneric && !n->decl.isglobl), hidelocal);
 		break;
 	case Nfunc:
 		tagtype(st, n->func.type, ingeneric, hidelocal);
-- 
2.43.0


From 53ed8921af8ddb0fc90f49b8ce2b0dfed1858497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:35 +0000
Subject: [PATCH 59/66] fix: a trait used from two files was two traits if its
 own file does not need it

---
 parse/use.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/use.c b/parse/use.c
index 3bc3083..23ef905 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -1019,6 +1019,9 @@ foundextlib:
 			tr = traitunpickle(f);
 			tr->vis = vis;
 			puttrait(s, tr->name, tr);
+			/* names mean the first one loaded, so impls should too */
+			if (!hthas(trdeduptab, tr->name))
+				htput(trdeduptab, tr->name, tr);
 			for (i = 0; i < tr->nproto; i++) {
 				putdcl(s, tr->proto[i]);
 				tr->proto[i]->decl.ishidden = tr->ishidden;
-- 
2.43.0


From 741981a6c4b345b2c5da84a708bed245d85a8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:34 +0000
Subject: [PATCH 60/66] fix: package-local types were visible outside of merged
 packages

---
 parse/use.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/use.c b/parse/use.c
index 23ef905..fb598e1 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -228,6 +228,7 @@ typickle(FILE *fd, Type *ty)
 	}
 	wrbyte(fd, ty->type);
 	wrbyte(fd, ty->vis);
+	wrbool(fd, ty->ispkglocal);
 	wrint(fd, ty->nspec);
 	for (i = 0; i < ty->nspec; i++) {
 		wrint(fd, ty->spec[i]->ntrait);
@@ -376,6 +377,7 @@ tyunpickle(FILE *fd)
 	ty->isimport = 1;
 	if (rdbyte(fd) == Vishidden)
 		ty->ishidden = 1;
+	ty->ispkglocal = rdbool(fd);
 	ty->nspec = rdint(fd);
 	ty->spec = malloc(ty->nspec * sizeof(Traitspec*));
 	for (i = 0; i < ty->nspec; i++) {
-- 
2.43.0


From 31cdaa8715c09eee5e13fa7ca4f10e39f60d8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:46 +0000
Subject: [PATCH 61/66] fix: a rotation of signed integers cast to unsigned was
 taken for one of unsigned ones

---
 6/isel.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index c65e328..4f5c510 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -904,11 +904,9 @@ static Loc*
 rolop(Isel *s, Node *n, Node *l, Node *r)
 {
 	int64_t lv, rv;
-	Type *ty;
 
-	ty = tybase(exprtype(n));
-
-	if (!istyunsigned(ty))
+	/* the shifts decide: n may be cast to another type of the same size */
+	if (!istyunsigned(exprtype(l)) || !istyunsigned(exprtype(r)))
 		return NULL;
 	if (exprop(l) != Obsl && exprop(l) != Obsr)
 		return NULL;
-- 
2.43.0


From fa87340c36bde3f3bf1a7a24e4e6ca35d2109463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:43 +0000
Subject: [PATCH 62/66] fix: the type descriptions said that a bool takes no
 room and a function 8 bytes

A value after a bool of a named type was read from the same place: std.put("{} {}", (true : b), (false : b)) printed true twice.
---
 lib/std/introspect.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/introspect.myr b/lib/std/introspect.myr
index 5198aeb..a888edb 100644
--- a/lib/std/introspect.myr
+++ b/lib/std/introspect.myr
@@ -268,7 +268,7 @@ const typeinfo = {ti
 	match ti[0]
 	| Encnone:	-> [.size=0, .align=1]
 	| Encvoid:	-> [.size=0, .align=1]
-	| Encbool:	-> [.size=0, .align=1]
+	| Encbool:	-> [.size=1, .align=1]
 	| Encchar:	-> [.size=4, .align=4]
 
 	| Encint8:	-> [.size=1, .align=1]
@@ -289,7 +289,7 @@ const typeinfo = {ti
 
 	/* compound types */
 	| Encptr:	-> [.size=8, .align=8]
-	| Encfunc:	-> [.size=8, .align=8]
+	| Encfunc:	-> [.size=16, .align=8]
 	| Encslice:	-> [.size=16, .align=8]
 
 	| Encarray: 	-> gettypeinfo(ti[1:])
-- 
2.43.0


From 9dd40722c2b94193a0733ca43af87c7cce6b5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 63/66] fix: the labels of a generic function were defined once
 per specialization

---
 parse/specialize.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index 4530d6c..96f4f7c 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -14,6 +14,9 @@
 #include "parse.h"
 
 static Node *specializenode(Node *g, Tysubst *tsmap);
+
+/* labels of the specialization being made, by their generic name */
+static Htab *speclbls;
 static void fillsubst(Tysubst *tsmap, Type *to, Type *from);
 
 static void
@@ -335,6 +338,17 @@ fixup(Node *n)
 	}
 }
 
+/* every specialization is assembled, so each needs labels of its own */
+static char *
+speclbl(char *lbl)
+{
+	char buf[128];
+
+	if (!hthas(speclbls, lbl))
+		htput(speclbls, lbl, strdup(genlblstr(buf, sizeof buf, "")));
+	return htget(speclbls, lbl);
+}
+
 /*
  * Duplicates a node, replacing all things that
  * need to be specialized to make it concrete
@@ -379,7 +393,7 @@ specializenode(Node *n, Tysubst *tsmap)
 		case Lint:	r->lit.intval = n->lit.intval;	break;
 		case Lflt:	r->lit.fltval = n->lit.fltval;	break;
 		case Lstr:	r->lit.strval = n->lit.strval;	break;
-		case Llbl:	r->lit.lblval = n->lit.lblval;	break;
+		case Llbl:	r->lit.lblval = speclbl(n->lit.lblval);	break;
 		case Lbool:	r->lit.boolval = n->lit.boolval;	break;
 		case Lfunc:	r->lit.fnval = specializenode(n->lit.fnval, tsmap);	break;
 		}
@@ -584,7 +598,9 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	d->decl.isconst = g->decl.isconst;
 	d->decl.isextern = g->decl.isextern;
 	d->decl.isglobl = g->decl.isglobl;
+	speclbls = mkht(strhash, streq);
 	d->decl.init = specializenode(g->decl.init, tsmap);
+	htfree(speclbls);
 	putdcl(st, d);
 
 	fixup(d);
-- 
2.43.0


From 2e74582b20917553ce9559f7185e268b1142bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 64/66] fix: the address of a void variable could not be
 generated

---
 6/isel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/6/isel.c b/6/isel.c
index 4f5c510..2c891be 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1091,6 +1091,9 @@ selexpr(Isel *s, Node *n)
 			r = loclitl(a->lbl);
 		} else {
 			r = locreg(ModeQ);
+			/* a void has an address, but there is no way to move it */
+			if (a->mode == ModeNone)
+				a->mode = ModeB;
 			g(s, Ilea, a, r, NULL);
 		}
 		break;
-- 
2.43.0


From 98fb7d3940f175278354b60b0bf3898cb28dd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 65/66] fix: an imported implementation was also taken for
 functions whose name its own ends in

---
 parse/use.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse/use.c b/parse/use.c
index fb598e1..4bcf3a6 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -863,7 +863,7 @@ static void
 protomap(Trait *tr, Type *ty, Node *dcl)
 {
 	size_t i, len;
-	char *protoname, *dclname, *p;
+	char *protoname, *dclname;
 	Node *proto, *n;
 	Stab *st;
 
@@ -878,8 +878,7 @@ protomap(Trait *tr, Type *ty, Node *dcl)
 			proto = tr->proto[i];
 		protoname = declname(proto);
 		len = strlen(protoname);
-		p = strstr(dclname, protoname);
-		if (!p || p[len] != '$')
+		if (strncmp(dclname, protoname, len) || dclname[len] != '$')
 			continue;
 		if (hthas(proto->decl.impls, ty))
 			continue;
-- 
2.43.0


From 9f80760e9a5343ae72b88dc607565bb887d3a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 66/66] fix: the names of specializations and type descriptions
 were cut off after 1024 bytes

---
 6/asm.h            |  2 +-
 6/gen.c            | 34 ++++++++++++++++++++++++++--------
 6/simp.c           |  3 +--
 6/typeinfo.c       | 12 ++++++------
 parse/specialize.c | 29 ++++++++++++++++++-----------
 5 files changed, 52 insertions(+), 28 deletions(-)

diff --git a/6/asm.h b/6/asm.h
index 6011264..d39a0d4 100644
--- a/6/asm.h
+++ b/6/asm.h
@@ -314,7 +314,7 @@ Loc *locmemls(char *disp, Loc *base, Loc *idx, int scale, Mode mode);
 Loc *loclit(long val, Mode m);
 Loc *loclitl(char *lbl);
 char *asmname(Node *dcl);
-char *tydescid(char *buf, size_t bufsz, Type *ty);
+char *tydescid(Type *ty);
 Loc *coreg(Reg r, Mode m);
 int isfloatmode(Mode m);
 int isintmode(Mode m);
diff --git a/6/gen.c b/6/gen.c
index 06bf257..a1be435 100644
--- a/6/gen.c
+++ b/6/gen.c
@@ -125,8 +125,8 @@ genlocallblstr(char *buf, size_t sz)
 char *
 asmname(Node *dcl)
 {
-	char buf[1024];
-	char *vis, *pf, *ns, *name, *sep;
+	char *vis, *pf, *ns, *name, *sep, *buf;
+	size_t sz;
 	Node *n;
 
 	n = dcl->decl.name;
@@ -145,12 +145,14 @@ asmname(Node *dcl)
 	if (name[0] == '.')
 		pf = "";
 
-	bprintf(buf, sizeof buf, "%s%s%s%s%s", pf, ns, sep, name, vis);
-	return strdup(buf);
+	sz = strlen(pf) + strlen(ns) + strlen(sep) + strlen(name) + strlen(vis) + 1;
+	buf = xalloc(sz);
+	bprintf(buf, sz, "%s%s%s%s%s", pf, ns, sep, name, vis);
+	return buf;
 }
 
-char *
-tydescid(char *buf, size_t bufsz, Type *ty)
+static int
+tydescfmt(char *buf, size_t bufsz, Type *ty)
 {
 	char *sep, *ns;
 	char *p, *end;
@@ -160,7 +162,6 @@ tydescid(char *buf, size_t bufsz, Type *ty)
 	ns = "";
 	p = buf;
 	end = buf + bufsz;
-	ty = tydedup(ty);
 	if (ty->type == Tyname) {
 		if (ty->name->name.ns) {
 			ns = ty->name->name.ns;
@@ -179,8 +180,25 @@ tydescid(char *buf, size_t bufsz, Type *ty)
 			ns = file.globls->name;
 			sep = "$";
 		}
-		bprintf(buf, bufsz, "_tydesc%s%s$%d",sep, ns, ty->tid);
+		p += bprintf(p, end - p, "_tydesc%s%s$%d",sep, ns, ty->tid);
 	}
+	return p < end;
+}
+
+char *
+tydescid(Type *ty)
+{
+	char *buf;
+	size_t sz;
+
+	/* an id that is cut off would be shared with other types */
+	ty = tydedup(ty);
+	buf = NULL;
+	sz = 512;
+	do {
+		sz *= 2;
+		buf = xrealloc(buf, sz);
+	} while (!tydescfmt(buf, sz, ty));
 	return buf;
 }
 
diff --git a/6/simp.c b/6/simp.c
index 8521411..a6b8d04 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1094,7 +1094,6 @@ vatypeinfo(Simp *s, Node *n)
 	Node *ti, *tp, *td, *tn;
 	Type *ft, *vt, **st;
 	size_t nst, i;
-	char buf[1024];
 
 	st = NULL;
 	nst = 0;
@@ -1115,7 +1114,7 @@ vatypeinfo(Simp *s, Node *n)
 	tagreflect(vt);
 
 	/* make the decl */
-	tn = mkname(Zloc, tydescid(buf, sizeof buf, vt));
+	tn = mkname(Zloc, tydescid(vt));
 	td = mkdecl(Zloc, tn, mktype(n->loc, Tybyte));
 	td->decl.isglobl = 1;
 	td->decl.isconst = 1;
diff --git a/6/typeinfo.c b/6/typeinfo.c
index 59d34ed..3216c2f 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -107,7 +107,7 @@ tydescsub(Type *ty)
 {
 	Blob **sub, *sz, *bt, *b;
 	size_t i, nsub;
-	char buf[512];
+	char *buf, *id;
 	uint8_t tt;
 	Node *len;
 	int isextern;
@@ -185,8 +185,10 @@ tydescsub(Type *ty)
 			unionmemb(&sub, &nsub, ty->udecls[i]);
 		break;
 	case Tyname:
-		i = bprintf(buf, sizeof buf, "%s", Symprefix);
-		tydescid(buf + i, sizeof buf - i, ty);
+		id = tydescid(ty);
+		i = strlen(Symprefix) + strlen(id) + 1;
+		buf = xalloc(i);
+		bprintf(buf, i, "%s%s", Symprefix, id);
 		isextern = ty->isimport || ty->vis != Visintern;
 		lappend(&sub, &nsub, mkblobref(buf, 0, isextern));
 		break;
@@ -214,7 +216,6 @@ namedesc(Type *ty)
 Blob *
 tydescblob(Type *ty)
 {
-	char buf[512];
 	Blob *b, *sz, *sub;
 
 	if (ty->type == Tyname && hasparams(ty))
@@ -232,8 +233,7 @@ tydescblob(Type *ty)
 	} else {
 		b = tydescsub(ty);
 	}
-	tydescid(buf, sizeof buf, ty);
-	b->lbl = strdup(buf);
+	b->lbl = tydescid(ty);
 	return b;
 }
 
diff --git a/parse/specialize.c b/parse/specialize.c
index 96f4f7c..89c63be 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -488,23 +488,30 @@ specializenode(Node *n, Tysubst *tsmap)
 Node *
 genericname(Node *n, Type *param, Type *t)
 {
-	char buf[1024];
-	char *p;
-	char *end;
+	char *buf, *p, *end;
+	size_t sz;
 	Node *name;
 
 	if (!n->decl.isgeneric)
 		return n->decl.name;
-	p = buf;
-	end = buf + sizeof buf;
-	p += bprintf(p, end - p, "%s", n->decl.name->name.name);
-	if (param) {
+	/* a name that is cut off would be shared with other types */
+	buf = NULL;
+	sz = 512;
+	do {
+		sz *= 2;
+		buf = xrealloc(buf, sz);
+		p = buf;
+		end = buf + sz;
+		p += bprintf(p, end - p, "%s", n->decl.name->name.name);
+		if (param) {
+			p += bprintf(p, end - p, "$");
+			p += tyidfmt(p, end - p, param);
+		}
 		p += bprintf(p, end - p, "$");
-		p += tyidfmt(p, end - p, param);
-	}
-	p += bprintf(p, end - p, "$");
-	p += tyidfmt(p, end - p, t);
+		p += tyidfmt(p, end - p, t);
+	} while (p == end);
 	name = mkname(n->loc, buf);
+	free(buf);
 	if (n->decl.name->name.ns)
 		setns(name, n->decl.name->name.ns);
 	return name;
-- 
2.43.0

