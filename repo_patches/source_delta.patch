From 62888d1d988c770804cd869eb4064bb6dcdf9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:03 +0000
Subject: [PATCH 01/45] fix: multiplying -1 by the smallest one-word integer
 must not trap

---
 src/bin/fl/arb_prec.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 4149779..5d8dd66 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -516,9 +516,12 @@ arbi__mlt(arbi_T x, arbi_T y)
 	wx = x[0]; wy = y[0];
         if(!wx) return(arbi__FromInt(0));
         if(!wy) return(arbi__FromInt(0));
-	wp = wx*wy;
-	if(wy == wp/wx && wx == wp/wy ) /* no overflow? */
-	    return(arbi__FromInt(wp));
+	/* MinWord/-1 traps, so the overflow test below cannot handle it */
+	if( (wx != MinWord) && (wy != MinWord) ) {
+	    wp = wx*wy;
+	    if(wy == wp/wx && wx == wp/wy ) /* no overflow? */
+		return(arbi__FromInt(wp));
+	}
     }
 
     lp = lx + ly; ap = allocate(lx + ly);
-- 
2.43.0


From 171e91888b5a52298c382755765f65a443424907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 02/45] fix: keep compiled regular expressions inside their
 cache

---
 src/bin/fl/voss_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 3e9782a..0d99b85 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -2353,7 +2353,7 @@ compile_regexp(string pattern, int flags)
     }
     // No cached version available.
     int new_idx = -1;
-    if( hole == -1 ) {
+    if( hole != -1 ) {
 	new_idx = hole;
     } else {
 	regfree(&(reg_cache_cexpr[oldest_idx]));
-- 
2.43.0


From 045d02be547eac2236348486cb2c095c1854d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 03/45] fix: printing an integer whose top word is minimal must
 terminate

---
 src/bin/fl/arb_prec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 5d8dd66..f60642f 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -947,7 +947,8 @@ arbi__ToString(arbi_T x, int base)
     for(lgb4 = 4; b4 >> (lgb4+1); lgb4++);
     w = x[lx-1];
     if(w < 0) { w = -w; }
-    for(m = 0; w >> m; m++);
+    /* -MinWord is MinWord, so the bits are counted as unsigned */
+    for(m = 0; (m < WordSize) && (((unsigned s_Word) w) >> m); m++);
     m = (4*(m + WordSize*(lx-1)) + lgb4 - 1)/lgb4 + 1;
     if(x[lx-1] < 0) m++;
     buf = (char *)arbi_alloc((unsigned int) m);
-- 
2.43.0


From ccf5579dab2a5a362ed5ab3c4e162619cb82ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 04/45] fix: int2str must not write past its buffer for long
 integers

---
 src/bin/fl/graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index b6d5810..74672af 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4028,10 +4028,10 @@ traverse_left(g_ptr oroot)
 			    }
 			    break;
 			case P_INT2STR:
-			    Sprintf(buf, "%s",Arbi_ToString(GET_AINT(arg1),10));
 			    SET_TYPE(redex, LEAF);
 			    SET_LEAF_TYPE(redex, STRING);
-			    SET_STRING(redex, wastrsave(stringsp, buf));
+			    SET_STRING(redex, wastrsave(stringsp,
+					    Arbi_ToString(GET_AINT(arg1),10)));
 			    break;
 			case P_IS_CONS:
 			    if( !IS_CONS(arg1) || GET_CONS_HD(arg1) == NULL ) {
-- 
2.43.0


From a710af153cc1d5c7e13ac51b8ba079424cd00532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 05/45] fix: relational products must quantify as asked, not as
 AND

---
 src/bin/fl/new_bdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c4d81e..0f49a8d 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -933,9 +933,9 @@ Rel_prod(formula qv, formula a, formula b, bool existential)
     if( a == ZERO || b == ZERO || a == NOT(b) )
 	BDD_RETURN( ZERO );
     if( a == ONE || (a == b))
-	BDD_RETURN( quantify(b, qv, existential) );
+	BDD_RETURN( quantify(b, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( b == ONE )
-	BDD_RETURN( quantify(a, qv, existential) );
+	BDD_RETURN( quantify(a, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( qv == ONE || qv == ZERO )
 	BDD_RETURN( B_And(a,b) );
 
-- 
2.43.0


From cd7c71998434f7728af99e0cb6c81d1cdc3a372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 06/45] fix: name the variable in the next-state ordering
 warning

---
 src/bin/fl/new_bdd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 0f49a8d..512ce89 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -1066,7 +1066,7 @@ Add_ordering_var(string var)
 {
     unint v;
     if( is_next_state_var(var) ) {
-	Wprintf("Next-state variable (%s) given ordering location. Ignored!\n");
+	Wprintf("Next-state variable (%s) given ordering location. Ignored!\n", var);
     } else {
 	v = f2var(B_Var(var));
 	push_buf(&new_order_tbl, (pointer) &v);
-- 
2.43.0


From 25626f41fa6f4f9f7bb30f9b0375ee43bcb0a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:09 +0000
Subject: [PATCH 07/45] fix: counting models over no variables gives 1 or 0

---
 src/bin/fl/new_bdd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 512ce89..7697fb3 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -1780,6 +1780,7 @@ do_fp_truth_cover_n(g_ptr redex)
 	vs = B_And(vs, v);
 	var_list = GET_CONS_TL(var_list);
     }
+    if( vs == ONE ) vs = ZERO;	/* no variables: the list ends in ZERO */
     MAKE_REDEX_NIL(redex);
     g_ptr tail = redex;
     while( !IS_NIL(funs) ) {
@@ -1921,6 +1922,7 @@ do_fp_truth_cover2_n(g_ptr redex)
 	vs = B_And(vs, v);
 	var_list = GET_CONS_TL(var_list);
     }
+    if( vs == ONE ) vs = ZERO;	/* no variables: the list ends in ZERO */
     MAKE_REDEX_NIL(redex);
     g_ptr tail = redex;
     while( !IS_NIL(funs) ) {
-- 
2.43.0


From 8986c48c8d8c84a3d64330897174638d8b331193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 08/45] hook: forced garbage collections and reorderings under
 VOSS_VERIF

---
 src/bin/fl/graph.c   | 51 ++++++++++++++++++++++++++++++++++++++++++++
 src/bin/fl/new_bdd.c | 14 ++++++++++++
 2 files changed, 65 insertions(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 74672af..a9a377d 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1580,6 +1580,51 @@ Mark(g_ptr node)
     }
 }
 
+#ifdef VOSS_VERIF
+/* Monitoring hooks.  VOSS_VERIF_GC="start,period,reorder" requests a garbage */
+/* collection every period reduction steps once start steps have been made,   */
+/* and a variable reordering at every reorder:th of these (0 is never).       */
+/* At exit, a line of counters is appended to the file VOSS_VERIF_STATS.      */
+extern void	Verif_reorder_asap(bool on);
+extern lunint	Verif_reorders;
+static lunint	Verif_points, Verif_forced, Verif_gcs;
+static lunint	verif_next = 0, verif_period = 0, verif_reorder = 0;
+
+static void
+verif_stats()
+{
+    char *f = getenv("VOSS_VERIF_STATS");
+    FILE *fp;
+    if( f == NULL || (fp = fopen(f, "a")) == NULL ) return;
+    fprintf(fp, "points=%lu forced=%lu gcs=%lu reorders=%lu\n",
+	    (unsigned long) Verif_points, (unsigned long) Verif_forced,
+	    (unsigned long) Verif_gcs, (unsigned long) Verif_reorders);
+    fclose(fp);
+}
+
+static void
+Verif_gc_point()
+{
+    if( Verif_points++ == 0 ) {
+	unsigned long start = 0, period = 0, reorder = 0;
+	char *s = getenv("VOSS_VERIF_GC");
+	if( s != NULL )
+	    sscanf(s, "%lu,%lu,%lu", &start, &period, &reorder);
+	verif_next = start;
+	verif_period = period;
+	verif_reorder = reorder;
+	atexit(verif_stats);
+    }
+    if( verif_period == 0 || Verif_points < verif_next ) return;
+    verif_next = Verif_points + verif_period;
+    Verif_forced++;
+    do_gc_asap = TRUE;
+    Do_gc_asap = TRUE;
+    if( verif_reorder != 0 )
+	Verif_reorder_asap(Verif_forced % verif_reorder == 0);
+}
+#endif
+
 void
 #if TRACK_FREEING
 Do_garbage_collect(string file, int line)
@@ -1595,6 +1640,9 @@ Do_garbage_collect()
 #endif
 
     if( Disable_GC ) return;
+#ifdef VOSS_VERIF
+    Verif_gcs++;
+#endif
     if( RCverbose_GC )
 	FP(fl_gc_fp, "Start garbage collection.");
 
@@ -3091,6 +3139,9 @@ traverse_left(g_ptr oroot)
 	goto ret;
     }
     CHECK_FOR_INTERRUPT;
+#ifdef VOSS_VERIF
+    Verif_gc_point();
+#endif
     if( do_gc_asap || Do_gc_asap ) {
 	Garbage_collect();
     }
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 7697fb3..b9d4d4d 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -1076,6 +1076,17 @@ Add_ordering_var(string var)
     }
 }
 
+#ifdef VOSS_VERIF
+lunint	Verif_reorders;
+
+/* Let the next garbage collection reorder, as after growth of the table */
+void
+Verif_reorder_asap(bool on)
+{
+    insist_on_reorder = on && RCdo_dynamic_var_order;
+}
+#endif
+
 void
 Reorder(g_ptr redex, int times)
 {
@@ -2828,6 +2839,9 @@ garbage_collect()
 	 (nodes_used > (unint) RCdynamic_ordering_threshold))
 	|| insist_on_reorder) )
     {
+#ifdef VOSS_VERIF
+	Verif_reorders++;
+#endif
 	if( user_defined_ordering_flag )
 	    user_defined_reorder();
 	else
-- 
2.43.0


From 18ae67a0a4a07e144f0c22dde7a11c72d390dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:21 +0000
Subject: [PATCH 09/45] fix: a failing component makes a comparison fail

---
 src/bin/fl/graph.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index a9a377d..bc136de 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -113,6 +113,7 @@ static string		s_T;
 static string		s_F;
 static string		s_colon;
 static string		s_seq;
+static g_ptr		equal_failure = NULL;
 static string		s_fseq;
 static string		s_catch;
 static string		s_gen_catch;
@@ -3830,7 +3831,16 @@ traverse_left(g_ptr oroot)
 		    arg2  = traverse_left(GET_APPLY_RIGHT(*(sp+1)));
                     if( is_fail(arg2) )
                         goto arg2_fail2;
-		    res = Is_equal(arg1, arg2, pfn == P_IDENTICAL);
+		    {
+			/* A failing component makes the comparison fail */
+			g_ptr outer = equal_failure;
+			equal_failure = NULL;
+			res = Is_equal(arg1, arg2, pfn == P_IDENTICAL);
+			arg2 = equal_failure;
+			equal_failure = outer;
+			if( arg2 != NULL )
+			    goto arg2_fail2;
+		    }
 		    if( pfn == P_NOT_EQUAL )
 			res = B_Not(res);
 		    SET_TYPE(redex, LEAF);
@@ -5007,8 +5017,16 @@ Is_equal(g_ptr l1, g_ptr l2, bool identical)
         return( B_One() );
     l1 = reduce(l1, FALSE);
     l2 = reduce(l2, FALSE);
-    if( l1 == l2 )
+    if( l1 == l2 && (l1 == NULL || !is_fail(l1)) )
         return( B_One() );
+    if( l1 != NULL && is_fail(l1) ) {
+	equal_failure = l1;
+	return( B_Zero() );
+    }
+    if( l2 != NULL && is_fail(l2) ) {
+	equal_failure = l2;
+	return( B_Zero() );
+    }
     if( l1 == NULL ) {
 	reason = strtemp("Arg1 is NULL but Arg2 is not");
         return( B_Zero() );
-- 
2.43.0


From 43052dd22f4f825571a24d90311a455434945ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 10/45] fix: bev_pow never terminated

---
 src/bin/fl/preamble.fl | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index c27a432..be9b70d 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -755,9 +755,15 @@ overload bv_ashr bv_ashr bv_ashr_bvbv;
 let bv_neg bv = bv_add (bv_NOT bv) (int2bv 1);
 
 // Compute base to the power of n.
-letrec bev_pow {base::bev} {n::bev} =
-    IF (bev_geq n (int2bev 0)) THEN (int2bev 1) ELSE
-    (bev_mul base (bev_pow base (bev_sub n (int2bev 1))))
+let bev_pow {base::bev} {n::bev} =
+    letrec pow acc [] = acc
+        /\ pow acc (b:bs) =
+            let sq = bev_mul acc acc in
+            pow (IF b THEN (bev_mul sq base) ELSE sq) bs
+    in
+    let bits = bev2list n in
+    (hd bits) == bT => error "bev_pow with negative exponent" |
+    pow (int2bev 1) (tl bits)
 ;
 
 // Compute n shifted left by amount.
-- 
2.43.0


From ce43aa42a8a3892a86d668f2532014a351e55232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:22 +0000
Subject: [PATCH 11/45] fix: a nested bITE must not replace the condition of
 the outer one

bITE kept its condition in a static while forcing its branches, and forcing
a branch that is itself a bITE overwrote it.
---
 src/bin/fl/bexpr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f72d8d7..dd7c707 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1053,17 +1053,19 @@ bITE(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr ll = GET_APPLY_LEFT(l);
     g_ptr arg1 = GET_APPLY_RIGHT(ll);
-    current_bexpr_cond = GET_BEXPR(arg1);
-    if( BE_IS_TRUE(current_bexpr_cond) ) {
+    bexpr cond = GET_BEXPR(arg1);
+    if( BE_IS_TRUE(cond) ) {
 	g_ptr arg2 = reduce(GET_APPLY_RIGHT(l), FALSE);
 	OVERWRITE(redex, arg2);
     } else 
-    if( BE_IS_FALSE(current_bexpr_cond) ) {
+    if( BE_IS_FALSE(cond) ) {
 	g_ptr arg3 = reduce(GET_APPLY_RIGHT(redex), FALSE);
 	OVERWRITE(redex, arg3);
     } else {
 	g_ptr arg2 = force(GET_APPLY_RIGHT(l), FALSE);
 	g_ptr arg3 = force(GET_APPLY_RIGHT(redex), FALSE);
+	// Forcing the arguments may have evaluated other bITEs
+	current_bexpr_cond = cond;
 	g_ptr res = Gen_map2(s_bITE, g_be_ite, arg2, arg3, FALSE);
 	OVERWRITE(redex, res);
     }
-- 
2.43.0


From 064310f052ecc464175d233901c206f220623fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 12/45] fix: bv_sum and generalized model counts over no
 variables

The variable list ends in ZERO; an empty conjunction is ONE, so constants
were counted twice.
---
 src/bin/fl/new_bdd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index b9d4d4d..2e19113 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -1308,6 +1308,8 @@ Get_Size_and_Vars(g_ptr funs, g_ptr vars,
 	    *allp = B_And(*allp, v);
 	}
     }
+    /* No variables: the list ends in ZERO */
+    if( *allp == B_One() ) *allp = B_Zero();
 }
 
 
-- 
2.43.0


From 4304b198fa8809fac6c527c296b3ae661cd0d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 13/45] fix: bev_ashr by the width or more leaves the sign bit

---
 src/bin/fl/bev.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bev.c b/src/bin/fl/bev.c
index 8322e59..4ef3b00 100644
--- a/src/bin/fl/bev.c
+++ b/src/bin/fl/bev.c
@@ -877,9 +877,13 @@ bev_ashr(g_ptr redex)
     g_ptr tail = res;
     g_ptr al = a->u.l;
     int len = get_bev_length(al);
-    for(int i = 0; i < len-cnt; i++) {
+    if( cnt >= len ) {
 	APPEND1(tail, GET_CONS_HD(al));
-	al = GET_CONS_TL(al);
+    } else {
+	for(int i = 0; i < len-cnt; i++) {
+	    APPEND1(tail, GET_CONS_HD(al));
+	    al = GET_CONS_TL(al);
+	}
     }
     MAKE_REDEX_EXT_OBJ(redex, bev_oidx, get_bev_rec(res));
 }
-- 
2.43.0


From b707ba19f62c4ade11e25f1d00bfa633918b0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 14/45] fix: bv_sum treated a summed variable as free

Once the free variables were used up, the terminal's variable index was
compared with the summed variable's.
---
 src/bin/fl/bv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/bv.c b/src/bin/fl/bv.c
index 758d3b8..42f1bae 100644
--- a/src/bin/fl/bv.c
+++ b/src/bin/fl/bv.c
@@ -1622,7 +1622,7 @@ get_next_vars(formula *vsp, formula *fsp)
 {
     bool is_free;
     bdd_ptr vp = f_GET_BDDP(*vsp);
-    if( *fsp == ONE ) {
+    if( *fsp == ONE || *fsp == ZERO ) {	/* no more free variables */
 	is_free = FALSE;
     } else {
 	bdd_ptr fp = f_GET_BDDP(*fsp);
-- 
2.43.0


From aa866fea99f007db26908f4ef5c5e7913ab2fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:44 +0000
Subject: [PATCH 15/45] fix: bv_reduce divides by the gcd of all the values

It took the smallest gcd of the value at one point with the others, and
failed on constants.
---
 src/bin/fl/preamble.fl | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index be9b70d..9544a98 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -826,14 +826,13 @@ letrec bv_gcd a b =
 let bv_reduce bv =
     NOT ((bv = int2bv 0) == F) =>
 	error "bv_reduce cannot be applied to bv that might represent 0" |
-    let vs = depends bv in
-    let cond0 = sitlist (\v.\r. NOT (variable v) AND r) vs T in
-    let sub0 = param cond0 in
-    let subrem  = param (NOT cond0) in
-    let bv0 = substitute sub0 bv in
-    let bvrem = substitute subrem bv in
-    let cd = bv_gcd bv0 bvrem in
-    let my_gcd = bv_min cd in
+    // The gcd of one value and a common multiple of the gcd of all of them
+    // is g for every value exactly when g divides them all.
+    letrec gcd_all g =
+	let m = bv_min (bv_abs (bv_gcd (int2bv g) bv)) in
+	m = g => g | gcd_all m
+    in
+    let my_gcd = gcd_all (bv_min (bv_abs bv)) in
     bv_div bv (int2bv my_gcd)
 ;
 
-- 
2.43.0


From 1e8fb49a5af0b4e1aa8b43561912aeb5ecab01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:26 +0000
Subject: [PATCH 16/45] fix: bexpr to BDD conversions with a substitution are
 not cached

Nodes kept the BDD of the first conversion, whatever substitution it used.
---
 src/bin/fl/bexpr.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index dd7c707..66ac2ca 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -544,6 +544,19 @@ bXNOR(g_ptr redex)
     DEC_REF_CNT(r);
 }
 
+// Forget the BDDs computed for the nodes of be
+static void
+clear_bdds(bexpr be)
+{
+    bexpr b = BE_POS(be);
+    if( BE_GET_MARK(b) == 1 ) return;
+    BE_SET_MARK(b, 1);
+    b->has_bdd = 0;
+    if( BE_GET_TYPE(b) != BE_AND ) return;
+    clear_bdds(BE_GET_LEFT(b));
+    clear_bdds(BE_GET_RIGHT(b));
+}
+
 static void
 bexpr2bdd(g_ptr redex)
 {
@@ -553,6 +566,7 @@ bexpr2bdd(g_ptr redex)
     g_ptr sub, bf;
     EXTRACT_2_ARGS(redex, sub, bf);
     create_hash(&bexpr2bdd_sub_tbl, 100, str_hash, str_equ);
+    bool has_sub = !IS_NIL(sub);
     while( !IS_NIL(sub) ) {
         g_ptr pair = GET_CONS_HD(sub);
         string v = GET_STRING(GET_CONS_HD(pair));
@@ -560,7 +574,20 @@ bexpr2bdd(g_ptr redex)
 	insert_hash(&bexpr2bdd_sub_tbl, v, e);
         sub = GET_CONS_TL(sub);
     }
-    MAKE_REDEX_BOOL(redex, be2bdd(GET_BEXPR(bf)));
+    bexpr be = GET_BEXPR(bf);
+    if( has_sub ) {
+	// BDDs cached without the substitution cannot be used
+	unmark(be);
+	clear_bdds(be);
+	unmark(be);
+    }
+    formula res = be2bdd(be);
+    if( has_sub ) {
+	// ...nor the ones cached with it by later conversions
+	clear_bdds(be);
+	unmark(be);
+    }
+    MAKE_REDEX_BOOL(redex, res);
     dispose_hash(&bexpr2bdd_sub_tbl, NULLFCN);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
-- 
2.43.0


From bcef572f09239bc84c60b5445eddbc5d7481157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:26 +0000
Subject: [PATCH 17/45] fix: a SAT query that ran out of time must not stop
 later ones

The solver's interrupt flag was never cleared.
---
 src/bin/fl/minisat_ifc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/fl/minisat_ifc.cc b/src/bin/fl/minisat_ifc.cc
index b7c7643..98aee31 100644
--- a/src/bin/fl/minisat_ifc.cc
+++ b/src/bin/fl/minisat_ifc.cc
@@ -219,6 +219,9 @@ set_SAT_time_limit(int seconds)
     /* make sure handler is installed   */
     signal (SIGVTALRM, signal_interrupt);
 
+    /* an earlier search that ran out of time must not stop this one */
+    Sp->clearInterrupt();
+
     it.it_value.tv_sec     = seconds;
     it.it_value.tv_usec    = 0;
     it.it_interval.tv_sec  = 0;
-- 
2.43.0


From bb1a83ba1852f1434b7aefb94fce74a5b849f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:38 +0000
Subject: [PATCH 18/45] hook: garbage collections at new BDD nodes under
 VOSS_VERIF

---
 src/bin/fl/new_bdd.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 2e19113..24b935f 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -2473,6 +2473,29 @@ PR_uniq_tbl(var_ptr vp)
     }
 }
 
+#ifdef VOSS_VERIF
+/* Monitoring hook.  VOSS_VERIF_BDD="period,reorder" requests a garbage	      */
+/* collection at every period:th new BDD node, with a variable reordering at  */
+/* every reorder:th of these (0 is never): it then happens at the next point  */
+/* where the running operation allows it.				      */
+static void
+Verif_new_node()
+{
+    static lunint   nodes, forced;
+    static unsigned long period, reorder;
+    if( nodes++ == 0 ) {
+	char *s = getenv("VOSS_VERIF_BDD");
+	if( s != NULL )
+	    sscanf(s, "%lu,%lu", &period, &reorder);
+    }
+    if( period == 0 || nodes % period != 0 ) return;
+    forced++;
+    Do_gc_asap = TRUE;
+    if( reorder != 0 && forced % reorder == 0 )
+	Verif_reorder_asap(TRUE);
+}
+#endif
+
 static formula
 find_insert_bdd(var_ptr vp, formula lson, formula rson)
 {
@@ -2534,6 +2557,9 @@ find_insert_bdd(var_ptr vp, formula lson, formula rson)
     (vp->nbr_uniq_tbl)++;
     if( nodes_used > gc_limit )
 	Do_gc_asap = 1;
+#ifdef VOSS_VERIF
+    Verif_new_node();
+#endif
     if( LOAD_FACTOR * vp->sz_uniq_tbl < vp->nbr_uniq_tbl )
 	grow_uniq_tbl(vp);
     return( neg? NOT(ret): ret );
-- 
2.43.0


From 8189271dc8562e911d567e35602ee488417e3872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 19/45] fix: overlapping and empty STE intervals

---
 src/bin/fl/fsm.c | 31 +++++++++++++++++++++----------
 src/bin/fl/fsm.h |  2 +-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3d3bcbf..88fdfbe 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3429,6 +3429,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in weakening list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;   // An empty interval: nothing to do
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3458,6 +3459,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in antecedent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;   // An empty interval: nothing to do
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3503,6 +3505,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in consequent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;   // An empty interval: nothing to do
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3547,6 +3550,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in trace list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;   // An empty interval: nothing to do
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3588,13 +3592,15 @@ process_event(buffer *event_bufp, int time)
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
 	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
-		np->has_trace = TRUE;
+		np->has_trace++;
 		gbv H = *(cur_buf + 2*idx);
 		gbv L = *(cur_buf + 2*idx + 1);
 		record_trace(idx, time, H, L);
 	    } else if( ep->type == end_trace ) {
-		np->has_trace = FALSE;
-		record_trace(idx, time, c_ONE, c_ONE);
+		np->has_trace--;
+		if( !np->has_trace ) {
+		    record_trace(idx, time, c_ONE, c_ONE);
+		}
 	    } else {
 		gbv *buf;
 		event_list_ptr	cur_active = NULL;
@@ -3614,7 +3620,6 @@ process_event(buffer *event_bufp, int time)
 			buf = weak_buf;
 			break;
 		    case end_weak:
-			np->has_weak = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			if( c_EQ(ep->H, c_ZERO) && c_EQ(ep->L, c_ZERO) ) {
 			    if( np->composite >= 0 ) {
@@ -3625,6 +3630,7 @@ process_event(buffer *event_bufp, int time)
 			    }
 			}
 			cur_active = delete_active_event(active_weak_tblp, ep);
+			np->has_weak = (cur_active != NULL);
 			buf = weak_buf;
 			break;
 		    case start_ant:
@@ -3634,9 +3640,9 @@ process_event(buffer *event_bufp, int time)
 			buf = ant_buf;
 			break;
 		    case end_ant:
-			np->has_ant = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			cur_active = delete_active_event(active_ant_tblp, ep);
+			np->has_ant = (cur_active != NULL);
 			buf = ant_buf;
 			break;
 		    case start_cons:
@@ -3645,19 +3651,24 @@ process_event(buffer *event_bufp, int time)
 			buf = cons_buf;
 			break;
 		    case end_cons:
-			np->has_cons = FALSE;
 			cur_active = delete_active_event(active_cons_tblp, ep);
+			np->has_cons = (cur_active != NULL);
 			buf = cons_buf;
 			break;
 		    default:
 			DIE("Should not happen");
 			break;
 		}
-		gbv H = c_ONE;
-		gbv L = c_ONE;
+		// A node is weakened if any of the weakenings apply, whereas
+		// all antecedents and consequents apply at the same time.
+		bool weak = (ep->type == start_weak) || (ep->type == end_weak);
+		gbv H = weak? c_ZERO : c_ONE;
+		gbv L = H;
 		while( cur_active ) {
-		    H = c_AND(H, cur_active->ep->H);
-		    L = c_AND(L, cur_active->ep->L);
+		    gbv eH = cur_active->ep->H;
+		    gbv eL = cur_active->ep->L;
+		    H = weak? c_OR(H, eH) : c_AND(H, eH);
+		    L = weak? c_OR(L, eL) : c_AND(L, eL);
 		    cur_active = cur_active->next;
 		}
 		*(buf + 2*idx)   = H;
diff --git a/src/bin/fl/fsm.h b/src/bin/fl/fsm.h
index e780347..eaa1b92 100644
--- a/src/bin/fl/fsm.h
+++ b/src/bin/fl/fsm.h
@@ -193,7 +193,7 @@ typedef struct nnode_rec {
     unint	    has_weak:1;
     unint	    has_ant:1;
     unint	    has_cons:1;
-    unint	    has_trace:1;
+    unint	    has_trace;	// Number of active trace intervals
     int		    composite:30;
     unint	    is_top_input:1;
     unint	    is_top_output:1;
-- 
2.43.0


From c09dec1bd636ab19b9ee12ad97c20b62ed26d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 20/45] fix: get_ste_result uses the engine of the STE run it
 is asked about

---
 src/bin/fl/fsm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 88fdfbe..a5d2d88 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -9355,6 +9355,7 @@ gen_get_ste_result(g_ptr redex, value_type type)
     }
     string flag = GET_STRING(g_flag);
     gbv res;
+    push_ste(ste);
     if( strcmp(flag, "antOK") == 0 ) {
 	res = ste->assertion_OK;
     } else if( strcmp(flag, "trajOK") == 0 ) {
@@ -9374,12 +9375,14 @@ gen_get_ste_result(g_ptr redex, value_type type)
                    c_AND(ste->validTrajectory,
                         c_AND(ste->checkTrajectory, ste->check_OK)));
     } else {
+	pop_ste();
         MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Unknown type (%s) in (b)get_ste_result",
 				    flag));
         return;
     }
     MAKE_REDEX_GBV(redex, res);
+    pop_ste();
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
-- 
2.43.0


From c5183196a15d86b3c0bd6c15cb2801affab432b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 21/45] fix: antecedents on phase delays apply in the phases
 they are given for

---
 src/bin/fl/fsm.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index a5d2d88..f8f6252 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5784,7 +5784,6 @@ do_phase(ste_ptr ste)
 {
     nnode_ptr np;
     int idx = 0;
-    (ste->cur_time)++;
     FOR_BUF(nodesp, nnode_rec, np) {
 	gbv newH, newL;
 	if( idx >3 && np->composite == -1 ) {
@@ -5799,7 +5798,6 @@ do_phase(ste_ptr ste)
 	}
 	idx++;
     }
-    (ste->cur_time)--;
 }
 
 static int
@@ -8766,6 +8764,10 @@ gSTE(g_ptr redex, value_type type)
 	}
 
 	process_event(event_bufp, t);
+	// Advance the phase delays under the antecedents/weakenings of phase t
+	if( t > min_time ) {
+	    do_phase(ste);
+	}
 	nnode_ptr np;
 	// Put nodes whose weak/ant changed on evaluation list.
 	int idx = 0;
@@ -8774,7 +8776,13 @@ gSTE(g_ptr redex, value_type type)
 		if( np->composite >= 0 ) {
 		    ncomp_ptr c;
 		    c = (ncomp_ptr) M_LOCATE_BUF(compositesp,np->composite);
-		    add_op_todo(c);
+		    if( c->phase_delay ) {
+			// The value computed in the previous phase
+			update_node(ste, idx, *(next_buf+2*idx),
+				    *(next_buf+2*idx+1));
+		    } else {
+			add_op_todo(c);
+		    }
 		} else if( np->composite == -1 ) {
 		    // Input node
 		    update_node(ste, idx, c_ONE, c_ONE);
@@ -8852,7 +8860,6 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	    idx++;
 	}
-	do_phase(ste);
 	if( Do_gc_asap )
 	    Garbage_collect();
     }
-- 
2.43.0


From f358f4ac26cdc643c698c7cc0322c64a4ccc666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 22/45] fix: garbage collection during STE keeps the active
 antecedents

---
 src/bin/fl/fsm.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index f8f6252..500a7d9 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3930,6 +3930,18 @@ mark_trace_entries(pointer key, pointer data)
     }
 }
 
+static void
+mark_active_events(pointer key, pointer data)
+{
+    (void) key;
+    event_list_ptr elp = (event_list_ptr) data;
+    while( elp != NULL ) {
+	gbv_mark(elp->ep->H);
+	gbv_mark(elp->ep->L);
+	elp = elp->next;
+    }
+}
+
 static void
 mark_ste_fn(pointer p)
 {
@@ -3958,6 +3970,9 @@ mark_ste_fn(pointer p)
 	    gbv_mark(*(next_buf+2*i));
 	    gbv_mark(*(next_buf+2*i+1));
 	}
+	scan_hash(&(ste->active_weak_tbl), mark_active_events);
+	scan_hash(&(ste->active_ant_tbl), mark_active_events);
+	scan_hash(&(ste->active_cons_tbl), mark_active_events);
     }
     formula *fp;
     FOR_BUF(weakening_bufp, formula, fp) {
-- 
2.43.0


From adf03fcd056fe9c699e61b88e5dd3f84cfdb1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:10 +0000
Subject: [PATCH 23/45] fix: width of a memory read in a word expression

---
 src/bin/fl/fsm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 500a7d9..cc55a7d 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -4561,8 +4561,8 @@ get_wexpr_size(g_ptr we)
 	return sz;
     }
     int d_sz, a_sz, lines;
-    if( is_W_MEM_READ(we, &d_sz, &lines, &a_sz, &l, &r) ) { return d_sz; }
-    if( is_W_MEM_WRITE(we, &d_sz, &lines, &a_sz, &l, &r, &c) ) {
+    if( is_W_MEM_READ(we, &a_sz, &lines, &d_sz, &l, &r) ) { return d_sz; }
+    if( is_W_MEM_WRITE(we, &a_sz, &lines, &d_sz, &l, &r, &c) ) {
 	we = l;
 	goto size_start;
     }
-- 
2.43.0


From 0aa2c355c02e2c6e6fa546db773f2fe447f018ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:10 +0000
Subject: [PATCH 24/45] fix: a phase delay of a predicate is a phase delay

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index cc55a7d..83ae037 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -4757,7 +4757,7 @@ compile_expr(hash_record *vtblp, string hier, ilist_ptr outs, g_ptr we,
 	return( TRUE );
     }
     if( is_W_PRED(we, &name, &l) ) {
-	if( !compile_expr(vtblp, hier, outs, l, FALSE) ) {
+	if( !compile_expr(vtblp, hier, outs, l, pdel) ) {
 	    return FALSE;
 	}
 	return TRUE;
-- 
2.43.0


From c9b45668417dd2b602efa100b822da4edb93ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:31 +0000
Subject: [PATCH 25/45] fix: STE trace and consequent events keep pending
 antecedent changes

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 83ae037..e913e04 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3590,7 +3590,6 @@ process_event(buffer *event_bufp, int time)
 	} else {
 	    int idx = ep->nd_idx;
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
-	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
 		np->has_trace++;
 		gbv H = *(cur_buf + 2*idx);
@@ -7268,6 +7267,7 @@ initialize(ste_ptr ste, bool trace_all)
 	np->has_ant = FALSE;
 	np->has_cons = FALSE;
 	np->has_trace = FALSE;
+	np->has_ant_or_weak_change = FALSE;
     }
     ncomp_ptr cp;
     FOR_BUF(compositesp, ncomp_rec, cp) {
-- 
2.43.0


From 80f401c1c9057bcd71479c15ffbb56eba949beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 26/45] fix: a refused tbl_insertn leaves the table as it was

---
 src/bin/fl/table.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/fl/table.c b/src/bin/fl/table.c
index 5b003a5..d948dfd 100644
--- a/src/bin/fl/table.c
+++ b/src/bin/fl/table.c
@@ -107,11 +107,16 @@ table_insertn(g_ptr redex)
     g_ptr   g_tbl, kd_list;
     EXTRACT_2_ARGS(redex, g_tbl, kd_list);
     table_ptr tp = (table_ptr) GET_EXT_OBJ(g_tbl);
+    g_ptr start = kd_list;
     while( !IS_NIL(kd_list) ) {
 	g_ptr gp = GET_CONS_HD(kd_list);
 	g_ptr g_key = GET_FST(gp);
 	g_ptr g_data = GET_SND(gp);
 	if( find_hash(&(tp->tbl), g_key) != NULL ) {
+	    // Leave the table as it was
+	    for(g_ptr lp = start; lp != kd_list; lp = GET_CONS_TL(lp)) {
+		delete_hash(&(tp->tbl), (pointer) GET_FST(GET_CONS_HD(lp)));
+	    }
 	    MAKE_REDEX_FAILURE(redex,Fail_pr("tbl_insertn with duplicate key"));
 	    return;
 	} else {
@@ -131,9 +136,14 @@ set_table_insertn(g_ptr redex)
     g_ptr   g_tbl, k_list;
     EXTRACT_2_ARGS(redex, g_tbl, k_list);
     table_ptr tp = (table_ptr) GET_EXT_OBJ(g_tbl);
+    g_ptr start = k_list;
     while( !IS_NIL(k_list) ) {
 	g_ptr g_key = GET_CONS_HD(k_list);
 	if( find_hash(&(tp->tbl), g_key) != NULL ) {
+	    // Leave the table as it was
+	    for(g_ptr lp = start; lp != k_list; lp = GET_CONS_TL(lp)) {
+		delete_hash(&(tp->tbl), (pointer) GET_CONS_HD(lp));
+	    }
 	    MAKE_REDEX_FAILURE(redex,
 			       Fail_pr("set_tbl_insertn with duplicate key"));
 	    return;
-- 
2.43.0


From 540c57d08643976a6948f2e929fc5f651c384f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 27/45] fix: integer arguments beyond the range of int saturate
 instead of crashing

---
 src/bin/fl/arb_prec.c | 14 ++++++++++++++
 src/bin/fl/arb_prec.h |  1 +
 src/bin/fl/graph.c    |  6 +-----
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index f60642f..90443cb 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -11,6 +11,7 @@
 *********************************************************************/
 /* arb_prec.c: arbitrary precision integer arithmetic */
 #include "arb_prec.h"
+#include <limits.h>
 
 /* ------------- Global variables ------------- */
 char	*arbi__errmsg;
@@ -117,6 +118,19 @@ Arbi_ToInt(arbi_T x)
     return(NULL);
 }
 
+// The value of x or, if x is beyond the range of int, the nearest int.
+int
+Arbi_ToNearestInt(arbi_T x)
+{
+    if( Length(x) != 1 )
+	return( Arbi_IsNegative(x)? INT_MIN : INT_MAX );
+    if( *x > INT_MAX )
+	return INT_MAX;
+    if( *x < INT_MIN )
+	return INT_MIN;
+    return( (int) *x );
+}
+
 void
 Arbi_mark(arbi_T p)
 {
diff --git a/src/bin/fl/arb_prec.h b/src/bin/fl/arb_prec.h
index 436f215..bd32727 100644
--- a/src/bin/fl/arb_prec.h
+++ b/src/bin/fl/arb_prec.h
@@ -22,6 +22,7 @@ arbi_T		Arbi_FromString(char *s, int base);
 char		*Arbi_ToString(arbi_T n, int base);
 arbi_T		Arbi_FromInt(long int i);
 long int	*Arbi_ToInt(arbi_T x);
+int		Arbi_ToNearestInt(arbi_T x);
 
 /* Arithmetic operations */
 arbi_T 		Arbi_cpy(arbi_T x);
diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index bc136de..8379524 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1801,11 +1801,7 @@ Can_Fail_Pat_Match(g_ptr node)
 int
 GET_INT(g_ptr node)
 {
-    arbi_T ai;
-    int    ret;
-    ai = GET_AINT(node);
-    ret = (int) (*Arbi_ToInt(ai));
-    return ret;
+    return( Arbi_ToNearestInt(GET_AINT(node)) );
 }
 
 void
-- 
2.43.0


From 5d488141ae9adcb741483753eebd7be37ff00579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 28/45] fix: lastn and butlastn of a negative count

---
 src/bin/fl/list_ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/list_ops.c b/src/bin/fl/list_ops.c
index 3d3f7ce..a37f0b9 100644
--- a/src/bin/fl/list_ops.c
+++ b/src/bin/fl/list_ops.c
@@ -674,6 +674,7 @@ lastn(g_ptr redex)
     g_ptr list;
     EXTRACT_2_ARGS(redex, gcnt, list);
     int cnt = GET_INT(gcnt);
+    if( cnt < 0 ) { cnt = 0; }
     int len = 0;
     for(g_ptr cur = list; !IS_NIL(cur); cur = GET_CONS_TL(cur)) {
 	len++;
@@ -711,6 +712,7 @@ butlastn(g_ptr redex)
     g_ptr list;
     EXTRACT_2_ARGS(redex, gcnt, list);
     int cnt = GET_INT(gcnt);
+    if( cnt < 0 ) { cnt = 0; }
     int len = 0;
     for(g_ptr cur = list; !IS_NIL(cur); cur = GET_CONS_TL(cur)) {
 	len++;
-- 
2.43.0


From dbb285720cbf14eb9bea2f9f2af52778a0d698a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 29/45] fix: negative, zero and overflowing counts in string
 functions

---
 src/bin/fl/voss_strings.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 0d99b85..51cf630 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -1082,6 +1082,7 @@ string_lastn(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     string s = GET_STRING(GET_APPLY_RIGHT(l));
     int cnt = GET_INT(r);
+    if( cnt < 0 ) { cnt = 0; }
     string tmp = strtemp(s);
     int len = strlen(s);
     if( len <= cnt ) {
@@ -1101,6 +1102,7 @@ string_butlastn(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     string s = GET_STRING(GET_APPLY_RIGHT(l));
     int cnt = GET_INT(r);
+    if( cnt < 0 ) { cnt = 0; }
     string tmp = strtemp(s);
     int len = strlen(s);
     if( len <= cnt ) {
@@ -1120,6 +1122,7 @@ string_butfirstn(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     string s = GET_STRING(GET_APPLY_RIGHT(l));
     int cnt = GET_INT(r);
+    if( cnt < 0 ) { cnt = 0; }
     int len = strlen(s);
     if( len < cnt ) {
 	string msg =
@@ -1202,7 +1205,7 @@ string_substr(g_ptr redex)
 	DEC_REF_CNT(r);
 	return;
     }
-    if( (loc + cnt - 1) > len ) {
+    if( cnt > (len - loc + 1) ) {
 	string msg = Fail_pr(
       "loc (%d) plus cnt (%d) greater than length of string (%d) in str_substr", 
 			loc, cnt, len);
@@ -1298,6 +1301,13 @@ string_str_cluster(g_ptr redex)
     string s = GET_STRING(arg1);
     int  sz  = GET_INT(arg2);
     int len  = strlen(s);
+    if( sz <= 0 ) {
+	MAKE_REDEX_FAILURE(redex,
+		Fail_pr("str_cluster: non-positive size %d", sz));
+	DEC_REF_CNT(l);
+	DEC_REF_CNT(r);
+	return;
+    }
     if( (len % sz) != 0 ) {
 	MAKE_REDEX_FAILURE(redex,
 		Fail_pr("str_cluster: string length not a multiple of %d", sz));
-- 
2.43.0


From cd87d2957d4f2ddca3f766e51036d855142353e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:41 +0000
Subject: [PATCH 30/45] fix: gcmp is an order also where differences overflow
 an int

---
 src/bin/fl/list_ops.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/fl/list_ops.c b/src/bin/fl/list_ops.c
index a37f0b9..66289cf 100644
--- a/src/bin/fl/list_ops.c
+++ b/src/bin/fl/list_ops.c
@@ -105,6 +105,9 @@ G_append(g_ptr list1, g_ptr list2)
     return( list1 );
 }
 
+// Differences of these values do not always fit in an int.
+#define CMP3(a, b) (((a) < (b))? -1 : (((a) > (b))? 1 : 0))
+
 int
 Graph_cmp(g_ptr n1, g_ptr n2)
 {
@@ -146,14 +149,14 @@ Graph_cmp(g_ptr n1, g_ptr n2)
 		    case STRING:
 			return( strcmp(GET_STRING(n1), GET_STRING(n2)) );
 		    case BOOL:
-			return( ((int) GET_BOOL(n1)) - ((int) GET_BOOL(n2)) );
+			return( CMP3(GET_BOOL(n1), GET_BOOL(n2)) );
 		    case BEXPR:
-			return( PTR2INT(GET_BEXPR(n1))-PTR2INT(GET_BEXPR(n2)) );
+			return( CMP3(GET_BEXPR(n1), GET_BEXPR(n2)) );
 		    case PRIM_FN:
                         switch ( GET_PRIM_FN(n1) ) {
                             case P_EXTAPI_FN:
-				return( ((int) GET_EXTAPI_FN(n1)) -
-					((int) GET_EXTAPI_FN(n2)) );
+				return( CMP3(GET_EXTAPI_FN(n1),
+					     GET_EXTAPI_FN(n2)) );
                             case P_SSCANF:
                             case P_PRINTF:
                             case P_SPRINTF:
@@ -176,8 +179,7 @@ Graph_cmp(g_ptr n1, g_ptr n2)
 			unint class1 = GET_EXT_OBJ_CLASS(n1);
 			unint class2 = GET_EXT_OBJ_CLASS(n2);
 			if( class1 != class2 ) { return (class1 - class2); }
-			return ( PTR2INT(GET_EXT_OBJ(n1)) -
-				 PTR2INT(GET_EXT_OBJ(n2)) );
+			return ( CMP3(GET_EXT_OBJ(n1), GET_EXT_OBJ(n2)) );
 		    }
 		    case VAR:
 			return( strcmp(GET_VAR(n1),GET_VAR(n2)) );
-- 
2.43.0


From 45e2aa98a0d307decaed51a68a3a2c8a571e3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:54 +0000
Subject: [PATCH 31/45] fix: text longer than 16383 characters printed to
 stdout or stderr was cut

---
 src/bin/fl/error.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/error.c b/src/bin/fl/error.c
index 077360f..63a59aa 100644
--- a/src/bin/fl/error.c
+++ b/src/bin/fl/error.c
@@ -39,22 +39,26 @@ FP_va(odests fp, const string format, va_list arg)
     if( fp == FILE_fp ) {
         vfprintf(odests_fp, format, arg);
     } else {
-	vsnprintf(fbuf, FBUF_MAX_SZ, format, arg);
         if( !gui_mode || use_stdout ) {
+	    // Written directly since the text may be longer than fbuf
+	    va_list arg_copy;
+	    va_copy(arg_copy, arg);
             switch( fp ) {
                 case fl_gc_fp:
                 case bdd_gc_fp:
                 case stdout_fp:
                 case warning_fp:
-                    fprintf(stdout, "%s", fbuf); break;
+                    vfprintf(stdout, format, arg_copy); break;
                 case sim_fp:
                 case err_fp:
-                    fprintf(stderr, "%s", fbuf); break;
+                    vfprintf(stderr, format, arg_copy); break;
                 default:
-                    fprintf(stderr, "%s", fbuf); break;
+                    vfprintf(stderr, format, arg_copy); break;
             }
+	    va_end(arg_copy);
         }
         if( gui_mode ) {
+	    vsnprintf(fbuf, FBUF_MAX_SZ, format, arg);
 	    string safe_buf = make_tcl_safe(fbuf);
             string tmp = protect(safe_buf, NULL);
             switch( fp ) {
-- 
2.43.0


From 2621ba72aa073a1ef0af75043a2f957c56d46c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:42 +0000
Subject: [PATCH 32/45] fix: ord of characters above 127, gen_trim with an
 empty suffix, tcl2list of a trailing backslash

---
 src/bin/fl/graph.c        | 2 +-
 src/bin/fl/voss_strings.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 8379524..c7ae00b 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4063,7 +4063,7 @@ traverse_left(g_ptr oroot)
 			    }
 			    SET_TYPE(redex, LEAF);
 			    SET_LEAF_TYPE(redex, INT);
-			    SET_INT(redex, *(GET_STRING(arg1)));
+			    SET_INT(redex, *((unsigned char *) GET_STRING(arg1)));
 			    break;
                         case P_CHR:
                             if( GET_INT(arg1) < 0 || GET_INT(arg1) > 255 ) {
diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 51cf630..74b4f7e 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -692,7 +692,8 @@ tcl2list(g_ptr redex)
 		}
 		break;
 	    case '\\':
-		c += 2;
+		c++;
+		if( *c ) { c++; }
 		break;
 	    case '{':
 		if( level == 0 ) {
@@ -1273,7 +1274,7 @@ string_gen_trim(g_ptr redex)
     string last = found;
     while( found != NULL ) {
 	last = found;
-	found = strstr(found+1, suff);
+	found = (*found == 0)? NULL : strstr(found+1, suff);
     }
     if( last == NULL ) {
 	string msg = Fail_pr("trim: Cannot find suffix (%s) in string (%s)",
-- 
2.43.0


From 42773171fbd55cb9b336c09845683ca36ed59961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:29 +0000
Subject: [PATCH 33/45] fix: merging vectors changed the order of bits,
 extraction added bits, escaped names below a prefix were split

---
 src/bin/fl/voss_strings.c | 123 ++++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 45 deletions(-)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 74b4f7e..d2527de 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -45,6 +45,7 @@ static rec_mgr	    string_op_rec_mgr;
 static void		begin_show_ops();
 static void		end_show_ops();
 static bool		is_valid_index_or_range(string s);
+static bool		is_escaped_name(string s);
 static range_ptr	merge_indices(range_ptr indices);
 static vec_list_ptr	expand_constant(string_op_ptr sop, string s);
 static range_ptr	make_range_canonical(range_ptr rp);
@@ -67,11 +68,14 @@ static int	        vec_size(vec_ptr vec);
 static string		show_non_contig_vector(vec_ptr vp);
 static sname_list_ptr	show_non_contig_vectors(string_op_ptr sop,
 						vec_list_ptr vlp);
-static sname_list_ptr	show_contig_vector(string_op_ptr sop, vec_ptr vp);
-static sname_list_ptr	show_contig_vectors(string_op_ptr sop, vec_list_ptr vp);
+static sname_list_ptr	show_contig_vector(string_op_ptr sop, vec_ptr vp,
+					   bool keep_order);
+static sname_list_ptr	show_contig_vectors(string_op_ptr sop, vec_list_ptr vp,
+					    bool keep_order);
 static sname_list_ptr	show_merge_list(string_op_ptr sop,
 					merge_list_ptr mlp,
-					bool non_contig_vecs);
+					bool non_contig_vecs,
+					bool keep_order);
 
 static uint64_t		get_timestamp();
 static regex_t		*compile_regexp(string pattern, int flags);
@@ -193,11 +197,15 @@ Split_vector_name(string_op_ptr sop, string name)
                 string e = p;
 		bool done = FALSE;
 		while( !done ) {
-		    while( *e && *e != '[' ) {
+		    while( *e && *e != '[' && !is_escaped_name(e) ) {
 			e++;
 		    }
 		    if( *e == '[' ) e++;
-		    if( *e == 0 || is_valid_index_or_range(e) ) { done = 1; }
+		    if( *e == 0 || is_valid_index_or_range(e) ||
+			is_escaped_name(e) )
+		    {
+			done = 1;
+		    }
 		}
                 char tmp = *e;
                 *e = 0;
@@ -471,7 +479,7 @@ Show_vector(string_op_ptr sop, vec_ptr vec, bool non_contig_vec)
         names->name = show_non_contig_vector(vec);
         names->next = NULL;
     } else {
-        names = show_contig_vector(sop, vec);
+        names = show_contig_vector(sop, vec, TRUE);
     }
     end_show_ops();
     return names;
@@ -486,7 +494,7 @@ Show_vectors(string_op_ptr sop, vec_list_ptr vecs, bool non_contig_vecs)
     if(non_contig_vecs) {
         names = show_non_contig_vectors(sop, vecs);
     } else {
-        names = show_contig_vectors(sop, vecs);
+        names = show_contig_vectors(sop, vecs, TRUE);
     }
     end_show_ops();
     /* fprintf(stderr, " => "); */
@@ -1638,10 +1646,18 @@ is_valid_index_or_range(string s)
 	    return FALSE;
 	} else {
 	    s++;
+	    while( *s == ' ' ) s++;
 	}
     }
 }
 
+// An escaped identifier starts with a backslash and ends with a space.
+static bool
+is_escaped_name(string s)
+{
+    return( *s == '\\' && index(s, ' ') != NULL );
+}
+
 
 static range_ptr
 make_range_canonical(range_ptr rp)
@@ -1660,24 +1676,8 @@ make_range_canonical(range_ptr rp)
     if( rem == NULL ) {
         return rp;
     }
-    if( rp->lower > rem->upper ) {
-        rp->next = rem;
-        return rp;
-    }
-    // Overlap
-    if( rp->upper <= rem->upper ) {
-        if( rp->lower >= rem->lower ) {
-            return rem;
-        }
-        rem->lower = rp->lower;
-        return( make_range_canonical(rem) );
-    }
-    rem->upper = rp->upper;
-    if( rem->lower > rp->lower ) {
-        rem->lower = rp->lower;
-        return( make_range_canonical(rem) );
-    }
-    return rem;
+    rp->next = NULL;
+    return( compress_ranges(rp, rem) );
 }
 
 static vec_ptr
@@ -1713,11 +1713,11 @@ compress_ranges(range_ptr r1, range_ptr r2)
     }
     r1->lower = r2->lower;
     // Can we merge newly formed range with next range?
-    if( r1->next != NULL ) {
-        if( r1->lower == (r1->next->upper+1) ) {
+    while( r1->next != NULL && r1->lower <= (r1->next->upper+1) ) {
+        if( r1->next->lower < r1->lower ) {
             r1->lower = r1->next->lower;
-            r1->next = r1->next->next;
         }
+        r1->next = r1->next->next;
     }
     return( compress_ranges(r1, r2->next) );
 }
@@ -1842,6 +1842,12 @@ is_const(merge_list_ptr mp)
     return( vp && vp->type == TXT && strncmp(vp->u.name, "0b", 2) == 0 );
 }
 
+static bool
+is_single_index(range_ptr rp)
+{
+    return( rp != NULL && rp->next == NULL && rp->upper == rp->lower );
+}
+
 static merge_list_ptr
 gen_extract_vectors(string_op_ptr sop, buffer_ptr vec_buf)
 {
@@ -1985,16 +1991,22 @@ gen_merge_vectors(string_op_ptr sop, buffer_ptr vec_buf)
 		// Potentially can be merged
 		vec_ptr v1 = mp->vec;
 		vec_ptr v2 = mp->next->vec;
+		bool wide_prefix = FALSE;
 		while( v1 &&
 		       (v1->type == TXT ||
 			//range_equ(v1->u.ranges, v2->u.ranges)) )
 			same_range(v1->u.ranges,v2->u.ranges)) )
 		{
+		    if( v1->type == INDEX && !is_single_index(v1->u.ranges) ) {
+			wide_prefix = TRUE;
+		    }
 		    v1 = v1->next;
 		    v2 = v2->next;
 		}
-		if( v1 == NULL ) {
+		if( v1 == NULL || wide_prefix ) {
 		    // Two identical vectors; don't remove duplicates
+		    // Also, merging an inner index below an outer index with
+		    // several values would change the order of the nodes.
 		    not_changed++;
 		    mp = mp->next;
 		} else {
@@ -2075,7 +2087,7 @@ merge_vectors_fl(g_ptr list, g_ptr res, bool non_contig_vecs)
     free_buf(&vec_buf);
     // /
     begin_show_ops();
-    sname_list_ptr nlp = show_merge_list(sop, mlp, non_contig_vecs);
+    sname_list_ptr nlp = show_merge_list(sop, mlp, non_contig_vecs, TRUE);
     record_names_fl(nlp, res);
     end_show_ops();
     End_string_ops(sop);
@@ -2094,7 +2106,7 @@ extract_vectors_fl(g_ptr list, g_ptr res,
     free_buf(&vec_buf);
     // /
     begin_show_ops();
-    sname_list_ptr nlp = show_merge_list(sop, mlp, non_contig_vecs);
+    sname_list_ptr nlp = show_merge_list(sop, mlp, non_contig_vecs, FALSE);
     record_names_fl(nlp, res);
     end_show_ops();
     End_string_ops(sop);
@@ -2103,7 +2115,7 @@ extract_vectors_fl(g_ptr list, g_ptr res,
 // -----------------------------------------------------------------------------
 
 #define SPRINT_RANGE(rp)                                             \
-    { char buf[20];                                                            \
+    { char buf[32];                                                            \
       if(rp->upper == rp->lower) { Sprintf(buf, "%d", rp->upper); }            \
       else { Sprintf(buf, "%d:%d", rp->upper, rp->lower); }                    \
       gen_strappend(tstrings, buf);                                            \
@@ -2147,9 +2159,18 @@ show_non_contig_vectors(string_op_ptr sop, vec_list_ptr vlp)
     return res;
 }
 
+static bool
+has_several_ranges(vec_ptr vp)
+{
+    for(; vp != NULL; vp = vp->next) {
+        if( vp->type == INDEX && vp->u.ranges->next != NULL ) { return TRUE; }
+    }
+    return FALSE;
+}
+
 // todo: assumes '_strtemp' has been called, I think.
 static sname_list_ptr
-show_contig_vector(string_op_ptr sop, vec_ptr vp)
+show_contig_vector(string_op_ptr sop, vec_ptr vp, bool keep_order)
 {
     ASSERT(sop->in_use);
     string str_buf = gen_strappend(tstrings, "");
@@ -2159,15 +2180,26 @@ show_contig_vector(string_op_ptr sop, vec_ptr vp)
         } else {
             sname_list_ptr res = NULL, *tail_ptr = &res;
 	    string end_s = str_buf+strlen(str_buf);
+            // If an inner index will be split, then the values of this one
+            // must be listed one at a time for the order to be kept.
+            bool one_at_a_time = keep_order && has_several_ranges(vp->next);
             for(range_ptr rp = vp->u.ranges; rp != NULL; rp = rp->next) {
-		*end_s = 0;
-		gen_strtemp(tstrings, str_buf);
-                SPRINT_RANGE(rp);
-                sname_list_ptr slp = show_contig_vector(sop, vp->next);
-                // /
-                *tail_ptr = slp;
-                while(slp->next != NULL) { slp = slp->next; }
-                tail_ptr = &slp->next;
+                range_rec cur = *rp;
+                int step = (rp->upper >= rp->lower)? -1 : 1;
+                do {
+                    if( one_at_a_time ) { cur.lower = cur.upper; }
+                    *end_s = 0;
+                    gen_strtemp(tstrings, str_buf);
+                    SPRINT_RANGE((&cur));
+                    sname_list_ptr slp =
+                        show_contig_vector(sop, vp->next, keep_order);
+                    // /
+                    *tail_ptr = slp;
+                    while(slp->next != NULL) { slp = slp->next; }
+                    tail_ptr = &slp->next;
+                    if( cur.lower == rp->lower ) { break; }
+                    cur.upper += step;
+                } while( 1 );
             }
             return res;
         }
@@ -2179,14 +2211,14 @@ show_contig_vector(string_op_ptr sop, vec_ptr vp)
 }
 
 static sname_list_ptr
-show_contig_vectors(string_op_ptr sop, vec_list_ptr vlp)
+show_contig_vectors(string_op_ptr sop, vec_list_ptr vlp, bool keep_order)
 {
     ASSERT(sop->in_use);
     sname_list_ptr res = NULL, *tail_ptr = &res;
     for(; vlp != NULL; vlp = vlp->next) {
         gen_strtemp(tstrings, "");
         sname_list_ptr slp =
-            show_contig_vector(sop, vlp->vec);
+            show_contig_vector(sop, vlp->vec, keep_order);
         // /
         *tail_ptr = slp;
         while(slp->next != NULL) { slp = slp->next; }
@@ -2196,7 +2228,8 @@ show_contig_vectors(string_op_ptr sop, vec_list_ptr vlp)
 }
 
 static sname_list_ptr
-show_merge_list(string_op_ptr sop, merge_list_ptr mlp, bool non_contig_vecs)
+show_merge_list(string_op_ptr sop, merge_list_ptr mlp, bool non_contig_vecs,
+		bool keep_order)
 {
     ASSERT(sop->in_use);
     if(mlp == NULL) {
@@ -2219,7 +2252,7 @@ show_merge_list(string_op_ptr sop, merge_list_ptr mlp, bool non_contig_vecs)
     if(non_contig_vecs) {
         res = show_non_contig_vectors(sop, vlp);
     } else {
-        res = show_contig_vectors(sop, vlp);
+        res = show_contig_vectors(sop, vlp, keep_order);
     }
     return res;
 }
-- 
2.43.0


From 4584b8876b3b33c3bac5f4cb623ab4f859ff49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:29 +0000
Subject: [PATCH 34/45] fix: vec_zip and vec_subtract of multi-dimensional
 vectors

---
 src/vosslib/vector_names.fl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vosslib/vector_names.fl b/src/vosslib/vector_names.fl
index fe35434..3e2cc9e 100644
--- a/src/vosslib/vector_names.fl
+++ b/src/vosslib/vector_names.fl
@@ -79,7 +79,7 @@ let vec_subtract vl1 vl2 =
         let v2s = (assoc b p2) catch [] then
         let in_both = v1s intersect v2s then
         let nds1 = md_expand_vectors (v1s subtract in_both) in
-        let nds2 = md_expand_vectors (v2s subtract in_both) in
+        let nds2 = md_expand_vectors v2s in
         md_extract_vectors (nds1 subtract nds2)
     in
     let rem = flatmap do_subtract (map fst p1) then
@@ -98,11 +98,14 @@ let vec_zip as bs =
         let use = min psz gsz in
         let ps = md_expand_vector pv in
         let gs = md_expand_vector gv in
-        let p1 = hd (md_merge_vectors (firstn use ps)) in
-        let g1 = hd (md_merge_vectors (firstn use gs)) in
+        let p1s = md_merge_vectors (firstn use ps) in
+        let g1s = md_merge_vectors (firstn use gs) in
         let prem = md_merge_vectors (butfirstn use ps) in
         let grem = md_merge_vectors (butfirstn use gs) in
-        (p1,g1):(do_zip (prem@pvs) (grem@gvs))
+        // The first bits of a multi-dimensional vector may not be a vector
+        (length p1s > 1) OR (length g1s > 1) =>
+            do_zip (p1s@prem@pvs) (g1s@grem@gvs) |
+        (hd p1s,hd g1s):(do_zip (prem@pvs) (grem@gvs))
      /\   do_zip [] [] = []
      /\   do_zip pvs gvs =
             eprintf "length mismatch in vec_zip |%S| != |%S|" as bs
-- 
2.43.0


From 1b90c9cde4ef0366770c7fb52a15573f66de442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:45 +0000
Subject: [PATCH 35/45] fix: integers longer than 32767 words were truncated or
 corrupted memory

---
 src/bin/fl/arb_prec.c | 51 ++++++++++++++++++++++++++++---------------
 src/bin/fl/arb_prec.h | 13 +++++------
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 90443cb..7a8441e 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -22,6 +22,8 @@ char	*arbi__errmsg;
 static char	*blocks[MaxBlock];
 static int	BlockIndex = -1;
 static char	*BlockPos;
+/* Chunks too big for a block. Each is preceded by a pointer to the next. */
+static char	*BigChunks = NULL;
 
 /* FreeList entries correspond to roughly exponentially growing chunk
  * sizes.  In particular, for i <= 8, FreeList[i], is a list of chunks
@@ -62,6 +64,7 @@ static void		divmod(arbi_T x, arbi_T y, arbi_T *qr);
 static void		ffree(arbi_T x);
 static void		trim(arbi_T x);
 static char 		*WAMalloc(unint n);
+static void		sweep_chunk(char *t);
 static Word		bv_xor(Word a, Word b);
 static Word		bv_or(Word a, Word b);
 static Word		bv_and(Word a, Word b);
@@ -142,6 +145,24 @@ Arbi_mark(arbi_T p)
     t[-4] = 3;
 }
 
+static void
+sweep_chunk(char *t)
+{
+    switch(t[-4]) {
+	case 0:
+	case 2:  /* not collectible, ignore it */
+	    break;
+	case 1:  /* collectible and unmarked, free it */
+	    arbi_free((void *)t);
+	    break;
+	case 3:  /* collectible and marked, clear the mark */
+	    t[-4] = 1;
+	    break;
+	default:  /* bad tag */
+	    arbi_die("alloc", "arbi_sweep", "bad chunk");
+    }
+}
+
 void
 Arbi_sweep(void)
 {
@@ -152,21 +173,12 @@ Arbi_sweep(void)
         y = blocks[i] + BlockSize;
         for(t = blocks[i]+sizeof(void *); t < y;
         	t += IndexToNbytes(t[-3]) + sizeof(void *)) {
-            switch(t[-4]) {
-                case 0:
-		case 2:  /* not collectible, ignore it */
-		    break;
-                case 1:  /* collectible and unmarked, free it */
-                    arbi_free((void *)t);
-                    break;
-		case 3:  /* collectible and marked, clear the mark */
-		    t[-4] = 1;
-		    break;
-		default:  /* bad tag */
-		    arbi_die("alloc", "arbi_sweep", "bad chunk");
-	    }
+            sweep_chunk(t);
 	}
     }
+    for(t = BigChunks; t != NULL; t = *((char **) (t-2*sizeof(void *)))) {
+	sweep_chunk(t);
+    }
 }
 
 arbi_T
@@ -1006,7 +1018,7 @@ arbi__ToString(arbi_T x, int base)
 /* Here's the scoop on allocation headers:
  *   When a chunk of memory is allocated, we return a pointer, p, that
  *   points to at least nbytes of memory.  The header precedes p.  Let
- *   p be of type char *, then p[-1] and p[-2] are unused by the allocator
+ *   p be of type char *, then p[-8] to p[-5] are unused by the allocator
  *   (but the arithmetic routines use this space).  p[-3] gives the size
  *   of the chunk, and p[-4] gives allocation status as follows.  Let
  *   x = p[-4]
@@ -1085,9 +1097,14 @@ arbi_alloc(unsigned int nbytes)
 
     /* Is the chunk bigger than the blocks we grab from Malloc? */
     nb = IndexToNbytes(indx); /* nbytes <= nb <= 10/9 * nbytes */
-    if(nb >= BlockSize) {
-        /* I don't want to deal with this yet */
-        arbi_die("alloc", "arbi_alloc", "nbytes too big");
+    if(nb + sizeof(void *) >= BlockSize) {
+        /* Give it memory of its own. When freed it goes on the free list. */
+        t = WAMalloc((unint) (nb + 2*sizeof(void *))) + 2*sizeof(void *);
+        *((char **) (t-2*sizeof(void *))) = BigChunks;
+        BigChunks = t;
+        t[-3] = indx;
+        t[-4] = 2;
+        return((void *)t);
     }
 
     /* Is the current block is big enough to satisfy the current request? */
diff --git a/src/bin/fl/arb_prec.h b/src/bin/fl/arb_prec.h
index bd32727..03b783a 100644
--- a/src/bin/fl/arb_prec.h
+++ b/src/bin/fl/arb_prec.h
@@ -86,22 +86,21 @@ typedef int HalfWord;
 #define MaxHalf (~MinHalf)
 #define Abs(x) ((x>=0) ? (x) : -(x))
 
-typedef short Length_T;
-#define Length(x)	(*((Length_T *)(((char *) (x))-2)))
+typedef int Length_T;
+#define Length(x)	(*((Length_T *)(((char *) (x))-8)))
 
 /* An arbitrary precision integer (henceforth called arb_int) is represented
  * by an array of Words.  Let x be of type arbi_T.  The length of the array
- * is given by ((Length_T *)x)[-1].  (We've got a deal with the allocator
+ * is given by ((Length_T *)x)[-2].  (We've got a deal with the allocator
  * that lets us use that space).  Let k be the length of x's array, and let
  * M = 2^WordSize.  Let u = (unsigned long *)x.  Then, the value of x is
  * given by
  *   (M^(k-1) * x[k-1]) + sum_{i=0}^{k-1} u[i] * M^i
  * That is, the most significant digit of x is signed and all of the others
  * are unsigned.
- * Since the number of digits is represented by a short, numbers must have
- * magnitudes less than ~10^315K.  If you're using numbers anywhere near
- * this limit, you should use a different package anyway (e.g. one that
- * uses fast Fermat number transforms for large multiplications).
+ * If you're using numbers anywhere near 10^315K, you should use a different
+ * package anyway (e.g. one that uses fast Fermat number transforms for large
+ * multiplications).
  */
 
 #define Split(w, l, h) \
-- 
2.43.0


From c53a114dd705868927a01732c2404b6e1c3d61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:45 +0000
Subject: [PATCH 36/45] fix: fanout_dfs fails on a node that is not in the fsm

---
 src/bin/fl/fsm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index e913e04..8e55053 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -1721,7 +1721,13 @@ fanout_dfs(g_ptr redex)
     int cnt = 0;
     while( !IS_NIL(nodes) ) {
 	string node = GET_STRING(GET_CONS_HD(nodes));
-	unint idx = name2idx(node);
+	int idx = name2idx(node);
+	if( idx < 0 ) {
+	    pop_fsm();
+	    MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
+	    End_string_ops(sop);
+	    return;
+	}
 	push_buf(&todo_buf, &idx);
 	cnt++;
 	nodes = GET_CONS_TL(nodes);
-- 
2.43.0


From f6ad8279e7eee1830f5d9a4b8d1bffce59a55e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:45 +0000
Subject: [PATCH 37/45] fix: tbl_create and SAT queries with negative sizes and
 limits fail instead of ending fl

---
 src/bin/fl/bexpr.c | 11 +++++++++++
 src/bin/fl/table.c |  5 +++++
 src/lib/hash.c     |  2 +-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 66ac2ca..16f827c 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -757,6 +757,11 @@ bexpr_is_unsat(g_ptr redex)
     bexpr b = BE_POS(be);
     int a = neg? -1*(b->sat_idx) : b->sat_idx;
     int time_limit = GET_INT(gt);
+    if( time_limit < 0 ) {
+	MAKE_REDEX_FAILURE(redex,
+	    Fail_pr("Negative time limit (%d) in bsat", time_limit));
+	return;
+    }
     int res = Find_model(&a, 1, time_limit);
     if( res <= 0 ) {
 	MAKE_REDEX_BOOL(redex, B_One());
@@ -810,6 +815,12 @@ bget_model(g_ptr redex)
     }
 
     int time_limit = GET_INT(arg2);
+    if( time_limit < 0 ) {
+	free_buf(&assumptions);
+	MAKE_REDEX_FAILURE(redex,
+	    Fail_pr("Negative time limit (%d) in bget_model", time_limit));
+	return;
+    }
     int res = Find_model((int *) START_BUF(&assumptions),
 			 COUNT_BUF(&assumptions), time_limit);
     free_buf(&assumptions);
diff --git a/src/bin/fl/table.c b/src/bin/fl/table.c
index d948dfd..9090ecc 100644
--- a/src/bin/fl/table.c
+++ b/src/bin/fl/table.c
@@ -41,6 +41,11 @@ table_create(g_ptr redex)
     g_ptr   g_n;
     EXTRACT_1_ARG(redex, g_n);
     int n = GET_INT(g_n);
+    if( n < 0 ) {
+	MAKE_REDEX_FAILURE(redex,
+			   Fail_pr("tbl_create: negative size (%d)", n));
+	return;
+    }
     table_ptr tp = get_table_rec();
     create_hash(&(tp->tbl), n, G_rec_hash, G_rec_equ);
     MAKE_REDEX_EXT_OBJ(redex, table_oidx, tp);
diff --git a/src/lib/hash.c b/src/lib/hash.c
index 8088384..2283aed 100644
--- a/src/lib/hash.c
+++ b/src/lib/hash.c
@@ -54,7 +54,7 @@ create_hash(hash_record_ptr hp, unint size,
 
     hp->autosize = TRUE;
     i = 0;
-    while( primes[i] < size )
+    while( primes[i] < size && primes[i+1] != 0 )
         i++;
     size = primes[i];
     hp->tbl_size = size;
-- 
2.43.0


From 12cc8af340ebad4ac37d223d85206875f532aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:44 +0000
Subject: [PATCH 38/45] fix: a token of more than 8 kB must not end fl

---
 src/bin/fl/lexer | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/fl/lexer b/src/bin/fl/lexer
index dc8e420..5b33b60 100644
--- a/src/bin/fl/lexer
+++ b/src/bin/fl/lexer
@@ -1,3 +1,9 @@
+%top{
+/* A longer token ends fl, so allow for long (machine generated) strings */
+#define YYLMAX			(1024*1024)
+#define YY_BUF_SIZE		(YYLMAX+16384)
+}
+
 %x EXTERN_PARSING PREPROC_IGNORE
 
 let     [a-zA-Z\_]
-- 
2.43.0


From e065a0690a77a349caa5b7e1531158cf48db251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:44 +0000
Subject: [PATCH 39/45] fix: long names overflowed fixed-size buffers

---
 src/bin/fl/fsm.c    |  3 ++-
 src/bin/fl/graph.c  | 21 ++++++++++++++++-----
 src/bin/fl/pexlif.c |  6 ++++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 8e55053..b18ee16 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5317,7 +5317,8 @@ map_vector(hash_record *vtblp, string hier, string name, bool ignore_missing)
 	if( is_assertion ) {
 	    new_name = name;
 	} else {
-	    sprintf(tmp_name_buf, "_$$%d_%s", undeclared_node_cnt, name);
+	    snprintf(tmp_name_buf, sizeof(tmp_name_buf), "_$$%d_%s",
+		     undeclared_node_cnt, name);
 	    undeclared_node_cnt++;
 	    new_name = wastrsave(stringsp, tmp_name_buf);
 	}
diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index c7ae00b..638672d 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -748,8 +748,13 @@ Make_Debug_Primitive(string name, string file, int line)
     SET_LEAF_TYPE(fn_node, PRIM_FN);
     SET_PRIM_FN(fn_node, P_DEBUG);
     SET_LINE_NBR(fn_node,line_nbr);
-    sprintf(buf, "%s at line %d in file %s", name, line, file);
-    string res = wastrsave(stringsp, buf);
+    /* Neither the name nor the file name need fit in buf */
+    tstr_ptr ts = new_temp_str_mgr();
+    gen_strtemp(ts, name);
+    Sprintf(buf, " at line %d in file ", line);
+    gen_strappend(ts, buf);
+    string res = wastrsave(stringsp, gen_strappend(ts, file));
+    free_temp_str_mgr(ts);
     SET_DEBUG_STRING(fn_node, res);
     return( fn_node );
 }
@@ -4158,8 +4163,13 @@ traverse_left(g_ptr oroot)
 		    arg2  = traverse_left(GET_APPLY_RIGHT(redex));
                     if( is_fail(arg2) )
                         goto arg2_fail2;
-		    Sprintf(buf, "%%%s%d", GET_STRING(arg2), uniq_quant_cnt++);
-		    arg3 = Make_BOOL_leaf(B_Var(wastrsave(stringsp, buf)));
+		    tstr_ptr qts = new_temp_str_mgr();
+		    gen_strtemp(qts, "%");
+		    gen_strappend(qts, GET_STRING(arg2));
+		    Sprintf(buf, "%d", uniq_quant_cnt++);
+		    s = wastrsave(stringsp, gen_strappend(qts, buf));
+		    free_temp_str_mgr(qts);
+		    arg3 = Make_BOOL_leaf(B_Var(s));
 		    SET_APPLY_LEFT(redex, Make_1inp_Primitive(
 						(pfn == P_FORALL)?
 							P_QUANT_FORALL:
@@ -4445,7 +4455,8 @@ traverse_left(g_ptr oroot)
 			ASSERT( IS_CONS(arg3) );
 			res = GET_CONS_HD(arg3);
 			if( is_fail(res) ) {
-			    strcpy(FailBuf, GET_FAIL_STRING(res));
+			    strncpy(FailBuf, GET_FAIL_STRING(res), 4096-1);
+			    FailBuf[4096-1] = 0;
 			    goto fail2;
 			}
 			arg3 = GET_CONS_TL(arg3);
diff --git a/src/bin/fl/pexlif.c b/src/bin/fl/pexlif.c
index b02f8f5..4eddc3c 100644
--- a/src/bin/fl/pexlif.c
+++ b/src/bin/fl/pexlif.c
@@ -1615,10 +1615,12 @@ unfold_pexlif(g_ptr p, unint id)
 string
 find_value_list(g_ptr attrs, string name)
 {
-    sprintf(str_buf, "node_values_%s", name);
+    int plen = strlen("node_values_");
     while( !IS_NIL(attrs) ) {
 	g_ptr key = GET_CONS_HD(GET_CONS_HD(attrs));
-	if( strcmp(str_buf, GET_STRING(key)) == 0 ) {
+	if( strncmp(GET_STRING(key), "node_values_", plen) == 0 &&
+	    strcmp(name, GET_STRING(key)+plen) == 0 )
+	{
 	    return( GET_STRING(GET_CONS_TL(GET_CONS_HD(attrs))) );
 	}
 	attrs = GET_CONS_TL(attrs);
-- 
2.43.0


From 1072d8911ed0c6c03dac4d662e342a7acdc21759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 40/45] fix: saved BDDs and bexprs: variable names with blanks,
 unwritable and damaged files

---
 src/bin/fl/bexpr.c   | 46 ++++++++++++---------
 src/bin/fl/graph.c   |  3 +-
 src/bin/fl/io.c      | 16 +++++++-
 src/bin/fl/new_bdd.c | 96 +++++++++++++++++++++++++++++++++-----------
 src/bin/fl/new_bdd.h |  1 +
 5 files changed, 117 insertions(+), 45 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 16f827c..b64adea 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -40,6 +40,7 @@ static buffer	    bvar_buf;
 static buffer	    bvar_sat_buf;
 static hash_record  bvar_sat_tbl;
 static int	    bexpr_save_cnt;
+static bool	    bexpr_save_bad_name;
 static hash_record  bexpr_save_tbl;
 static string	    s_const_0;
 static string	    s_const_1;
@@ -329,6 +330,7 @@ Save_bexprs(string filename, buffer *roots)
     fprintf(fp, "SAVED_BEXPRS %d\n", COUNT_BUF(roots));
 
     create_hash(&bexpr_save_tbl, 100, be_hash, be_eq);
+    bexpr_save_bad_name = FALSE;
     bexpr_save_cnt = 2;	    // 0=FALSE, 1=TRUE, rest are expressions
     // Now save the bexpr body
     buffer res_buf;
@@ -342,10 +344,13 @@ Save_bexprs(string filename, buffer *roots)
     FOR_BUF(&res_buf, int, ip) {
 	fprintf(fp, "r %+d\n", *ip);
     }
-    fclose(fp);
+    bool ok = !bexpr_save_bad_name;
+    if( ferror(fp) ) { ok = FALSE; }
+    if( fclose(fp) != 0 ) { ok = FALSE; }
     free_buf(&res_buf);
     dispose_hash(&bexpr_save_tbl, NULLFCN);
-    return( TRUE );
+    if( !ok ) { Fail_pr("Failed to save bexprs to %s", filename); }
+    return( ok );
 }
 
 bool
@@ -357,10 +362,10 @@ Load_bexprs(string filename, buffer *results)
 	return( FALSE );
     }
     int cnt;
-    if( fscanf(fp, "SAVED_BEXPRS %d\n", &cnt) != 1 ) {
+    if( fscanf(fp, "SAVED_BEXPRS %d", &cnt) != 1 || fgetc(fp) != '\n' ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+        return( FALSE );
     }
     buffer work_buf;
     new_buf(&work_buf, 1000, sizeof(bexpr));
@@ -368,28 +373,29 @@ Load_bexprs(string filename, buffer *results)
     push_buf(&work_buf, &f);
     f = BE_One();
     push_buf(&work_buf, &f);
-    int line_cnt = 2;
-    while( !feof(fp) ) {
-	int c = fgetc(fp);
-	ungetc(c, fp);
+    int line_cnt = 1;
+    int c;
+    char sl, sr;
+    unint pl, pr;
+    while( (c = fgetc(fp)) != EOF ) {
+	line_cnt++;
 	switch( c ) {
 	    case 'v':
 	    {
-		if( fscanf(fp, "v %s\n", buf) != 1 )
+		string name;
+		if( fgetc(fp) != ' ' || !Load_var_name(fp, &name) )
 		    goto parse_error;
-		line_cnt++;
-		string name = wastrsave(stringsp, buf);
 		bexpr b = BE_Var(name);
 		push_buf(&work_buf, (pointer) &b);
 		break;
 	    }
 	    case 'a':
 	    {
-		char sl, sr;
-		int  pl, pr;
-		if( fscanf(fp, "a %c%d %c%d\n",&sl,&pl,&sr,&pr) != 4 )
+		if( fscanf(fp, " %c%u %c%u", &sl, &pl, &sr, &pr) != 4 ||
+		    fgetc(fp) != '\n' ||
+		    pl >= COUNT_BUF(&work_buf) || pr >= COUNT_BUF(&work_buf) ||
+		    (sl != '-' && sl != '+') || (sr != '-' && sr != '+') )
 		    goto parse_error;
-		line_cnt++;
 		bexpr bl = *((bexpr *) M_LOCATE_BUF(&work_buf, pl));
 		bexpr bel = (sl == '-')? BE_NOT(bl) : bl;
 		bexpr br = *((bexpr *) M_LOCATE_BUF(&work_buf, pr));
@@ -400,11 +406,9 @@ Load_bexprs(string filename, buffer *results)
 	    }
 	    case 'r':
 	    {
-		char sr;
-		int pr;
-		if( fscanf(fp, "r %c%d\n",&sr,&pr) != 2 )
+		if( fscanf(fp, " %c%u", &sr, &pr) != 2 || fgetc(fp) != '\n' ||
+		    pr >= COUNT_BUF(&work_buf) || (sr != '-' && sr != '+') )
 		    goto parse_error;
-		line_cnt++;
 		bexpr br = *((bexpr *) M_LOCATE_BUF(&work_buf, pr));
 		bexpr ber = (sr == '-')? BE_NOT(br) : br;
 		push_buf(results, &ber);
@@ -414,6 +418,8 @@ Load_bexprs(string filename, buffer *results)
 		goto parse_error;
 	}
     }
+    if( cnt < 0 || (unint) cnt != COUNT_BUF(results) )
+	goto parse_error;
     fclose(fp);
     free_buf(&work_buf);
     return( TRUE );
@@ -1815,6 +1821,8 @@ be_save(FILE *fp, bexpr be)
     switch( b->type ) {
 	case BE_VAR:
 	{
+	    if( strchr(BE_GET_VAR(b), '\n') != NULL )
+		bexpr_save_bad_name = TRUE;
 	    fprintf(fp, "v %s\n", BE_GET_VAR(b));
 	    insert_hash(&bexpr_save_tbl, b, INT2PTR(bexpr_save_cnt));
 	    res = bexpr_save_cnt;
diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 638672d..5d65210 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -3889,8 +3889,9 @@ traverse_left(g_ptr oroot)
 			    push_buf(&roots, &b);
 			    ntmp = GET_CONS_TL(ntmp);
 			}
-			Save_BDDs(GET_STRING(arg1), &roots);
+			bool saved = Save_BDDs(GET_STRING(arg1), &roots);
 			free_buf(&roots);
+			if( !saved ) goto fail2;
 			MAKE_REDEX_BOOL(redex, B_One());
 			goto finish2;
 		    }
diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 56dd5da..747579b 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -1011,9 +1011,21 @@ Save_graph(string type_sig, string file_name, g_ptr node)
     write_g_ptr(fp, node);
     fclose(fp);
     // Bexpr saving
-    Save_bexprs(bexpr_file_name, &(bexpr_buf.buf));
+    bool saved = Save_bexprs(bexpr_file_name, &(bexpr_buf.buf));
     // BDD saving
-    Save_BDDs(bool_file_name, &(bool_buf.buf));
+    if( saved ) {
+	saved = Save_BDDs(bool_file_name, &(bool_buf.buf));
+    }
+    if( !saved ) {
+	free_uniq_buf(&bexpr_buf);
+	free_uniq_buf(&bool_buf);
+	free_uniq_buf(&string_buf);
+	Sprintf(buf, "rm -rf %s", dir);
+	int i  = system(buf);
+	(void) i;
+	Serialize_End();
+	return FALSE;
+    }
     // String saving
     Sprintf(buf, "%s/strings", dir);
     fp = fopen(buf, "w");
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 24b935f..e3f7093 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -821,6 +821,7 @@ Save_BDDs(string filename, buffer *roots)
 	Fail_pr("Cannot open %s for writing BDDs", filename);
 	return( FALSE );
     }
+    bool ok = TRUE;
     fprintf(fp, "SAVED_BDDS %d\n", COUNT_BUF(roots));
     // Now write out all variables used
     create_hash(&save_var_tbl, 100, str_hash, str_equ);
@@ -834,6 +835,7 @@ Save_BDDs(string filename, buffer *roots)
     for(unint i = 0; i < vars; i++) {
 	if( B_Width(i) > 0 ) {
 	    string name = Get_Var_Name(i);
+	    if( strchr(name, '\n') != NULL ) { ok = FALSE; }
 	    fprintf(fp, "v %s\n", name);
 	    insert_hash(&save_var_tbl, (pointer) name, FORMULA2PTR(vcnt));
 	    vcnt++;
@@ -854,10 +856,26 @@ Save_BDDs(string filename, buffer *roots)
 	    fprintf(fp, "r +%d\n", i);
 	}
     }
-    fclose(fp);
+    if( ferror(fp) ) { ok = FALSE; }
+    if( fclose(fp) != 0 ) { ok = FALSE; }
     dispose_hash(&bdd_save_tbl, NULLFCN);
     dispose_hash(&save_var_tbl, NULLFCN);
-    return( TRUE );
+    if( !ok ) { Fail_pr("Failed to save BDDs to %s", filename); }
+    return( ok );
+}
+
+/* The name of a variable is the rest of its line (names may have blanks). */
+bool
+Load_var_name(FILE *fp, string *namep)
+{
+    int c;
+    tstr_ptr ts = new_temp_str_mgr();
+    string res = gen_strtemp(ts, "");
+    while( (c = fgetc(fp)) != EOF && c != '\n' )
+	res = gen_charappend(ts, c);
+    *namep = wastrsave(stringsp, res);
+    free_temp_str_mgr(ts);
+    return( c == '\n' );
 }
 
 bool
@@ -870,42 +888,74 @@ Load_BDDs(string filename, buffer *results)
     }
 
     int cnt;
-    if( fscanf(fp, "SAVED_BDDS %d\n", &cnt) != 1 ) {
+    if( fscanf(fp, "SAVED_BDDS %d", &cnt) != 1 || fgetc(fp) != '\n' ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+        return( FALSE );
     }
+    int line_cnt = 1;
     buffer var_map;
     new_buf(&var_map, 100, sizeof(formula));
-    while( fscanf(fp, "v %s\n", buf) == 1 ) {
-	string name = wastrsave(stringsp, buf);
-	formula b = B_Var(name);
-	push_buf(&var_map, (pointer) &b);
-    }
     buffer work_buf;
     new_buf(&work_buf, 1000, sizeof(formula));
     formula f = B_Zero();
     push_buf(&work_buf, &f);
     unint vidx, l, r;
     char sl, sr;
-    while( fscanf(fp, "n %d %c%d %c%d\n", &vidx, &sl, &l, &sr, &r) == 5 ) {
-	formula v = *((formula *) M_LOCATE_BUF(&var_map, vidx));
-	formula pt = *((formula *) M_LOCATE_BUF(&work_buf, l));
-	formula t = (sl == '-') ? B_Not(pt) : pt;
-	formula pe = *((formula *) M_LOCATE_BUF(&work_buf, r));
-	formula e = (sr == '-') ? B_Not(pe) : pe;
-	formula b = B_Ite(v, t, e);
-	push_buf(&work_buf, &b);
-    }
-    while( fscanf(fp, "r %c%d\n", &sr, &r) == 2 ) {
-	formula b = *((formula *) M_LOCATE_BUF(&work_buf, r));
-	b = (sr == '-')? B_Not(b) : b;
-	push_buf(results, &b);
+    int c;
+    while( (c = fgetc(fp)) != EOF ) {
+	line_cnt++;
+	switch( c ) {
+	    case 'v': {
+		string name;
+		if( fgetc(fp) != ' ' || !Load_var_name(fp, &name) )
+		    goto parse_error;
+		formula b = B_Var(name);
+		push_buf(&var_map, (pointer) &b);
+		break;
+	    }
+	    case 'n': {
+		if( fscanf(fp, " %u %c%u %c%u", &vidx, &sl, &l, &sr, &r) != 5 ||
+		    fgetc(fp) != '\n' ||
+		    vidx >= COUNT_BUF(&var_map) ||
+		    l >= COUNT_BUF(&work_buf) || r >= COUNT_BUF(&work_buf) ||
+		    (sl != '-' && sl != '+') || (sr != '-' && sr != '+') )
+		    goto parse_error;
+		formula v = *((formula *) M_LOCATE_BUF(&var_map, vidx));
+		formula pt = *((formula *) M_LOCATE_BUF(&work_buf, l));
+		formula t = (sl == '-') ? B_Not(pt) : pt;
+		formula pe = *((formula *) M_LOCATE_BUF(&work_buf, r));
+		formula e = (sr == '-') ? B_Not(pe) : pe;
+		formula b = B_Ite(v, t, e);
+		push_buf(&work_buf, &b);
+		break;
+	    }
+	    case 'r': {
+		if( fscanf(fp, " %c%u", &sr, &r) != 2 || fgetc(fp) != '\n' ||
+		    r >= COUNT_BUF(&work_buf) || (sr != '-' && sr != '+') )
+		    goto parse_error;
+		formula b = *((formula *) M_LOCATE_BUF(&work_buf, r));
+		b = (sr == '-')? B_Not(b) : b;
+		push_buf(results, &b);
+		break;
+	    }
+	    default:
+		goto parse_error;
+	}
     }
+    if( cnt < 0 || (unint) cnt != COUNT_BUF(results) )
+	goto parse_error;
     free_buf(&var_map);
     free_buf(&work_buf);
     fclose(fp);
     return( TRUE );
+
+  parse_error:
+    free_buf(&var_map);
+    free_buf(&work_buf);
+    fclose(fp);
+    Fail_pr("Illegal format in file %s around line %d", filename, line_cnt);
+    return( FALSE );
 }
 
 void
@@ -3676,7 +3726,7 @@ b_save(FILE *fp, formula f)
     fprintf(fp, "n %d",
 	    PTR2FORMULA(find_hash(&save_var_tbl, (VarTbl+var)->var_name)));
     if( ISNOT(l) )
-	fprintf(fp, " -%d)", il);
+	fprintf(fp, " -%d", il);
     else
 	fprintf(fp, " +%d", il);
     if( ISNOT(r) )
diff --git a/src/bin/fl/new_bdd.h b/src/bin/fl/new_bdd.h
index c4e361f..1dd2313 100644
--- a/src/bin/fl/new_bdd.h
+++ b/src/bin/fl/new_bdd.h
@@ -85,6 +85,7 @@ void		Add_ordering_var(string var);
 void            Reorder(g_ptr redex, int times);
 bool		Save_BDDs(string filename, buffer *roots);
 bool		Load_BDDs(string filename, buffer *results);
+bool		Load_var_name(FILE *fp, string *namep);
 g_ptr		End_ordering();
 int		Get_bdd_size(formula f, int limit);
 void		Get_abstract_depends(g_ptr redex, hash_record *abs_tblp,
-- 
2.43.0


From 400fef1e201941258c17718f8902960c1c462f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 41/45] fix: opening a directory fails instead of ending fl

---
 src/bin/fl/fl.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/fl.c b/src/bin/fl/fl.c
index 93bf9b4..73c14a3 100644
--- a/src/bin/fl/fl.c
+++ b/src/bin/fl/fl.c
@@ -10,6 +10,7 @@
 #include "prefs_ext.h"
 #include <fcntl.h>
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <sys/time.h>
 #include <sys/resource.h>
@@ -123,13 +124,29 @@ Get_DIR(string file_fullname)
     return( wastrsave(stringsp, tmp) );
 }
 
+/* fopen accepts directories for reading, but they cannot be read */
+static FILE *
+open_regular(string name, string mode)
+{
+    struct stat stat_buf;
+    FILE *fp = fopen(name, mode);
+    if( fp != NULL && fstat(fileno(fp), &stat_buf) == 0 &&
+	S_ISDIR(stat_buf.st_mode) )
+    {
+	fclose(fp);
+	errno = EISDIR;
+	return NULL;
+    }
+    return fp;
+}
+
 FILE *
 Tryopen(string name, string mode, string *fullnamep)
 {
     FILE *ret;
     string new_name;
 
-    if( (ret = fopen(name, mode)) != NULL ) {
+    if( (ret = open_regular(name, mode)) != NULL ) {
         if( fullnamep != NULL) {
 	    char *tmp = realpath(name, path_buf);
             *fullnamep = wastrsave(stringsp, tmp);
@@ -139,7 +156,7 @@ Tryopen(string name, string mode, string *fullnamep)
     new_name = strtemp(RCDefault_dir);
     new_name = strappend("/");
     new_name = strappend(name);
-    if( (ret = fopen(new_name, mode)) != NULL ) {
+    if( (ret = open_regular(new_name, mode)) != NULL ) {
         if( fullnamep != NULL) {
 	    char *tmp = realpath(new_name, path_buf);
             *fullnamep = wastrsave(stringsp, tmp);
-- 
2.43.0


From 3fd0a58efee01ac2d6c254b5265bb8d47fc80283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:24 +0000
Subject: [PATCH 42/45] fix: damaged image files and syntax errors after long
 lines ended fl

---
 src/bin/fl/image.c    | 36 ++++++++++++++++++++++++++++++++++--
 src/bin/fl/language.y |  2 +-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/image.c b/src/bin/fl/image.c
index 91fbfbd..c2861dd 100644
--- a/src/bin/fl/image.c
+++ b/src/bin/fl/image.c
@@ -37,6 +37,7 @@ static rec_mgr	    	image_rec_mgr;
 /* ----- Forward definitions local functions ----- */
 static void	 export_to_ppm(FILE *fp, image_ptr ip);
 static string	 get_non_comment_line(FILE *fp);
+static bool	 ok_size(int rows, int cols);
 static void      mark_image_fn(pointer p);
 static void      sweep_image_fn(void);
 static void      save_image_fn(FILE *fp, pointer p);
@@ -169,7 +170,9 @@ import_xpm_image(g_ptr redex)
 			   Fail_pr("Cannot open file %s for reading", file));
 	return;
     }
+    im_read_buf[0] = '\0';
     string line = fgets(im_read_buf, READ_BUF_SIZE, fp);
+    if( line == NULL ) { line = im_read_buf; }
     if( strcmp(line, "/* XPM */\n") != 0 ) {
 	MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Incorrect format\nGot %s\nExpected: %s\n",
@@ -191,7 +194,9 @@ import_xpm_image(g_ptr redex)
     string name = wastrsave(stringsp, start+2);
     int cols, rows, colors, chars;
     line = get_non_comment_line(fp);
-    if( sscanf(line,"\"%d %d %d %d\",\n",&cols,&rows,&colors,&chars) != 4 ) {
+    if( sscanf(line,"\"%d %d %d %d\",\n",&cols,&rows,&colors,&chars) != 4
+	|| !ok_size(rows, cols) || colors < 0 || chars < 1 ||
+	chars >= READ_BUF_SIZE ) {
 	string msg = Fail_pr("Incorrect format\nGot %s\nExpected: %s\n", line,
 			     "\"<cols> <rows> <colors> <chars>\",\n");
 	MAKE_REDEX_FAILURE(redex, msg);
@@ -205,6 +210,13 @@ import_xpm_image(g_ptr redex)
     new_ustrmgr(&lstrings);
     for(int i = 0; i < colors; i++) {
 	line = get_non_comment_line(fp);
+	if( strlen(line) < (size_t) chars + 4 ) {
+	    string msg = Fail_pr("Incorrect format\nGot %s\nExpected: %s\n",
+				 line, "\"<code>\tc <color>\",\n");
+	    MAKE_REDEX_FAILURE(redex, msg);
+	    fclose(fp);
+	    return;
+	}
 	line++;
 	char old = *(line+chars);
 	*(line+chars) = 0;
@@ -243,6 +255,12 @@ import_xpm_image(g_ptr redex)
     }
     for(int r = 0; r < rows; r++) {
 	line = get_non_comment_line(fp);
+	if( strlen(line) < (size_t) cols * chars + 1 ) {
+	    string msg = Fail_pr("Row %d is too short\n", r+1);
+	    MAKE_REDEX_FAILURE(redex, msg);
+	    fclose(fp);
+	    return;
+	}
 	line++;
 	for(int c = 0; c < cols; c++) {
 	    char old = *(line+chars);
@@ -280,10 +298,13 @@ import_ppm_image(g_ptr redex)
 			   Fail_pr("Cannot open file %s for reading", file));
 	return;
     }
+    im_read_buf[0] = '\0';
     string line = fgets(im_read_buf, READ_BUF_SIZE, fp);
+    if( line == NULL ) { line = im_read_buf; }
 
     int cols, rows, color_sz;
-    if( sscanf(line, "P6 %d %d %d", &cols, &rows, &color_sz) != 3 ) {
+    if( sscanf(line, "P6 %d %d %d", &cols, &rows, &color_sz) != 3 ||
+	!ok_size(rows, cols) ) {
 	MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Incorrect format\nGot %s\nExpected: %s\n",
 				   line, "P6 <cols> <rows> 256\n"));
@@ -1159,12 +1180,23 @@ export_to_ppm(FILE *fp, image_ptr ip)
 }
 
 
+static bool
+ok_size(int rows, int cols)
+{
+    if( rows < 0 || cols < 0 ) { return FALSE; }
+    return( cols == 0 || rows <= 0x7fffffff / (int) sizeof(color_rec) / cols );
+}
+
 static string
 get_non_comment_line(FILE *fp)
 {
     string line;
     do {
 	line = fgets(im_read_buf, READ_BUF_SIZE, fp);
+	if( line == NULL ) {
+	    im_read_buf[0] = '\0';
+	    return im_read_buf;
+	}
     } while ( strncmp(line, "/*", 2) == 0 );
     return line;
 }
diff --git a/src/bin/fl/language.y b/src/bin/fl/language.y
index 54342c2..1c06907 100644
--- a/src/bin/fl/language.y
+++ b/src/bin/fl/language.y
@@ -1827,7 +1827,7 @@ yyerror(const char *msg)
     FP(err_fp, "#### Syntax error in file %s, close to line %d: %s\n",
 	    cur_file_name, line_nbr, msg);
     FP(err_fp, "%s\n", prev_line);
-    for(i = 0; i < strlen(prev_line)-last_inp; i++) {
+    for(i = 0; i+last_inp < strlen(prev_line); i++) {
 	if( prev_line[i] == '\t' )
 	    FP(err_fp, "\t");
 	else
-- 
2.43.0


From 1f38de82c79c5544e747e0958909770c686ce43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:04 +0000
Subject: [PATCH 43/45] fix: a definition whose function was rejected ended fl

---
 src/bin/fl/graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 5d65210..c57744f 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1765,9 +1765,9 @@ Print_leaf(g_ptr node, odests fp)
 static bool
 is_P_PCATCH(g_ptr node)
 {
-    if( GET_TYPE(node) != APPLY_ND ) return( FALSE );
+    if( node == NULL || GET_TYPE(node) != APPLY_ND ) return( FALSE );
     node = GET_APPLY_LEFT(node);
-    if( GET_TYPE(node) != LEAF ) return( FALSE );
+    if( node == NULL || GET_TYPE(node) != LEAF ) return( FALSE );
     if( !IS_PRIM_FN(node) ) return( FALSE );
     return( GET_PRIM_FN(node) == P_PCATCH );
 }
-- 
2.43.0


From 0db99cea910d254ce7116aaf2b0bf349b6e2073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:27 +0000
Subject: [PATCH 44/45] fix: file names with blanks and shell characters in
 write_T and read_T

---
 src/bin/fl/io.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 747579b..5c8490b 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -977,6 +977,27 @@ Save_get_string_idx(string s)
 #define TAG_VAR		'V'
 #define TAG_EXTOBJ	'O'
 
+// The file name as one word of a shell command, and never an option or
+// the name of a remote file to tar.
+static string
+sh_file_name(string file_name)
+{
+    static tstr_ptr mgr = NULL;
+    if( mgr == NULL ) { mgr = new_temp_str_mgr(); }
+    gen_strtemp(mgr, "'");
+    if( *file_name != '/' ) {
+	gen_strappend(mgr, "./");
+    }
+    for(string p = file_name; *p; p++) {
+	if( *p == '\'' ) {
+	    gen_strappend(mgr, "'\\''");
+	} else {
+	    gen_charappend(mgr, *p);
+	}
+    }
+    return( gen_charappend(mgr, '\'') );
+}
+
 bool
 Save_graph(string type_sig, string file_name, g_ptr node)
 {
@@ -1049,16 +1070,20 @@ Save_graph(string type_sig, string file_name, g_ptr node)
     free_uniq_buf(&bool_buf);
     free_uniq_buf(&string_buf);
     // Tar up the files
-    Sprintf(buf,
+    string cmd = tprintf(
 	    "tar -c -z -C %s -f %s signature bexprs bools strings graph",
-	    dir, file_name);
-    if( system(buf) != 0 ) {
-	Fail_pr("Command '%s' failed????", buf);
-	return FALSE;
+	    dir, sh_file_name(file_name));
+    bool ok = (system(cmd) == 0);
+    if( !ok ) {
+	Fail_pr("Command '%s' failed????", cmd);
     }
     Sprintf(buf, "rm -rf %s", dir);
     int i  = system(buf);
     (void) i;
+    if( !ok ) {
+	Serialize_End();
+	return FALSE;
+    }
     Serialize_End();
     return TRUE;
 }
@@ -1081,7 +1106,8 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     Sprintf(buf, "%s/graph", dir);
     string graph_file_name = wastrsave(stringsp, buf);
     // ------------- Untar file into tmp directory ------------------
-    string cmd = tprintf("tar -C %s -xzf %s", dir, file_name);
+    string cmd = tprintf("tar -C %s -xzf %s", dir,
+			 sh_file_name(file_name));
     int ret;
     if( (ret = system(cmd)) != 0 ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to read %s (return code %d)",
-- 
2.43.0


From 866ec09388c0b81b2c61f6cae6a38e7d25e4374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:27 +0000
Subject: [PATCH 45/45] fix: a saved ste ended fl and lost its traces when read
 in another session

---
 src/bin/fl/fsm.c       | 4 ++--
 src/bin/fl/serialize.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index b18ee16..b39a5d1 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -8531,7 +8531,7 @@ delete_active_event(hash_record *tblp, event_ptr ep)
 	if( next != NULL ) {
 	    insert_hash(tblp, INT2PTR(nd_idx), next);
 	}
-	free_rec(event_list_rec_mgrp, elp);
+	// Not freed: only a pure record manager can be saved.
 	return next;
     }
     event_list_ptr start = elp;
@@ -8543,7 +8543,7 @@ delete_active_event(hash_record *tblp, event_ptr ep)
     }
     ASSERT(elp != NULL);
     prev->next = elp->next;
-    free_rec(event_list_rec_mgrp, elp);
+    // Not freed: only a pure record manager can be saved.
     return start;
 }
 
diff --git a/src/bin/fl/serialize.c b/src/bin/fl/serialize.c
index 5dd0494..c597df5 100644
--- a/src/bin/fl/serialize.c
+++ b/src/bin/fl/serialize.c
@@ -222,13 +222,13 @@ write_pint(FILE *fp, void *pi)
 }
 
 void
-read_pint(FILE *fp, int *ip)
+read_pint(FILE *fp, pointer *pp)
 {
     int i;
     RD_DBG1("int");
     if( fscanf(fp, "%d\n", &i) != 1 )
 	Rprintf("Corrupted int object");
-    *ip = i;
+    *pp = INT2PTR(i);
 }
 
 void
-- 
2.43.0

