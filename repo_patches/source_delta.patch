From 4fcaef89a8312046fa0f5ad2f92a6d146daa525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 01/53] fix: relational product quantified with the wrong
 operator when the operands coincide

relprod_forall/relprod_thereis handed a Boolean to the quantification routine,
which expects UNIVERSAL/EXISTENTIAL: relprod_forall v f f (or f T, T f)
computed the existential quantification, and both polluted/consulted the
operation cache under the key of other operations.
---
 src/bin/fl/new_bdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c4d81e..0f49a8d 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -933,9 +933,9 @@ Rel_prod(formula qv, formula a, formula b, bool existential)
     if( a == ZERO || b == ZERO || a == NOT(b) )
 	BDD_RETURN( ZERO );
     if( a == ONE || (a == b))
-	BDD_RETURN( quantify(b, qv, existential) );
+	BDD_RETURN( quantify(b, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( b == ONE )
-	BDD_RETURN( quantify(a, qv, existential) );
+	BDD_RETURN( quantify(a, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( qv == ONE || qv == ZERO )
 	BDD_RETURN( B_And(a,b) );
 
-- 
2.43.0


From 9307f4fa1113f9a3c0256ca4dfd58da6f99dd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 02/53] fix: multiplying -1 by the smallest machine integer
 raised SIGFPE

---
 src/bin/fl/arb_prec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 4149779..54ca8d2 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -516,8 +516,7 @@ arbi__mlt(arbi_T x, arbi_T y)
 	wx = x[0]; wy = y[0];
         if(!wx) return(arbi__FromInt(0));
         if(!wy) return(arbi__FromInt(0));
-	wp = wx*wy;
-	if(wy == wp/wx && wx == wp/wy ) /* no overflow? */
+	if( !__builtin_mul_overflow(wx, wy, &wp) ) /* no overflow? */
 	    return(arbi__FromInt(wp));
     }
 
-- 
2.43.0


From ce21bb224b7e88e94548558db71d1ec07ee71e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 03/53] fix: printing an integer whose leading word is the
 smallest machine integer did not terminate

---
 src/bin/fl/arb_prec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 54ca8d2..2e4f902 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -917,6 +917,7 @@ arbi__ToString(arbi_T x, int base)
     char bf[40], *buf, *t;
     int i, lgb4, m, lx, rz;
     Word w, b4, bb;
+    unsigned s_Word uw;
 
     arbi__errmsg = NULL;
     lx = Length(x);
@@ -942,8 +943,9 @@ arbi__ToString(arbi_T x, int base)
     b4 = base*base*base*base;
     for(lgb4 = 4; b4 >> (lgb4+1); lgb4++);
     w = x[lx-1];
-    if(w < 0) { w = -w; }
-    for(m = 0; w >> m; m++);
+    /* unsigned: -MinWord is not representable as a Word */
+    uw = (w < 0) ? -(unsigned s_Word) w : (unsigned s_Word) w;
+    for(m = 0; m < WordSize && (uw >> m); m++);
     m = (4*(m + WordSize*(lx-1)) + lgb4 - 1)/lgb4 + 1;
     if(x[lx-1] < 0) m++;
     buf = (char *)arbi_alloc((unsigned int) m);
-- 
2.43.0


From 2f9194b8083875ab6dd381a69de663922f0c4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 04/53] fix: bev_ashr by at least the length of the vector
 returned a vector without bits

---
 src/bin/fl/bev.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bev.c b/src/bin/fl/bev.c
index 8322e59..4ef3b00 100644
--- a/src/bin/fl/bev.c
+++ b/src/bin/fl/bev.c
@@ -877,9 +877,13 @@ bev_ashr(g_ptr redex)
     g_ptr tail = res;
     g_ptr al = a->u.l;
     int len = get_bev_length(al);
-    for(int i = 0; i < len-cnt; i++) {
+    if( cnt >= len ) {
 	APPEND1(tail, GET_CONS_HD(al));
-	al = GET_CONS_TL(al);
+    } else {
+	for(int i = 0; i < len-cnt; i++) {
+	    APPEND1(tail, GET_CONS_HD(al));
+	    al = GET_CONS_TL(al);
+	}
     }
     MAKE_REDEX_EXT_OBJ(redex, bev_oidx, get_bev_rec(res));
 }
-- 
2.43.0


From 7e194a49f618322a731de70be0ec1cfd222a2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:20 +0000
Subject: [PATCH 05/53] fix: bev_pow never terminated (and had its base case
 inverted), so neither did bev_shl and bev_shr

---
 src/bin/fl/preamble.fl | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index c27a432..f8c1dc6 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -755,9 +755,15 @@ overload bv_ashr bv_ashr bv_ashr_bvbv;
 let bv_neg bv = bv_add (bv_NOT bv) (int2bv 1);
 
 // Compute base to the power of n.
-letrec bev_pow {base::bev} {n::bev} =
-    IF (bev_geq n (int2bev 0)) THEN (int2bev 1) ELSE
-    (bev_mul base (bev_pow base (bev_sub n (int2bev 1))))
+let bev_pow {base::bev} {n::bev} =
+    let one = int2bev 1 in
+    // sq is base raised to the weight of the current bit (LSB first)
+    letrec pow sq (b:bs) = bev_mul (IF b THEN sq ELSE one)
+				   (pow (bev_mul sq sq) bs)
+     /\    pow sq [] = one
+    in
+    val (sign:bits) = bev2list n in
+    IF sign THEN one ELSE (pow base (rev bits))
 ;
 
 // Compute n shifted left by amount.
-- 
2.43.0


From 791cbcd668e17992c525f0d87475390604f6f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:07 +0000
Subject: [PATCH 06/53] Model-checking hook: collection at a chosen allocation
 (guarded by VOSS_MC)

---
 src/bin/fl/graph.c   | 43 ++++++++++++++++++++++++++++++++++++++++
 src/bin/fl/new_bdd.c |  6 ++++++
 src/bin/fl/system.c  | 47 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 96 insertions(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index b6d5810..14f809b 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -92,6 +92,9 @@ static g_ptr		stack[STACK_SIZE];
 static int		allocated = 0;
 static int		last_allocated = 0;
 static int		gc_threshold = 250000;
+#ifdef VOSS_MC
+extern long		mc_gc_done;
+#endif
 static int		find_new_var_cnt = 1;
 static int		uniq_quant_cnt = 1;
 static buffer		fn_trace_buf;
@@ -1595,6 +1598,9 @@ Do_garbage_collect()
 #endif
 
     if( Disable_GC ) return;
+#ifdef VOSS_MC
+    mc_gc_done++;
+#endif
     if( RCverbose_GC )
 	FP(fl_gc_fp, "Start garbage collection.");
 
@@ -2352,10 +2358,47 @@ Get_pfn_name(g_ptr np, bool verbose_debug)
     return pfn2str_buf;
 }
 
+#ifdef VOSS_MC
+/* Bounded model checking: request a garbage collection after the n-th node. */
+/* kind 1: graph only, 2: graph+BDD, both counting graph nodes;              */
+/* kind 3: graph+BDD, counting BDD nodes.                                    */
+extern bool	Do_gc_asap;
+int		mc_gc_kind = 0;
+long		mc_gc_left = 0;
+long		mc_gc_period = 0;
+long		mc_graph_nodes = 0;
+long		mc_bdd_nodes = 0;
+long		mc_gc_done = 0;
+
+static void
+mc_request_gc()
+{
+    if( --mc_gc_left != 0 )
+	return;
+    mc_gc_left = mc_gc_period;
+    do_gc_asap = TRUE;
+    if( mc_gc_kind > 1 )
+	Do_gc_asap = TRUE;
+}
+
+void
+Mc_new_bdd_node()
+{
+    mc_bdd_nodes++;
+    if( mc_gc_kind == 3 )
+	mc_request_gc();
+}
+#endif
+
 g_ptr
 Get_node()
 {
     g_ptr ret;
+#ifdef VOSS_MC
+    mc_graph_nodes++;
+    if( mc_gc_kind == 1 || mc_gc_kind == 2 )
+	mc_request_gc();
+#endif
     if( free_list != NULL ) {
 	ret = free_list;
 	free_list = (g_ptr) GET_RIGHT(ret);
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 0f49a8d..93bc0fa 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -17,6 +17,9 @@
 formula		ZERO;
 formula		ONE;
 bool		Do_gc_asap;
+#ifdef VOSS_MC
+extern void	Mc_new_bdd_node();
+#endif
 int             LG_TBL_SIZE;
 
 /********* Global variables referenced ***********/
@@ -2519,6 +2522,9 @@ find_insert_bdd(var_ptr vp, formula lson, formula rson)
     (vp->nbr_uniq_tbl)++;
     if( nodes_used > gc_limit )
 	Do_gc_asap = 1;
+#ifdef VOSS_MC
+    Mc_new_bdd_node();
+#endif
     if( LOAD_FACTOR * vp->sz_uniq_tbl < vp->nbr_uniq_tbl )
 	grow_uniq_tbl(vp);
     return( neg? NOT(ret): ret );
diff --git a/src/bin/fl/system.c b/src/bin/fl/system.c
index 706f3ae..f4bad15 100644
--- a/src/bin/fl/system.c
+++ b/src/bin/fl/system.c
@@ -136,6 +136,42 @@ my_exec(g_ptr redex)
     DEC_REF_CNT(r);
 }
 
+#ifdef VOSS_MC
+extern int	mc_gc_kind;
+extern long	mc_gc_left, mc_gc_period;
+extern long	mc_graph_nodes, mc_bdd_nodes, mc_gc_done;
+
+static void
+mc_gc(g_ptr redex)
+{
+    g_ptr l = GET_APPLY_LEFT(redex);
+    g_ptr r = GET_APPLY_RIGHT(redex);
+    g_ptr kind, first, period;
+    EXTRACT_3_ARGS(redex, kind, first, period);
+    mc_gc_kind = GET_INT(kind);
+    mc_gc_left = GET_INT(first);
+    mc_gc_period = GET_INT(period);
+    mc_graph_nodes = mc_bdd_nodes = mc_gc_done = 0;
+    MAKE_REDEX_VOID(redex);
+    DEC_REF_CNT(l);
+    DEC_REF_CNT(r);
+}
+
+static void
+mc_gc_count(g_ptr redex)
+{
+    g_ptr l = GET_APPLY_LEFT(redex);
+    g_ptr r = GET_APPLY_RIGHT(redex);
+    g_ptr what;
+    EXTRACT_1_ARG(redex, what);
+    int w = GET_INT(what);
+    long c = (w == 0)? mc_gc_done: (w == 3)? mc_bdd_nodes: mc_graph_nodes;
+    MAKE_REDEX_INT(redex, c);
+    DEC_REF_CNT(l);
+    DEC_REF_CNT(r);
+}
+#endif
+
 static void
 do_pid(g_ptr redex)
 {
@@ -408,6 +444,17 @@ System_Install_Functions()
 			GLmake_arrow(GLmake_void(), GLmake_bool()),
 			noX_mode);
 
+#ifdef VOSS_MC
+    Add_ExtAPI_Function("mc_gc", "111", FALSE,
+			GLmake_arrow(GLmake_int(),
+			    GLmake_arrow(GLmake_int(),
+				GLmake_arrow(GLmake_int(), GLmake_void()))),
+			mc_gc);
+    Add_ExtAPI_Function("mc_gc_count", "1", FALSE,
+			GLmake_arrow(GLmake_int(), GLmake_int()),
+			mc_gc_count);
+#endif
+
     Add_ExtAPI_Function("pid", "", FALSE, GLmake_int(), do_pid);
 
     Add_ExtAPI_Function("ARGS", "", FALSE, GLmake_list(GLmake_string()), ARGS);
-- 
2.43.0


From e772816a0fce462131e2107952e11dd4acc0daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:32 +0000
Subject: [PATCH 07/53] fix: bdd_save reported success when the file could not
 be written

---
 src/bin/fl/graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 14f809b..6eb8a6c 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -3870,8 +3870,10 @@ traverse_left(g_ptr oroot)
 			    push_buf(&roots, &b);
 			    ntmp = GET_CONS_TL(ntmp);
 			}
-			Save_BDDs(GET_STRING(arg1), &roots);
+			bool saved = Save_BDDs(GET_STRING(arg1), &roots);
 			free_buf(&roots);
+			if( !saved )
+			    goto fail2;
 			MAKE_REDEX_BOOL(redex, B_One());
 			goto finish2;
 		    }
-- 
2.43.0


From 9b62edd4660532cb1f4f804cbe71d1f62c88b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:32 +0000
Subject: [PATCH 08/53] fix: bdd_load and bexpr_load answered an empty list for
 a file that is not a saved BDD or bexpr file

---
 src/bin/fl/bexpr.c   | 2 +-
 src/bin/fl/new_bdd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f72d8d7..0c3a7c0 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -360,7 +360,7 @@ Load_bexprs(string filename, buffer *results)
     if( fscanf(fp, "SAVED_BEXPRS %d\n", &cnt) != 1 ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+	return( FALSE );
     }
     buffer work_buf;
     new_buf(&work_buf, 1000, sizeof(bexpr));
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 93bc0fa..bb23acc 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -876,7 +876,7 @@ Load_BDDs(string filename, buffer *results)
     if( fscanf(fp, "SAVED_BDDS %d\n", &cnt) != 1 ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+	return( FALSE );
     }
     buffer var_map;
     new_buf(&var_map, 100, sizeof(formula));
-- 
2.43.0


From 7f23228c26e5392c599d0a25990768161eb69356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:32 +0000
Subject: [PATCH 09/53] fix: BDDs and bexprs over variables whose names contain
 blanks could be saved but not loaded

---
 src/bin/fl/bexpr.c   | 2 +-
 src/bin/fl/new_bdd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 0c3a7c0..400ec86 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -375,7 +375,7 @@ Load_bexprs(string filename, buffer *results)
 	switch( c ) {
 	    case 'v':
 	    {
-		if( fscanf(fp, "v %s\n", buf) != 1 )
+		if( fscanf(fp, "v %1023[^\n]\n", buf) != 1 )
 		    goto parse_error;
 		line_cnt++;
 		string name = wastrsave(stringsp, buf);
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index bb23acc..1c81f63 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -880,7 +880,7 @@ Load_BDDs(string filename, buffer *results)
     }
     buffer var_map;
     new_buf(&var_map, 100, sizeof(formula));
-    while( fscanf(fp, "v %s\n", buf) == 1 ) {
+    while( fscanf(fp, "v %1023[^\n]\n", buf) == 1 ) {
 	string name = wastrsave(stringsp, buf);
 	formula b = B_Var(name);
 	push_buf(&var_map, (pointer) &b);
-- 
2.43.0


From ae18282c2c5fdf0a7369a018c7ed612cd6cff088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:46 +0000
Subject: [PATCH 10/53] fix: loading a truncated BDD or bexpr file gave fewer
 or other functions instead of an error

---
 src/bin/fl/bexpr.c   | 9 ++++++++-
 src/bin/fl/new_bdd.c | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 400ec86..7c6ef81 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -414,8 +414,15 @@ Load_bexprs(string filename, buffer *results)
 		goto parse_error;
 	}
     }
-    fclose(fp);
     free_buf(&work_buf);
+    // A complete file ends with the newline after its last root
+    bool complete = COUNT_BUF(results) == (unint) cnt && feof(fp) &&
+		    fseek(fp, -1L, SEEK_END) == 0 && fgetc(fp) == '\n';
+    fclose(fp);
+    if( !complete ) {
+	Fail_pr("Truncated or illegal file %s", filename);
+	return( FALSE );
+    }
     return( TRUE );
  
   parse_error:
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 1c81f63..0849ab9 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -907,7 +907,14 @@ Load_BDDs(string filename, buffer *results)
     }
     free_buf(&var_map);
     free_buf(&work_buf);
+    // A complete file ends with the newline after its last root
+    bool complete = COUNT_BUF(results) == (unint) cnt && feof(fp) &&
+		    fseek(fp, -1L, SEEK_END) == 0 && fgetc(fp) == '\n';
     fclose(fp);
+    if( !complete ) {
+	Fail_pr("Truncated or illegal file %s", filename);
+	return( FALSE );
+    }
     return( TRUE );
 }
 
-- 
2.43.0


From 03ced4603e32e749d77aeb056984aeb55f17f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 11/53] fix: bexpr2bdd answered with the BDD of an earlier call
 under another substitution

The BDD of every node was cached without recording the substitution it was
computed under, so base_bexpr2bdd with one table changed the answers of every
later conversion of the same expression.
---
 src/bin/fl/bexpr.c | 7 ++++++-
 src/bin/fl/bexpr.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 7c6ef81..fb5c6aa 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -34,6 +34,8 @@ static char	    buf[1024];
 static hash_record  depend_tbl;
 static hash_record  gl_subst_tbl;
 static hash_record  bexpr2bdd_sub_tbl;
+static ui	    bexpr2bdd_subst_id = 0;	// 0 denotes no substitution
+static ui	    bexpr2bdd_subst_cnt = 0;
 static hash_record  res_tbl;
 static hash_record  bdd2bexpr_tbl;
 static buffer	    bvar_buf;
@@ -560,6 +562,7 @@ bexpr2bdd(g_ptr redex)
     g_ptr sub, bf;
     EXTRACT_2_ARGS(redex, sub, bf);
     create_hash(&bexpr2bdd_sub_tbl, 100, str_hash, str_equ);
+    bexpr2bdd_subst_id = IS_NIL(sub)? 0 : ++bexpr2bdd_subst_cnt;
     while( !IS_NIL(sub) ) {
         g_ptr pair = GET_CONS_HD(sub);
         string v = GET_STRING(GET_CONS_HD(pair));
@@ -1412,7 +1415,8 @@ be2bdd(bexpr be)
     if( BE_IS_TRUE(be) ) return( B_One() );
     bool neg = BE_IS_NEG(be);
     bexpr b = BE_POS(be);
-    if( b->has_bdd ) {
+    // A cached BDD is only valid for the substitution it was computed under
+    if( b->has_bdd && b->bdd_subst == bexpr2bdd_subst_id ) {
 	return( neg? B_Not(b->bdd) : b->bdd );
     }
     formula res;
@@ -1431,6 +1435,7 @@ be2bdd(bexpr be)
 	POP_BDD_GC(1);
     }
     b->bdd = res;
+    b->bdd_subst = bexpr2bdd_subst_id;
     b->has_bdd = 1;
     return( neg? B_Not(res) : res );
 }
diff --git a/src/bin/fl/bexpr.h b/src/bin/fl/bexpr.h
index f7c1956..93d3607 100644
--- a/src/bin/fl/bexpr.h
+++ b/src/bin/fl/bexpr.h
@@ -65,6 +65,7 @@ typedef struct bexpr_rec {
     ui		    height:28;
     int		    sat_idx:32;
     formula	    bdd;
+    ui		    bdd_subst;
     bexpr	    next;
     union {
 	bexpr	    be;
-- 
2.43.0


From 54f67538a778ff7de1c45348a58aa43e48685e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 12/53] fix: sha256_signature of a bexpr crashed on every
 conjunction

The format had one conversion more than arguments.
---
 src/bin/fl/bexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index fb5c6aa..22d250f 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -456,7 +456,7 @@ SHA256_bexpr(int *g_cntp, hash_record *g_tblp, SHA256_ptr sha, bexpr f)
     }
     int lres = SHA256_bexpr(g_cntp, g_tblp, sha, BE_GET_LEFT(bp));
     int rres = SHA256_bexpr(g_cntp, g_tblp, sha, BE_GET_RIGHT(bp));
-    SHA256_printf(sha, "%d=& %s %d %d\n", res, lres, rres);
+    SHA256_printf(sha, "%d=& %d %d\n", res, lres, rres);
     return res;
 }
 
-- 
2.43.0


From e049e68da2499d16b619524871b176ae1690d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 13/53] fix: bsubstitute used freed nodes when a collection
 happened between two leaves

The table of intermediate results is not marked by the collector, so it has
to be forgotten when a collection runs inside the traversal.
---
 src/bin/fl/bexpr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 22d250f..4844bf5 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -36,6 +36,8 @@ static hash_record  gl_subst_tbl;
 static hash_record  bexpr2bdd_sub_tbl;
 static ui	    bexpr2bdd_subst_id = 0;	// 0 denotes no substitution
 static ui	    bexpr2bdd_subst_cnt = 0;
+static ui	    be_gc_cnt = 0;
+static ui	    res_tbl_gc_cnt = 0;
 static hash_record  res_tbl;
 static hash_record  bdd2bexpr_tbl;
 static buffer	    bvar_buf;
@@ -156,6 +158,7 @@ void
 BE_Clean()
 {
     bexpr bp;
+    be_gc_cnt++;
     mark(BE_FALSE);
     mark(BE_TRUE);
     free_list = NULL;
@@ -623,6 +626,7 @@ bsubstitute(g_ptr redex)
 	arg1 = GET_CONS_TL(arg1);
     }
     create_hash(&res_tbl, 100, be_hash, be_eq);
+    res_tbl_gc_cnt = be_gc_cnt;
     g_ptr res = Gen_map(top_be_subst, arg2, FALSE);
     OVERWRITE(redex, res);
     dispose_hash(&gl_subst_tbl, NULLFCN);
@@ -1624,6 +1628,12 @@ top_be_subst(g_ptr np)
 	INC_REFCNT(np);
 	return np;
     }
+    if( res_tbl_gc_cnt != be_gc_cnt ) {
+	// The intermediate results may have been collected
+	dispose_hash(&res_tbl, NULLFCN);
+	create_hash(&res_tbl, 100, be_hash, be_eq);
+	res_tbl_gc_cnt = be_gc_cnt;
+    }
     return( Make_BEXPR_leaf(be_subst(GET_BEXPR(np))) );
 }
 
-- 
2.43.0


From 6b221870959982e374cdb52aed4ea7a6562da09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:33 +0000
Subject: [PATCH 14/53] fix: STE dropped a constraint or weakening when an
 overlapping one on the same node ended

---
 src/bin/fl/fsm.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3d3bcbf..e6ca52a 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3614,7 +3614,6 @@ process_event(buffer *event_bufp, int time)
 			buf = weak_buf;
 			break;
 		    case end_weak:
-			np->has_weak = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			if( c_EQ(ep->H, c_ZERO) && c_EQ(ep->L, c_ZERO) ) {
 			    if( np->composite >= 0 ) {
@@ -3625,6 +3624,7 @@ process_event(buffer *event_bufp, int time)
 			    }
 			}
 			cur_active = delete_active_event(active_weak_tblp, ep);
+			np->has_weak = (cur_active != NULL);
 			buf = weak_buf;
 			break;
 		    case start_ant:
@@ -3634,9 +3634,9 @@ process_event(buffer *event_bufp, int time)
 			buf = ant_buf;
 			break;
 		    case end_ant:
-			np->has_ant = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			cur_active = delete_active_event(active_ant_tblp, ep);
+			np->has_ant = (cur_active != NULL);
 			buf = ant_buf;
 			break;
 		    case start_cons:
@@ -3645,19 +3645,23 @@ process_event(buffer *event_bufp, int time)
 			buf = cons_buf;
 			break;
 		    case end_cons:
-			np->has_cons = FALSE;
 			cur_active = delete_active_event(active_cons_tblp, ep);
+			np->has_cons = (cur_active != NULL);
 			buf = cons_buf;
 			break;
 		    default:
 			DIE("Should not happen");
 			break;
 		}
-		gbv H = c_ONE;
-		gbv L = c_ONE;
+		// All active constraints apply, and so do all active weakenings
+		bool is_weak = (buf == weak_buf);
+		gbv H = is_weak? c_ZERO : c_ONE;
+		gbv L = H;
 		while( cur_active ) {
-		    H = c_AND(H, cur_active->ep->H);
-		    L = c_AND(L, cur_active->ep->L);
+		    gbv eH = cur_active->ep->H;
+		    gbv eL = cur_active->ep->L;
+		    H = is_weak? c_OR(H, eH) : c_AND(H, eH);
+		    L = is_weak? c_OR(L, eL) : c_AND(L, eL);
 		    cur_active = cur_active->next;
 		}
 		*(buf + 2*idx)   = H;
-- 
2.43.0


From c5dca82316d367399e0e8a822daaacccc55a9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:33 +0000
Subject: [PATCH 15/53] fix: STE kept an ended antecedent on a node when a
 check or trace of the node started at that time

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index e6ca52a..7b589aa 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3586,7 +3586,6 @@ process_event(buffer *event_bufp, int time)
 	} else {
 	    int idx = ep->nd_idx;
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
-	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
 		np->has_trace = TRUE;
 		gbv H = *(cur_buf + 2*idx);
@@ -7248,6 +7247,7 @@ initialize(ste_ptr ste, bool trace_all)
 	np->has_ant = FALSE;
 	np->has_cons = FALSE;
 	np->has_trace = FALSE;
+	np->has_ant_or_weak_change = FALSE;
     }
     ncomp_ptr cp;
     FOR_BUF(compositesp, ncomp_rec, cp) {
-- 
2.43.0


From 0f7527f79d5e50986b6ae0610ef3b69651131b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 16/53] fix: STE aborted the interpreter on a constraint over
 an empty time interval

---
 src/bin/fl/fsm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 7b589aa..52377a1 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3429,6 +3429,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in weakening list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3458,6 +3459,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in antecedent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3503,6 +3505,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in consequent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3547,6 +3550,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in trace list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
-- 
2.43.0


From 22040d1bdf810e59bea53913e7fafdbfb69368e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 17/53] fix: STE applied an antecedent on the output of a phase
 delay one time unit late

---
 src/bin/fl/fsm.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 52377a1..a308e88 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5780,7 +5780,6 @@ do_phase(ste_ptr ste)
 {
     nnode_ptr np;
     int idx = 0;
-    (ste->cur_time)++;
     FOR_BUF(nodesp, nnode_rec, np) {
 	gbv newH, newL;
 	if( idx >3 && np->composite == -1 ) {
@@ -5795,7 +5794,6 @@ do_phase(ste_ptr ste)
 	}
 	idx++;
     }
-    (ste->cur_time)--;
 }
 
 static int
@@ -8748,6 +8746,9 @@ gSTE(g_ptr redex, value_type type)
 		    FP(sim_fp, "Time: %d\n", t);
 	    }
 	}
+	process_event(event_bufp, t);
+	// Enter phase t (under the constraints that hold at time t)
+	if( t > min_time ) do_phase(ste);
 	if ( stop_node_active(stop_idx) ) {
 	    ste->max_time = t;
 	    free_ste_buffers();
@@ -8761,8 +8762,6 @@ gSTE(g_ptr redex, value_type type)
 	    pop_fsm();
 	    return;
 	}
-
-	process_event(event_bufp, t);
 	nnode_ptr np;
 	// Put nodes whose weak/ant changed on evaluation list.
 	int idx = 0;
@@ -8771,7 +8770,13 @@ gSTE(g_ptr redex, value_type type)
 		if( np->composite >= 0 ) {
 		    ncomp_ptr c;
 		    c = (ncomp_ptr) M_LOCATE_BUF(compositesp,np->composite);
-		    add_op_todo(c);
+		    if( c->phase_delay ) {
+			// The value was computed in the previous phase
+			update_node(ste, idx, *(next_buf+2*idx),
+					      *(next_buf+2*idx+1));
+		    } else {
+			add_op_todo(c);
+		    }
 		} else if( np->composite == -1 ) {
 		    // Input node
 		    update_node(ste, idx, c_ONE, c_ONE);
@@ -8849,7 +8854,6 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	    idx++;
 	}
-	do_phase(ste);
 	if( Do_gc_asap )
 	    Garbage_collect();
     }
-- 
2.43.0


From 93db71f5640e1a38e64560c9f69f7fa94535b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 18/53] fix: an abandoned STE run left its traces open and its
 state behind

---
 src/bin/fl/fsm.c | 61 +++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index a308e88..7fd2098 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -7189,20 +7189,8 @@ update_node(ste_ptr ste, int idx, gbv Hnew, gbv Lnew)
 		}
 		nbr_errors_reported++;
 		if( ste->abort_ASAP ) {
-		    Hnew = c_AND(Hnew, aH); 
-		    Lnew = c_AND(Lnew, aL); 
-		    gbv v = ste->validTrajectory;
-		    v = c_AND(v, c_OR(Hnew, Lnew));
-		    ste->validTrajectory = v;
-		    ste->max_time = ste->cur_time;
-		    ste->active = FALSE;
-		    if( gui_mode ) {
-			Sprintf(buf, "simulation_end");
-			Info_to_tcl(buf);
-		    }
-		    pop_fsm();
-		    kill(getpid(), SIGINT);
-		    return 0;
+		    // The phase is abandoned by gSTE
+		    quit_simulation_early = TRUE;
 		}
 	    }
 	}
@@ -8572,6 +8560,28 @@ stop_node_active(int idx)
     return( c_isT(Hcur, Lcur) );
 }
 
+// End a simulation that was abandoned in phase t
+static void
+abort_ste(ste_ptr ste, int t, bool trace_all)
+{
+    nnode_ptr np;
+    int idx = 0;
+    FOR_BUF(nodesp, nnode_rec, np) {
+	if( trace_all || np->has_trace ) {
+	    record_trace(idx, t, c_ONE, c_ONE);
+	}
+	idx++;
+    }
+    ste->max_time = t;
+    ste->active = FALSE;
+    free_ste_buffers();
+    if( gui_mode ) {
+	Sprintf(buf, "simulation_end");
+	Info_to_tcl(buf);
+    }
+    pop_fsm();
+}
+
 static void
 gSTE(g_ptr redex, value_type type)
 {
@@ -8728,12 +8738,9 @@ gSTE(g_ptr redex, value_type type)
     for(int t = min_time; t <= max_time; t++) {
 	ste->cur_time = t;
 	if( t > abort_time || quit_simulation_early ) {
-	    if( gui_mode ) {
-		Sprintf(buf, "simulation_end");
-		Info_to_tcl(buf);
-	    }
-	    FP(warning_fp, "Simulation interrupted at time %d\n", abort_time);
-	    ste->active = FALSE;
+	    FP(warning_fp, "Simulation interrupted at time %d\n", t);
+	    abort_ste(ste, t, trace_all);
+	    End_string_ops(sop);
 	    signal(SIGINT, old_handler);
 	    return;
 	}
@@ -8786,6 +8793,12 @@ gSTE(g_ptr redex, value_type type)
 	    idx++;
 	}
 	do_combinational(ste);
+	if( quit_simulation_early ) {
+	    abort_ste(ste, t, trace_all);
+	    End_string_ops(sop);
+	    signal(SIGINT, old_handler);
+	    return;
+	}
 	// Do consequents and traces
 	idx = 0;
 	FOR_BUF(nodesp, nnode_rec, np) {
@@ -8831,12 +8844,8 @@ gSTE(g_ptr redex, value_type type)
 			    v = c_AND(v, c_OR(c_NOT(curH), chkH));
 			    v = c_AND(v, c_OR(c_NOT(curL), chkL));
 			    ste->checkTrajectory = v;
-			    if( gui_mode ) {
-				Sprintf(buf, "simulation_end");
-				Info_to_tcl(buf);
-			    }
-			    ste->active = FALSE;
-			    ste->max_time = t;
+			    abort_ste(ste, t, trace_all);
+			    End_string_ops(sop);
 			    signal(SIGINT, old_handler);
 			    return;
 			}
-- 
2.43.0


From dc31f7b50b54bbd090686a9c94625c5b7509415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 19/53] fix: get_ste_result used the operators of the latest
 kind of STE run on the values of another kind

---
 src/bin/fl/fsm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 7fd2098..4e7df8b 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -9365,6 +9365,7 @@ gen_get_ste_result(g_ptr redex, value_type type)
     }
     string flag = GET_STRING(g_flag);
     gbv res;
+    push_ste(ste);
     if( strcmp(flag, "antOK") == 0 ) {
 	res = ste->assertion_OK;
     } else if( strcmp(flag, "trajOK") == 0 ) {
@@ -9384,12 +9385,14 @@ gen_get_ste_result(g_ptr redex, value_type type)
                    c_AND(ste->validTrajectory,
                         c_AND(ste->checkTrajectory, ste->check_OK)));
     } else {
+	pop_ste();
         MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Unknown type (%s) in (b)get_ste_result",
 				    flag));
         return;
     }
     MAKE_REDEX_GBV(redex, res);
+    pop_ste();
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
-- 
2.43.0


From 9ebe19384656726cd8071be84bb2a35879ce0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:59 +0000
Subject: [PATCH 20/53] fix: STE stopped tracing a node when an overlapping
 trace interval of it ended

---
 src/bin/fl/fsm.c | 9 +++++++--
 src/bin/fl/fsm.h | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 4e7df8b..b8e8aa9 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3592,12 +3592,16 @@ process_event(buffer *event_bufp, int time)
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
 	    if( ep->type == start_trace ) {
 		np->has_trace = TRUE;
+		np->active_traces++;
 		gbv H = *(cur_buf + 2*idx);
 		gbv L = *(cur_buf + 2*idx + 1);
 		record_trace(idx, time, H, L);
 	    } else if( ep->type == end_trace ) {
-		np->has_trace = FALSE;
-		record_trace(idx, time, c_ONE, c_ONE);
+		np->active_traces--;
+		if( np->active_traces == 0 ) {
+		    np->has_trace = FALSE;
+		    record_trace(idx, time, c_ONE, c_ONE);
+		}
 	    } else {
 		gbv *buf;
 		event_list_ptr	cur_active = NULL;
@@ -7237,6 +7241,7 @@ initialize(ste_ptr ste, bool trace_all)
 	np->has_ant = FALSE;
 	np->has_cons = FALSE;
 	np->has_trace = FALSE;
+	np->active_traces = 0;
 	np->has_ant_or_weak_change = FALSE;
     }
     ncomp_ptr cp;
diff --git a/src/bin/fl/fsm.h b/src/bin/fl/fsm.h
index e780347..3410c9e 100644
--- a/src/bin/fl/fsm.h
+++ b/src/bin/fl/fsm.h
@@ -197,6 +197,7 @@ typedef struct nnode_rec {
     int		    composite:30;
     unint	    is_top_input:1;
     unint	    is_top_output:1;
+    int		    active_traces;
     idx_list_ptr    fanouts;
     vis_list_ptr    draw_info;
 } nnode_rec;
-- 
2.43.0


From 427d77a6427f721d9668654c5893f87ee5ba54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 21/53] fix: word shifts in STE ignored shift amount bits 32
 and up

---
 src/bin/fl/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index b8e8aa9..8959395 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -6311,7 +6311,7 @@ op_SHL(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshl_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < (unint) op->size ) shift *= 2;
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6336,7 +6336,7 @@ op_SHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < (unint) op->size ) shift *= 2;
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6363,7 +6363,7 @@ op_ASHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sashr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < (unint) op->size ) shift *= 2;
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
-- 
2.43.0


From aa17cf9c31faf9f3b38a0223f6d1734660497896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 22/53] fix: forcing a structure with a failing part destroyed
 it for its other users

---
 src/bin/fl/graph.c | 29 ++++++++++++++++++++++++++---
 src/bin/fl/graph.h |  1 +
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 6eb8a6c..e2b5706 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -98,6 +98,7 @@ extern long		mc_gc_done;
 static int		find_new_var_cnt = 1;
 static int		uniq_quant_cnt = 1;
 static buffer		fn_trace_buf;
+static buffer		forced_buf;
 static rec_mgr		g_rec_mgr;
 static rec_mgr		result_rec_mgr;
 static result_ptr	top_result_rec_ptr = NULL;
@@ -303,6 +304,7 @@ static unsigned int	gmap2_hash(pointer np, unsigned int n);
 static bool		gmap2_equ(pointer p1, pointer p2);
 static g_ptr		g_b_ite(g_ptr l, g_ptr r);
 static g_ptr		reduce_list(g_ptr redex, int levels);
+static void          undo_forced(unint cnt);
 static bool		is_pat_fail(g_ptr node);
 
 #ifdef DEBUG
@@ -498,6 +500,7 @@ G_Init()
     new_buf(&ext_fun_buf, 100, sizeof(ext_fun_rec));
     new_buf(&ext_obj_buf, 100, sizeof(ext_obj_rec));
     new_buf(&fn_trace_buf, 1000, sizeof(string));
+    new_buf(&forced_buf, 1000, sizeof(g_ptr));
     new_buf(&global_gc_buf, 100, sizeof(g_ptr));
     do_gc_asap = FALSE;
     space_const = wastrsave(stringsp, " ");
@@ -959,6 +962,7 @@ Record_eval_context(eval_ctx_ptr ctx)
     ctx->old_start_envp = start_envp;
     ctx->old_call_level = Call_level;
     ctx->old_fn_trace_buf_size = COUNT_BUF(&fn_trace_buf);
+    ctx->old_forced_buf_size = COUNT_BUF(&forced_buf);
     ctx->cur_eval_cond = cur_eval_cond;
 }
 
@@ -969,6 +973,7 @@ Restore_eval_context(eval_ctx_ptr ctx)
     root_node = ctx->old_root_node;
     start_envp = ctx->old_start_envp;
     Call_level = ctx->old_call_level;
+    undo_forced(ctx->old_forced_buf_size);
     int cur_sz = COUNT_BUF(&fn_trace_buf);
     if( cur_sz < ctx->old_fn_trace_buf_size )
 	DIE("Bad bug in fn_trace_buf management.... Guru time!");
@@ -993,6 +998,7 @@ Reset_eval_context()
     root_node = void_nd;
     start_envp = NULL;
     Call_level = 0;
+    undo_forced(0);
     resize_buf(&fn_trace_buf, 0);
     if( profiling_active ) {
 	while( COUNT_BUF(&profiling_buf) > 0 ) {
@@ -5106,6 +5112,18 @@ Is_equal(g_ptr l1, g_ptr l2, bool identical)
     DIE("Should never occur!"); return B_Zero(); // Dummy
 }
 
+// Remove the forced marks of the conses that a force that did not complete
+// has visited (since they may contain unevaluated parts).
+static void
+undo_forced(unint cnt)
+{
+    while( COUNT_BUF(&forced_buf) > cnt ) {
+	g_ptr nd;
+	pop_buf(&forced_buf, &nd);
+	MAKE_UNFORCED(nd);
+    }
+}
+
 #if 1
 g_ptr
 force(g_ptr node, bool first)
@@ -5116,6 +5134,7 @@ force(g_ptr node, bool first)
     if( IS_FORCED(node) ) {
 	return( node );
     }
+    unint old_forced_cnt = COUNT_BUF(&forced_buf);
     new_buf(&todo_buf, 100, sizeof(g_ptr));
     push_buf(&todo_buf, &node);
     while( COUNT_BUF(&todo_buf) != 0 ) {
@@ -5124,13 +5143,16 @@ force(g_ptr node, bool first)
 	if( !IS_FORCED(cur) ) {
 	    cur = reduce(cur, first);
 	    if( is_fail(cur) ) {
-		OVERWRITE(node, cur);
+		/* Only the part already evaluated is affected. The structure */
+		/* itself is still a valid (lazy) value for its other users.  */
+		undo_forced(old_forced_cnt);
 		free_buf(&todo_buf);
-		return node;
+		return cur;
 	    }
 	    MAKE_FORCED(cur);
 	    if( GET_TYPE(cur) == CONS_ND ) {
 		if( !IS_NIL(cur) ) {
+		    push_buf(&forced_buf, &cur);
 		    g_ptr t = GET_CONS_TL(cur);
 		    push_buf(&todo_buf, &t);
 		    g_ptr h = GET_CONS_HD(cur);
@@ -5139,6 +5161,7 @@ force(g_ptr node, bool first)
 	    }
 	}
     }
+    resize_buf(&forced_buf, old_forced_cnt);
     free_buf(&todo_buf);
     return( node );
 }
@@ -5394,7 +5417,7 @@ Eval(g_ptr redex)
     root_node = redex;
     if( setjmp(*start_envp) == 0 ) {
         /* All ok */
-        force(redex, FALSE);
+        redex = force(redex, FALSE);
     } else {
         /* Return from a failure */
 	MAKE_REDEX_FAILURE(redex, FailBuf);
diff --git a/src/bin/fl/graph.h b/src/bin/fl/graph.h
index 3f42bb7..b52fddd 100644
--- a/src/bin/fl/graph.h
+++ b/src/bin/fl/graph.h
@@ -28,6 +28,7 @@ typedef struct eval_ctx_rec {
     jmp_buf	*old_start_envp;
     int		old_call_level;
     int		old_fn_trace_buf_size;
+    unint	old_forced_buf_size;
     formula	cur_eval_cond;
 } eval_ctx_rec;
 typedef struct gmap_info_rec	*gmap_info_ptr;
-- 
2.43.0


From 012fe980af2cbe3f8e843377c97a923410193e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 23/53] fix: printed types were ambiguous: (1,2),3 and 1,(2,3)
 had the same type text

---
 src/bin/fl/typecheck.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/typecheck.c b/src/bin/fl/typecheck.c
index 73d7d18..9d61096 100644
--- a/src/bin/fl/typecheck.c
+++ b/src/bin/fl/typecheck.c
@@ -2709,7 +2709,7 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 	case ref_tp:
 	    if( prec > 1 )
 		FP(fp, "(");
-	    print_type_rec(type->typelist->type, fp, 1);
+	    print_type_rec(type->typelist->type, fp, 9);
 	    FP(fp, " ref");
 	    if( prec > 1 )
 		FP(fp, ")");
@@ -2726,12 +2726,13 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 		FP(fp, ")");
 	    break;
 	case tuple_tp:
-	    if( prec > 2 )
+	    // Note: # binds weaker than -> and both are right associative
+	    if( prec > 1 )
 		FP(fp, "(");
 	    print_type_rec(type->typelist->type, fp, 2);
 	    FP(fp, "#");
-	    print_type_rec(type->typelist->next->type, fp, 2);
-	    if( prec > 2 )
+	    print_type_rec(type->typelist->next->type, fp, 1);
+	    if( prec > 1 )
 		FP(fp, ")");
 	    break;
 	case list_tp:
-- 
2.43.0


From 6ac8bc7788278afbc98f7263c1b40a5b1b405f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 24/53] fix: reporting a type error without a named leaf
 nearby, e.g. ([] []), crashed

---
 src/bin/fl/typecheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/typecheck.c b/src/bin/fl/typecheck.c
index 9d61096..b312009 100644
--- a/src/bin/fl/typecheck.c
+++ b/src/bin/fl/typecheck.c
@@ -1545,10 +1545,10 @@ report_failure(node_type_ptr cur, typeExp_ptr type, typeExp_ptr expected_type)
 
     // Try to find a leaf node to get a line number
     g_ptr nnode = find_near_leaf(node);
-    if( nnode == NULL ) {
+    if( nnode == NULL && cur->parent != NULL ) {
 	nnode = find_near_leaf(cur->parent->node);
     }
-    if( IS_LEAF(nnode) ) {
+    if( nnode != NULL && IS_LEAF(nnode) ) {
 	if( file_load )
 	    FP(err_fp, "===Type error around line %d in file %s\n",
 		       GET_LINE_NBR(nnode), cur_file_name);
-- 
2.43.0


From 604df0cc897f7dcbedfa0880610315f21dbc978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:20 +0000
Subject: [PATCH 25/53] fix: files saved by earlier versions were refused after
 the change of the printed types

---
 src/bin/fl/symbol.c    | 14 +++++++++++++-
 src/bin/fl/typecheck.c | 20 ++++++++++++++++----
 src/bin/fl/typecheck.h |  1 +
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/bin/fl/symbol.c b/src/bin/fl/symbol.c
index 7264cd0..c1c71f0 100644
--- a/src/bin/fl/symbol.c
+++ b/src/bin/fl/symbol.c
@@ -651,6 +651,18 @@ Make_non_lazy(string name, symbol_tbl_ptr stbl)
     return( TRUE );
 }
 
+static string
+get_tmp_signature_string(typeExp_ptr type)
+{
+    if( (odests_fp = fmemopen(type_buf, 4096, "w")) == NULL ) {
+        DIE("Should never happen");
+    }
+    Print_Type_signature(type, FILE_fp);
+    fclose(odests_fp);
+    odests_fp = NULL;
+    return( type_buf );
+}
+
 symbol_tbl_ptr 
 Merge_fn_defs(symbol_tbl_ptr stbl1, symbol_tbl_ptr stbl2, bool permissive)
 {
@@ -692,7 +704,7 @@ Add_Destructors(string name, typeExp_ptr new_type,
         gen_strappend(tmp_strings, " ");
         gen_strappend(tmp_strings, fnp->name);
         gen_strappend(tmp_strings, "::");
-        gen_strappend(tmp_strings, Get_tmp_type_string(fnp->type));
+        gen_strappend(tmp_strings, get_tmp_signature_string(fnp->type));
         gen_strappend(tmp_strings, " ");
         // Create destructor function
         dest_name          = strtemp("__DeStRuCtOr");
diff --git a/src/bin/fl/typecheck.c b/src/bin/fl/typecheck.c
index b312009..25da1a4 100644
--- a/src/bin/fl/typecheck.c
+++ b/src/bin/fl/typecheck.c
@@ -71,6 +71,7 @@ static string		s_fp;
 static string		s_ref;
 static string		s_tbl;
 static char		type_buf[1024];
+static bool		signature_text = FALSE;
 static tc_context_ptr	current_tc_context;
 
 /************************************************************************/
@@ -575,6 +576,16 @@ Print_Type(typeExp_ptr type, odests fp, bool newline, bool reset)
 	FP(fp, "\n");
 }
 
+// The text used in the signatures of saved values. Must not change, since
+// the files of earlier versions would be refused otherwise.
+void
+Print_Type_signature(typeExp_ptr type, odests fp)
+{
+    signature_text = TRUE;
+    Print_Type(type, fp, FALSE, TRUE);
+    signature_text = FALSE;
+}
+
 string
 Type2String(typeExp_ptr type, bool reset)
 {
@@ -2709,7 +2720,7 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 	case ref_tp:
 	    if( prec > 1 )
 		FP(fp, "(");
-	    print_type_rec(type->typelist->type, fp, 9);
+	    print_type_rec(type->typelist->type, fp, signature_text? 1 : 9);
 	    FP(fp, " ref");
 	    if( prec > 1 )
 		FP(fp, ")");
@@ -2727,12 +2738,13 @@ print_type_rec(typeExp_ptr type, odests fp, int prec)
 	    break;
 	case tuple_tp:
 	    // Note: # binds weaker than -> and both are right associative
-	    if( prec > 1 )
+	    if( prec > (signature_text? 2 : 1) )
 		FP(fp, "(");
 	    print_type_rec(type->typelist->type, fp, 2);
 	    FP(fp, "#");
-	    print_type_rec(type->typelist->next->type, fp, 1);
-	    if( prec > 1 )
+	    print_type_rec(type->typelist->next->type, fp,
+			   signature_text? 2 : 1);
+	    if( prec > (signature_text? 2 : 1) )
 		FP(fp, ")");
 	    break;
 	case list_tp:
diff --git a/src/bin/fl/typecheck.h b/src/bin/fl/typecheck.h
index 8f841d6..64dfe34 100644
--- a/src/bin/fl/typecheck.h
+++ b/src/bin/fl/typecheck.h
@@ -28,6 +28,7 @@ int		Printf_arity(ui pfn, string pat);
 void		Print_Full_Type(fn_ptr fn, odests fp, bool newline, bool reset);
 void		Print_Type(typeExp_ptr type, odests fp, bool newline,
 			   bool reset);
+void		Print_Type_signature(typeExp_ptr type, odests fp);
 string		Type2String(typeExp_ptr type, bool reset);
 typeExp_ptr	Get_Type(string name, typeList_ptr tvars, int insert_missing);
 typeExp_ptr	Fix_Types(typeExp_ptr *constructor_type,
-- 
2.43.0


From c48b7b7400bdf8658899a649951a45d8ff2a9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 26/53] fix: writing or reading a file with blanks or other
 special characters in its name, and the remains of failed writes and reads

---
 src/bin/fl/io.c | 121 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 81 insertions(+), 40 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 56dd5da..bec6336 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -977,22 +977,52 @@ Save_get_string_idx(string s)
 #define TAG_VAR		'V'
 #define TAG_EXTOBJ	'O'
 
-bool
-Save_graph(string type_sig, string file_name, g_ptr node)
+// Quote a file name for the shell
+static string
+shell_quote(string name)
+{
+    tstr_ptr ts = new_temp_str_mgr();
+    string res = gen_strtemp(ts, "'");
+    for(string p = name; *p != 0; p++) {
+	if( *p == '\'' )
+	    res = gen_strappend(ts, "'\\''");
+	else
+	    res = gen_charappend(ts, *p);
+    }
+    res = wastrsave(stringsp, gen_charappend(ts, '\''));
+    free_temp_str_mgr(ts);
+    return res;
+}
+
+// The directory with the parts of the file being written or read
+static string
+make_work_dir(string prefix)
+{
+    string dir = tprintf("%s/%s_XXXXXX", Voss_tmp_dir, prefix);
+    if( mkdtemp(dir) == NULL ) {
+	Fail_pr("Cannot make a temporary directory in %s (%s)",
+		Voss_tmp_dir, strerror(errno));
+	return NULL;
+    }
+    return( wastrsave(stringsp, dir) );
+}
+
+static void
+remove_work_dir(string dir)
+{
+    int i = system(tprintf("rm -rf %s", shell_quote(dir)));
+    (void) i;
+}
+
+static bool
+save_graph_in_dir(string dir, string type_sig, string file_name, g_ptr node)
 {
-    Serialize_Begin();
-    Sprintf(buf, "%s/tmp_save_XXXXXX", Voss_tmp_dir);
-    string dir = wastrsave(stringsp, mkdtemp(buf));
     Sprintf(buf, "%s/signature", dir);
     string sig_file_name = wastrsave(stringsp, buf);
     Sprintf(buf, "%s/bexprs", dir);
     string bexpr_file_name = wastrsave(stringsp, buf);
     Sprintf(buf, "%s/bools", dir);
     string bool_file_name = wastrsave(stringsp, buf);
-    new_uniq_buf(&bexpr_buf, 100, sizeof(bexpr));
-    new_uniq_buf(&bool_buf, 100, sizeof(formula));
-    new_uniq_buf(&string_buf, 100, sizeof(string));
-
     // Graph saving
     Sprintf(buf, "%s/graph", dir);
     FILE *fp = fopen(buf, "w");
@@ -1033,30 +1063,38 @@ Save_graph(string type_sig, string file_name, g_ptr node)
     fprintf(fp, "%d\n", g_save_cnt);
     fprintf(fp, "%s\n", type_sig);
     fclose(fp);
-    free_uniq_buf(&bexpr_buf);
-    free_uniq_buf(&bool_buf);
-    free_uniq_buf(&string_buf);
     // Tar up the files
-    Sprintf(buf,
-	    "tar -c -z -C %s -f %s signature bexprs bools strings graph",
-	    dir, file_name);
-    if( system(buf) != 0 ) {
-	Fail_pr("Command '%s' failed????", buf);
+    string cmd =
+	tprintf("tar -c -z -C %s -f - signature bexprs bools strings graph "
+		"> %s", shell_quote(dir), shell_quote(file_name));
+    if( system(cmd) != 0 ) {
+	Fail_pr("Command '%s' failed????", cmd);
 	return FALSE;
     }
-    Sprintf(buf, "rm -rf %s", dir);
-    int i  = system(buf);
-    (void) i;
-    Serialize_End();
     return TRUE;
 }
 
 bool
-Load_graph(string type_sig, string file_name, g_ptr redex)
+Save_graph(string type_sig, string file_name, g_ptr node)
+{
+    string dir = make_work_dir("tmp_save");
+    if( dir == NULL ) return FALSE;
+    Serialize_Begin();
+    new_uniq_buf(&bexpr_buf, 100, sizeof(bexpr));
+    new_uniq_buf(&bool_buf, 100, sizeof(formula));
+    new_uniq_buf(&string_buf, 100, sizeof(string));
+    bool ok = save_graph_in_dir(dir, type_sig, file_name, node);
+    free_uniq_buf(&bexpr_buf);
+    free_uniq_buf(&bool_buf);
+    free_uniq_buf(&string_buf);
+    Serialize_End();
+    remove_work_dir(dir);
+    return ok;
+}
+
+static bool
+load_graph_from_dir(string dir, string type_sig, string file_name, g_ptr redex)
 {
-    Unserialize_Begin();
-    Sprintf(buf, "%s/tmp_load_XXXXXX", Voss_tmp_dir);
-    string dir = wastrsave(stringsp, mkdtemp(buf));
     // Make files
     Sprintf(buf, "%s/signature", dir);
     string sig_file_name = wastrsave(stringsp, buf);
@@ -1069,19 +1107,18 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     Sprintf(buf, "%s/graph", dir);
     string graph_file_name = wastrsave(stringsp, buf);
     // ------------- Untar file into tmp directory ------------------
-    string cmd = tprintf("tar -C %s -xzf %s", dir, file_name);
+    string cmd = tprintf("tar -C %s -xzf - < %s",
+			 shell_quote(dir), shell_quote(file_name));
     int ret;
     if( (ret = system(cmd)) != 0 ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to read %s (return code %d)",
 					  file_name, ret));
-	Unserialize_End();
 	return(FALSE);
     }
     // ------------- Read and parse signature ------------------
     FILE *fp;
     if( (fp = fopen(sig_file_name, "r")) == NULL ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to open %s", sig_file_name));
-	Unserialize_End();
 	return(FALSE);
     }
     int g_node_cnt;
@@ -1089,7 +1126,6 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	fclose(fp);
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Syntax error at line 1 in %s",
 					  sig_file_name));
-	Unserialize_End();
 	return(FALSE);
     }
     string tmp = strtemp("");
@@ -1098,7 +1134,6 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     if( strncmp(tmp, type_sig, strlen(type_sig)) != 0 ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Type signature mismatch in %s",
 					  file_name));
-	Unserialize_End();
 	return(FALSE);
     }
     // ------------- Read bools ------------------
@@ -1107,7 +1142,6 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to read BDDs in %s",
 					  file_name));
 	free_buf(&bool_results);
-	Unserialize_End();
 	return(FALSE);
     }
     // ------------- Read bexprs ------------------
@@ -1117,7 +1151,6 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 					  file_name));
 	free_buf(&bool_results);
 	free_buf(&bexpr_results);
-	Unserialize_End();
 	return(FALSE);
     }
     // ------------- Read strings ------------------
@@ -1127,7 +1160,6 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	free_buf(&bool_results);
 	free_buf(&bexpr_results);
 	free_buf(&str_results);
-	Unserialize_End();
 	return( FALSE );
     }
     while( !feof(fp) ) {
@@ -1146,8 +1178,7 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 		free_buf(&bool_results);
 		free_buf(&bexpr_results);
 		free_buf(&str_results);
-		Unserialize_End();
-		return( FALSE );
+			return( FALSE );
 	    }
 	    charappend(c);
 	}
@@ -1163,7 +1194,6 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
 	free_buf(&bool_results);
 	free_buf(&bexpr_results);
 	free_buf(&str_results);
-	Unserialize_End();
 	return( FALSE );
     }
     g_ptr result;
@@ -1175,13 +1205,24 @@ Load_graph(string type_sig, string file_name, g_ptr redex)
     free_buf(&bool_results);
     free_buf(&bexpr_results);
     free_buf(&str_results);
-    Sprintf(buf, "rm -rf %s", dir);
-    int i = system(buf);
-    (void) i;
-    Unserialize_End();
     return( TRUE );
 }
 
+bool
+Load_graph(string type_sig, string file_name, g_ptr redex)
+{
+    string dir = make_work_dir("tmp_load");
+    if( dir == NULL ) {
+	make_redex_failure(redex);
+	return FALSE;
+    }
+    Unserialize_Begin();
+    bool ok = load_graph_from_dir(dir, type_sig, file_name, redex);
+    Unserialize_End();
+    remove_work_dir(dir);
+    return ok;
+}
+
 void
 Init_io()
 {
-- 
2.43.0


From 121c93decf6c759a30d0dadd86ea1b64095cf768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:59 +0000
Subject: [PATCH 27/53] fix: a reference cell that occurs several times in a
 written value became several cells when read back

---
 src/bin/fl/serialize.c | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/serialize.c b/src/bin/fl/serialize.c
index 5dd0494..6c5e7a7 100644
--- a/src/bin/fl/serialize.c
+++ b/src/bin/fl/serialize.c
@@ -52,6 +52,8 @@ static bool unserialize_in_process = FALSE;
 static bool serialize_in_process   = FALSE;
 static hash_record      objs_saved;	// For writing pointers
 static hash_record	pointer_map;    // For reading pointers
+static hash_record	ref_vars_saved;	// Reference cells already written
+static hash_record	ref_var_map;	// For reading reference cells
 static FILE *cur_fp;
 static void (*cur_write_hash_key)(FILE *fp, pointer key);
 static void (*cur_write_hash_data)(FILE *fp, pointer data);
@@ -86,6 +88,7 @@ void
 Serialize_Begin()
 {
     create_hash(&objs_saved, 1000, ptr_hash, ptr_equ);
+    create_hash(&ref_vars_saved, 100, pint_hash, pint_equ);
     serialize_in_process = TRUE;
 }
 
@@ -93,6 +96,7 @@ void
 Serialize_End()
 {
     dispose_hash(&objs_saved, NULLFCN);
+    dispose_hash(&ref_vars_saved, NULLFCN);
     serialize_in_process = FALSE;
 }
 
@@ -100,6 +104,7 @@ void
 Unserialize_Begin()
 {
     create_hash(&pointer_map, 1000, ptr_hash, ptr_equ);
+    create_hash(&ref_var_map, 100, pint_hash, pint_equ);
     unserialize_in_process = TRUE;
 }
 
@@ -107,6 +112,7 @@ void
 Unserialize_End()
 {
     dispose_hash(&pointer_map, NULLFCN);
+    dispose_hash(&ref_var_map, NULLFCN);
     unserialize_in_process = FALSE;
 }
 
@@ -516,7 +522,8 @@ read_g_ptr(FILE *fp, g_ptr *pp)
 #define TAG_BOOL        'B'
 #define TAG_BEXPR       'E'
 #define TAG_FAIL        'F'
-#define TAG_REF_VAR     'R'
+#define TAG_REF_VAR     'R'	// Written by earlier versions
+#define TAG_REF_CELL    'r'
 #define TAG_PRINTF      '!'
 #define TAG_EPRINTF     '@'
 #define TAG_FPRINTF     '#'
@@ -605,10 +612,15 @@ write_g_rec(FILE *fp, g_ptr np)
 				}
 			    case P_REF_VAR:
 				{
-				    EMIT(TAG_REF_VAR);
+				    // Several nodes can denote the same cell
+				    EMIT(TAG_REF_CELL);
 				    int ref_var = GET_REF_VAR(np);
-				    g_ptr root = Get_RefVar(ref_var);
-				    write_g_ptr(fp, root);
+				    write_int(fp, ref_var);
+				    pointer key = INT2PTR(ref_var+1);
+				    if( find_hash(&ref_vars_saved,key)==NULL ) {
+					insert_hash(&ref_vars_saved, key, key);
+					write_g_ptr(fp, Get_RefVar(ref_var));
+				    }
 				    return;
 				}
 			    case P_SSCANF:
@@ -734,6 +746,26 @@ read_g_rec(FILE *fp, g_ptr np)
 	    SET_REF_VAR(np, ref_var);
 	    return;
 	}
+	case TAG_REF_CELL: {
+	    int old;
+	    read_int(fp, &old);
+	    pointer key = INT2PTR(old+1);
+	    pointer cell = find_hash(&ref_var_map, key);
+	    if( cell != NULL ) {
+		MAKE_REDEX_PRIM_FN(np, P_REF_VAR);
+		SET_REF_VAR(np, PTR2INT(cell)-1);
+		return;
+	    }
+	    int ref_var = Make_RefVar();
+	    insert_hash(&ref_var_map, key, INT2PTR(ref_var+1));
+	    MAKE_REDEX_PRIM_FN(np, P_REF_VAR);
+	    SET_REF_VAR(np, ref_var);
+	    g_ptr c;
+	    read_g_ptr(fp, &c);
+	    Set_RefVar(ref_var, c);
+	    INC_REFCNT(c);
+	    return;
+	}
 	case TAG_SSCANF: {
 	    string s;
 	    read_string(fp, &s);
-- 
2.43.0


From 050f686122334e93f93ad74bd78219e50060a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 28/53] fix: a written value was read back as a value of
 another type when the signatures had a common beginning or differed in a
 component type

---
 src/bin/fl/io.c     | 22 ++++++++++++++---
 src/bin/fl/symbol.c | 57 +++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 74 insertions(+), 5 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index bec6336..66e7edf 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -1092,6 +1092,23 @@ Save_graph(string type_sig, string file_name, g_ptr node)
     return ok;
 }
 
+// Is the rest of the file this signature? Files of earlier versions contain
+// only the first line of it.
+static bool
+same_signature(FILE *fp, string sig)
+{
+    int c;
+    bool line_end = FALSE;
+    while( *sig != 0 ) {
+	if( (c = fgetc(fp)) != *sig ) {
+	    return( c == EOF && line_end );
+	}
+	line_end = (c == '\n');
+	sig++;
+    }
+    return( fgetc(fp) == '\n' && fgetc(fp) == EOF );
+}
+
 static bool
 load_graph_from_dir(string dir, string type_sig, string file_name, g_ptr redex)
 {
@@ -1128,10 +1145,9 @@ load_graph_from_dir(string dir, string type_sig, string file_name, g_ptr redex)
 					  sig_file_name));
 	return(FALSE);
     }
-    string tmp = strtemp("");
-    tmp = fgets(tmp, STR_BLOCK_SIZE-1, fp);
+    bool same_type = same_signature(fp, type_sig);
     fclose(fp);
-    if( strncmp(tmp, type_sig, strlen(type_sig)) != 0 ) {
+    if( !same_type ) {
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Type signature mismatch in %s",
 					  file_name));
 	return(FALSE);
diff --git a/src/bin/fl/symbol.c b/src/bin/fl/symbol.c
index c1c71f0..fae35ff 100644
--- a/src/bin/fl/symbol.c
+++ b/src/bin/fl/symbol.c
@@ -683,6 +683,54 @@ Merge_fn_defs(symbol_tbl_ptr stbl1, symbol_tbl_ptr stbl2, bool permissive)
     return( stbl1 );
 }
 
+// The parts of a type as they are defined now
+static void
+add_type_to_signature(SHA256_ptr sha, typeExp_ptr type)
+{
+    type = Get_Real_Type(type);
+    if( type->typeOp == typeVar_tp ) {
+	SHA256_printf(sha, "*");
+	return;
+    }
+    switch( type->typeOp ) {
+	case arrow_tp:	SHA256_printf(sha, "(->"); break;
+	case tuple_tp:	SHA256_printf(sha, "(#"); break;
+	case list_tp:	SHA256_printf(sha, "(list"); break;
+	case ref_tp:	SHA256_printf(sha, "(ref"); break;
+	case tbl_tp:	SHA256_printf(sha, "(tbl"); break;
+	case concrete_type_tp: {
+	    pointer sig = find_hash(&TypeSignatureTbl, (pointer) type->u.name);
+	    SHA256_printf(sha, "(%s %s", type->u.name, sig? (string) sig : "");
+	    break;
+	}
+	default:
+	    SHA256_printf(sha, "(%s", get_tmp_signature_string(type));
+	    break;
+    }
+    for(typeList_ptr tl = type->typelist; tl != NULL; tl = tl->next) {
+	SHA256_printf(sha, " ");
+	add_type_to_signature(sha, tl->type);
+    }
+    SHA256_printf(sha, ")");
+}
+
+static string
+exact_type_signature(string name, fn_ptr fns)
+{
+    // An earlier definition of the same name is not a part of the new one
+    if( find_hash(&TypeSignatureTbl, (pointer) name) != NULL )
+        delete_hash(&TypeSignatureTbl, (pointer) name);
+    SHA256_ptr sha = Begin_SHA256();
+    SHA256_printf(sha, "%s", name);
+    for(fn_ptr fnp = fns; fnp != NULL; fnp = fnp->next) {
+	SHA256_printf(sha, " | %s ", fnp->name);
+	add_type_to_signature(sha, fnp->type);
+    }
+    string res = Get_SHA256_hash(sha);
+    End_SHA256(sha);
+    return res;
+}
+
 symbol_tbl_ptr
 Add_Destructors(string name, typeExp_ptr new_type,
                 symbol_tbl_ptr stbl, string file, int start_line)
@@ -740,10 +788,15 @@ Add_Destructors(string name, typeExp_ptr new_type,
         insert_hash(&Constructor_Table, (pointer) (fnp->name),
                                         (pointer) (fnp->name));
     }
-    string type_sig = wastrsave(stringsp, gen_strappend(tmp_strings, ""));
+    // The first line is the signature of earlier versions. It does not
+    // determine the type, so the second identifies its definition exactly.
+    string exact_sig = exact_type_signature(name, fnl);
+    gen_charappend(tmp_strings, '\n');
+    string type_sig = wastrsave(stringsp,
+				gen_strappend(tmp_strings, exact_sig));
     if( find_hash(&TypeSignatureTbl, (pointer) name) != NULL )
         delete_hash(&TypeSignatureTbl, (pointer) name);
-    insert_hash(&TypeSignatureTbl, (pointer) name, type_sig);
+    insert_hash(&TypeSignatureTbl, (pointer) name, exact_sig);
     free_temp_str_mgr(tmp_strings);
     if( Is_monomorphic(new_type) ) {
         // Save function
-- 
2.43.0


From 25795e0863f9b1c2533f7eb845dbe56a37bc7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 29/53] fix: a qsort inside the comparison function of another
 qsort gave wrong orders or crashed

---
 src/bin/fl/list_ops.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin/fl/list_ops.c b/src/bin/fl/list_ops.c
index 3d3f7ce..ad1cefb 100644
--- a/src/bin/fl/list_ops.c
+++ b/src/bin/fl/list_ops.c
@@ -233,6 +233,10 @@ fl_qsort(g_ptr redex)
         push_buf(&buf, (pointer) &e);
         list = GET_CONS_TL(list);
     }
+    // The comparison function may itself call qsort
+    g_ptr   outer_comparison_fun = comparison_fun;
+    jmp_buf outer_qsort_env;
+    memcpy(&outer_qsort_env, &qsort_env, sizeof(jmp_buf));
     comparison_fun = cmp_fn;
     SET_REFCNT(comparison_fun, MAX_REF_CNT);
     if( setjmp(qsort_env) == 0 ) {
@@ -247,6 +251,9 @@ fl_qsort(g_ptr redex)
     } else {
 	MAKE_REDEX_FAILURE(redex, FailBuf);
     }
+    comparison_fun = outer_comparison_fun;
+    memcpy(&qsort_env, &outer_qsort_env, sizeof(jmp_buf));
+    free_buf(&buf);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
     return;
-- 
2.43.0


From 00e767d6fb5ae37d30ef328f81a8a22fe7f372fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:56 +0000
Subject: [PATCH 30/53] fix: counts that do not fit in an int were truncated,
 negative or zero counts crashed lastn, butlastn, str_cluster and read outside
 strings

---
 src/bin/fl/arb_prec.c     | 12 ++++++++++++
 src/bin/fl/arb_prec.h     |  1 +
 src/bin/fl/graph.c        |  6 +-----
 src/bin/fl/int_ops.c      |  3 ++-
 src/bin/fl/list_ops.c     |  2 ++
 src/bin/fl/voss_strings.c |  9 ++++++---
 6 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 2e4f902..fc4272e 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -10,6 +10,7 @@
 *                                                                   *
 *********************************************************************/
 /* arb_prec.c: arbitrary precision integer arithmetic */
+#include <limits.h>
 #include "arb_prec.h"
 
 /* ------------- Global variables ------------- */
@@ -117,6 +118,17 @@ Arbi_ToInt(arbi_T x)
     return(NULL);
 }
 
+int
+Arbi_ToBoundedInt(arbi_T x)
+{
+    // Integers that do not fit in an int yield the closest int
+    long int top = x[Length(x)-1];
+    if( Length(x) == 1 && top >= INT_MIN && top <= INT_MAX ) {
+	return( (int) top );
+    }
+    return( (top < 0)? INT_MIN : INT_MAX );
+}
+
 void
 Arbi_mark(arbi_T p)
 {
diff --git a/src/bin/fl/arb_prec.h b/src/bin/fl/arb_prec.h
index 436f215..791fc9f 100644
--- a/src/bin/fl/arb_prec.h
+++ b/src/bin/fl/arb_prec.h
@@ -22,6 +22,7 @@ arbi_T		Arbi_FromString(char *s, int base);
 char		*Arbi_ToString(arbi_T n, int base);
 arbi_T		Arbi_FromInt(long int i);
 long int	*Arbi_ToInt(arbi_T x);
+int		Arbi_ToBoundedInt(arbi_T x);
 
 /* Arithmetic operations */
 arbi_T 		Arbi_cpy(arbi_T x);
diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index e2b5706..1e3f242 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -1764,11 +1764,7 @@ Can_Fail_Pat_Match(g_ptr node)
 int
 GET_INT(g_ptr node)
 {
-    arbi_T ai;
-    int    ret;
-    ai = GET_AINT(node);
-    ret = (int) (*Arbi_ToInt(ai));
-    return ret;
+    return( Arbi_ToBoundedInt(GET_AINT(node)) );
 }
 
 void
diff --git a/src/bin/fl/int_ops.c b/src/bin/fl/int_ops.c
index 20328d7..e1f9066 100644
--- a/src/bin/fl/int_ops.c
+++ b/src/bin/fl/int_ops.c
@@ -42,7 +42,8 @@ do_srandom(g_ptr redex)
 {
     g_ptr l = GET_APPLY_LEFT(redex);
     g_ptr r = GET_APPLY_RIGHT(redex);
-    srandom(GET_INT(r));
+    // The low bits of the seed (which may be larger than an int)
+    srandom((unsigned int) *(GET_AINT(r)));
     MAKE_REDEX_VOID(redex);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
diff --git a/src/bin/fl/list_ops.c b/src/bin/fl/list_ops.c
index ad1cefb..4899ff8 100644
--- a/src/bin/fl/list_ops.c
+++ b/src/bin/fl/list_ops.c
@@ -681,6 +681,7 @@ lastn(g_ptr redex)
     g_ptr list;
     EXTRACT_2_ARGS(redex, gcnt, list);
     int cnt = GET_INT(gcnt);
+    if( cnt < 0 ) { cnt = 0; }
     int len = 0;
     for(g_ptr cur = list; !IS_NIL(cur); cur = GET_CONS_TL(cur)) {
 	len++;
@@ -718,6 +719,7 @@ butlastn(g_ptr redex)
     g_ptr list;
     EXTRACT_2_ARGS(redex, gcnt, list);
     int cnt = GET_INT(gcnt);
+    if( cnt < 0 ) { cnt = 0; }
     int len = 0;
     for(g_ptr cur = list; !IS_NIL(cur); cur = GET_CONS_TL(cur)) {
 	len++;
diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 3e9782a..30ec2c5 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -1084,6 +1084,7 @@ string_lastn(g_ptr redex)
     int cnt = GET_INT(r);
     string tmp = strtemp(s);
     int len = strlen(s);
+    if( cnt < 0 ) { cnt = 0; }
     if( len <= cnt ) {
         MAKE_REDEX_STRING(redex, wastrsave(stringsp, tmp));
     } else {
@@ -1103,6 +1104,7 @@ string_butlastn(g_ptr redex)
     int cnt = GET_INT(r);
     string tmp = strtemp(s);
     int len = strlen(s);
+    if( cnt < 0 ) { cnt = 0; }
     if( len <= cnt ) {
 	MAKE_REDEX_STRING(redex, wastrsave(stringsp, ""));
     } else {
@@ -1121,6 +1123,7 @@ string_butfirstn(g_ptr redex)
     string s = GET_STRING(GET_APPLY_RIGHT(l));
     int cnt = GET_INT(r);
     int len = strlen(s);
+    if( cnt < 0 ) { cnt = 0; }
     if( len < cnt ) {
 	string msg =
 	    Fail_pr("string_butfirstn %d greater than string length %d (%s)",
@@ -1202,7 +1205,7 @@ string_substr(g_ptr redex)
 	DEC_REF_CNT(r);
 	return;
     }
-    if( (loc + cnt - 1) > len ) {
+    if( cnt > (len - loc + 1) ) {
 	string msg = Fail_pr(
       "loc (%d) plus cnt (%d) greater than length of string (%d) in str_substr", 
 			loc, cnt, len);
@@ -1270,7 +1273,7 @@ string_gen_trim(g_ptr redex)
     string last = found;
     while( found != NULL ) {
 	last = found;
-	found = strstr(found+1, suff);
+	found = (*found == 0)? NULL : strstr(found+1, suff);
     }
     if( last == NULL ) {
 	string msg = Fail_pr("trim: Cannot find suffix (%s) in string (%s)",
@@ -1298,7 +1301,7 @@ string_str_cluster(g_ptr redex)
     string s = GET_STRING(arg1);
     int  sz  = GET_INT(arg2);
     int len  = strlen(s);
-    if( (len % sz) != 0 ) {
+    if( sz <= 0 || (len % sz) != 0 ) {
 	MAKE_REDEX_FAILURE(redex,
 		Fail_pr("str_cluster: string length not a multiple of %d", sz));
 	DEC_REF_CNT(l);
-- 
2.43.0


From b78e3d0d5696c25edca9cfe1f7a4b3bda2b46704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:07 +0000
Subject: [PATCH 31/53] fix: tbl_create with a negative or huge size hint
 crashed and a failing tbl_insertn left the table half changed

---
 src/bin/fl/table.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/bin/fl/table.c b/src/bin/fl/table.c
index 5b003a5..7371e9e 100644
--- a/src/bin/fl/table.c
+++ b/src/bin/fl/table.c
@@ -12,6 +12,9 @@
 #include "graph.h"
 #include <math.h>
 
+// The size given to tbl_create is only a hint. The table grows when needed.
+#define MAX_INIT_SZ	1000000
+
 /* ------------- Global variables ------------- */
 
 /********* Global variables referenced ***********/
@@ -41,6 +44,8 @@ table_create(g_ptr redex)
     g_ptr   g_n;
     EXTRACT_1_ARG(redex, g_n);
     int n = GET_INT(g_n);
+    if( n < 1 ) { n = 1; }
+    if( n > MAX_INIT_SZ ) { n = MAX_INIT_SZ; }
     table_ptr tp = get_table_rec();
     create_hash(&(tp->tbl), n, G_rec_hash, G_rec_equ);
     MAKE_REDEX_EXT_OBJ(redex, table_oidx, tp);
@@ -107,11 +112,17 @@ table_insertn(g_ptr redex)
     g_ptr   g_tbl, kd_list;
     EXTRACT_2_ARGS(redex, g_tbl, kd_list);
     table_ptr tp = (table_ptr) GET_EXT_OBJ(g_tbl);
+    g_ptr kd_start = kd_list;
     while( !IS_NIL(kd_list) ) {
 	g_ptr gp = GET_CONS_HD(kd_list);
 	g_ptr g_key = GET_FST(gp);
 	g_ptr g_data = GET_SND(gp);
 	if( find_hash(&(tp->tbl), g_key) != NULL ) {
+	    // Leave the table as it was
+	    while( kd_start != kd_list ) {
+		delete_hash(&(tp->tbl), GET_FST(GET_CONS_HD(kd_start)));
+		kd_start = GET_CONS_TL(kd_start);
+	    }
 	    MAKE_REDEX_FAILURE(redex,Fail_pr("tbl_insertn with duplicate key"));
 	    return;
 	} else {
@@ -131,9 +142,15 @@ set_table_insertn(g_ptr redex)
     g_ptr   g_tbl, k_list;
     EXTRACT_2_ARGS(redex, g_tbl, k_list);
     table_ptr tp = (table_ptr) GET_EXT_OBJ(g_tbl);
+    g_ptr k_start = k_list;
     while( !IS_NIL(k_list) ) {
 	g_ptr g_key = GET_CONS_HD(k_list);
 	if( find_hash(&(tp->tbl), g_key) != NULL ) {
+	    // Leave the table as it was
+	    while( k_start != k_list ) {
+		delete_hash(&(tp->tbl), GET_CONS_HD(k_start));
+		k_start = GET_CONS_TL(k_start);
+	    }
 	    MAKE_REDEX_FAILURE(redex,
 			       Fail_pr("set_tbl_insertn with duplicate key"));
 	    return;
-- 
2.43.0


From 1a7286e577dba562664a4d1c22bb5bfdb3b33416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:22 +0000
Subject: [PATCH 32/53] fix: find, el, loop, sitlist and append on an empty
 list evaluated a shared argument more than once

---
 src/bin/fl/list_ops.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/fl/list_ops.c b/src/bin/fl/list_ops.c
index 4899ff8..81bf2af 100644
--- a/src/bin/fl/list_ops.c
+++ b/src/bin/fl/list_ops.c
@@ -379,6 +379,7 @@ el(g_ptr redex)
     }
     g_ptr res = find_hash(&(atp->tbl), INT2PTR(idx));
     if( res != NULL ) {
+	res = traverse_left(res);
 	OVERWRITE(redex, res);
 	DEC_REF_CNT(l);
 	DEC_REF_CNT(r);
@@ -437,6 +438,8 @@ loop(g_ptr redex)
 	    return;
 	}
 	if( GET_BOOL(stop) == B_One() ) {
+	    // The initial value may not have been evaluated
+	    cur = traverse_left(cur);
 	    OVERWRITE(redex, cur);
 	    DEC_REF_CNT(l);
 	    DEC_REF_CNT(r);
@@ -487,6 +490,8 @@ sitlist(g_ptr redex)
 	cur = Eval(cur);
 	POP_GLOBAL_GC(1);
     }
+    // With an empty list, init has not been evaluated
+    cur = traverse_left(cur);
     OVERWRITE(redex, cur);
 }
 
@@ -866,6 +871,8 @@ find(g_ptr redex)
 	}
 	formula res = GET_BOOL(use);
 	if( res == B_One() ) {
+	    // find is a projection function thus evaluate before overwriting
+	    e = traverse_left(e);
 	    OVERWRITE(redex, e);
 	    DEC_REF_CNT(l);
 	    DEC_REF_CNT(r);
@@ -1389,6 +1396,9 @@ append(g_ptr redex)
     EXTRACT_2_ARGS(redex, list1, list2);
     if( IS_NIL(list1) ) {
 	g_ptr l = GET_APPLY_LEFT(redex);
+	// Now a projection function thus evaluate before overwriting,
+	// unless nobody else can see list2.
+	if( GET_REFCNT(list2) > 1 ) { list2 = traverse_left(list2); }
 	OVERWRITE(redex, list2);
 	DEC_REF_CNT(l);
 	return;
-- 
2.43.0


From 67359fc206b0b2537c88750ffa4ee4c4f75b9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:35 +0000
Subject: [PATCH 33/53] fix: regular expressions were compiled into memory
 outside the cache, ord was negative for characters above 127, tcl2list read
 past the end of a string

---
 src/bin/fl/graph.c        | 2 +-
 src/bin/fl/voss_strings.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 1e3f242..da22c14 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4053,7 +4053,7 @@ traverse_left(g_ptr oroot)
 			    }
 			    SET_TYPE(redex, LEAF);
 			    SET_LEAF_TYPE(redex, INT);
-			    SET_INT(redex, *(GET_STRING(arg1)));
+			    SET_INT(redex, (unsigned char) *(GET_STRING(arg1)));
 			    break;
                         case P_CHR:
                             if( GET_INT(arg1) < 0 || GET_INT(arg1) > 255 ) {
diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 30ec2c5..ac4ae2f 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -692,7 +692,7 @@ tcl2list(g_ptr redex)
 		}
 		break;
 	    case '\\':
-		c += 2;
+		c += (*(c+1) == 0)? 1 : 2;
 		break;
 	    case '{':
 		if( level == 0 ) {
@@ -2356,7 +2356,7 @@ compile_regexp(string pattern, int flags)
     }
     // No cached version available.
     int new_idx = -1;
-    if( hole == -1 ) {
+    if( hole != -1 ) {
 	new_idx = hole;
     } else {
 	regfree(&(reg_cache_cexpr[oldest_idx]));
-- 
2.43.0


From 4ee7ab50c8b392b92fe73997b7b6726e5c0ee718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 34/53] fix: naming a next-state variable in var_order/VARS
 printed through an uninitialised pointer (crash)

---
 src/bin/fl/new_bdd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 0849ab9..779a137 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -1076,7 +1076,8 @@ Add_ordering_var(string var)
 {
     unint v;
     if( is_next_state_var(var) ) {
-	Wprintf("Next-state variable (%s) given ordering location. Ignored!\n");
+	Wprintf("Next-state variable (%s) given ordering location. Ignored!\n",
+		var);
     } else {
 	v = f2var(B_Var(var));
 	push_buf(&new_order_tbl, (pointer) &v);
-- 
2.43.0


From 4aa324d9f325b3b8f0a8dc89a9cd7234048c5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:57 +0000
Subject: [PATCH 35/53] fix: stride of multi-dimensional vectors with ascending
 ranges was wrong (wrong nodes used)

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 8959395..ff0d041 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5398,7 +5398,7 @@ get_stride(vec_ptr vp)
 	if( vp->type == INDEX ) {
 	    int sum = 0;
 	    for(range_ptr rp = vp->u.ranges; rp != NULL; rp = rp->next) {
-		sum += abs(rp->upper-rp->lower+1);
+		sum += abs(rp->upper-rp->lower)+1;
 	    }
 	    res = res * sum;
 	}
-- 
2.43.0


From 692141771b58717c7ca0e09b94c0697f516b56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 36/53] fix: the name of an output argument connected to
 several vectors named the wrong nodes

---
 src/bin/fl/fsm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index ff0d041..b0093e8 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5252,8 +5252,9 @@ name2idx(string name)
     string sig = get_vector_signature(vp);
     vec_info_ptr ip = (vec_info_ptr) find_hash(all_name_tblp, sig);
     while( ip != NULL ) {
-	int res = find_node_index(ip->declaration, vp, ip->map->from);
-	if( res >= 0 ) return res;
+	// The nodes of an argument need not be consecutive
+	int res = find_node_index(ip->declaration, vp, 0);
+	if( res >= 0 ) return( ilist_sel(ip->map, res) );
 	ip = ip->next;
     }
     Fail_pr("Cannot find node named '%s'", name);
-- 
2.43.0


From e8db10738d97b4c45ac6c902c11302b1089610c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 37/53] fix: fanin_dfs/fanout_dfs aborted when the predicate
 queried an fsm and passed stop nodes with several starting nodes

---
 src/bin/fl/fsm.c | 164 +++++++++++++++++++++++++++--------------------
 1 file changed, 93 insertions(+), 71 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index b0093e8..5fd2844 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -1606,70 +1606,77 @@ excitation_function(g_ptr redex)
 static void
 fanin_dfs(g_ptr redex)
 {
-    sop = Begin_string_ops();
     g_ptr g_fsm, pred, nodes;
     EXTRACT_3_ARGS(redex, g_fsm, pred, nodes);
     fsm_ptr fsm = (fsm_ptr) GET_EXT_OBJ(g_fsm);
-    push_fsm(fsm);
     buffer todo_buf;
-    new_buf(&todo_buf, 100, sizeof(unint));
+    new_buf(&todo_buf, 100, sizeof(int));
+    hash_record start_tbl;
+    create_hash(&start_tbl, 100, int_hash, int_equ);
     hash_record done_tbl;
     create_hash(&done_tbl, 100, int_hash, int_equ);
-    int cnt = 0;
+    sop = Begin_string_ops();
+    push_fsm(fsm);
     while( !IS_NIL(nodes) ) {
 	string node = GET_STRING(GET_CONS_HD(nodes));
 	int idx = name2idx(node);
 	if( idx < 0 ) {
 	    pop_fsm();
-	    MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
 	    End_string_ops(sop);
-	    return;
+	    MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
+	    goto cleanup;
 	}
 	push_buf(&todo_buf, &idx);
-	cnt++;
+	if( find_hash(&start_tbl, INT2PTR(idx)) == NULL ) {
+	    insert_hash(&start_tbl, INT2PTR(idx), INT2PTR(1));
+	}
 	nodes = GET_CONS_TL(nodes);
     }
+    pop_fsm();
+    End_string_ops(sop);
+    // The predicate is evaluated below and can cause garbage collections
+    PUSH_GLOBAL_GC(g_fsm);
+    PUSH_GLOBAL_GC(pred);
     MAKE_REDEX_NIL(redex);
     PUSH_GLOBAL_GC(redex);
     g_ptr tail = redex;
-    // Process nodes in bfs order....
+    // Process nodes in dfs order....
     while( COUNT_BUF(&todo_buf) > 0 ) {
-	unint nd_idx;
+	int nd_idx;
 	pop_buf(&todo_buf, &nd_idx);
-	cnt--;
-	if( find_hash(&done_tbl, INT2PTR(nd_idx)) == NULL ) {
-	    insert_hash(&done_tbl, INT2PTR(nd_idx), INT2PTR(1));
-	    string name = wastrsave(stringsp, idx2name(nd_idx));
-	    APPEND1(tail, Make_STRING_leaf(name));
-	    bool keep_going = TRUE;
-	    if( cnt < 0 ) {
-		// Only apply predicate on real fanin nodes
-		g_ptr stop = Make_APPL_ND(pred, Make_STRING_leaf(name));
-		INC_REFCNT(pred);
-		Eval(stop);
-		if( is_fail(stop) ) {
-		    MAKE_REDEX_FAILURE(redex, FailBuf);
-		    return;
-		}
-		if( GET_BOOL(stop) == B_One() ) { keep_going = FALSE; }
+	if( find_hash(&done_tbl, INT2PTR(nd_idx)) != NULL ) { continue; }
+	insert_hash(&done_tbl, INT2PTR(nd_idx), INT2PTR(1));
+	push_fsm(fsm);
+	string name = wastrsave(stringsp, idx2name(nd_idx));
+	pop_fsm();
+	APPEND1(tail, Make_STRING_leaf(name));
+	// Only apply predicate on nodes that are not starting points
+	if( find_hash(&start_tbl, INT2PTR(nd_idx)) == NULL ) {
+	    // Note that the predicate may query this or some other fsm
+	    g_ptr stop = Make_APPL_ND(pred, Make_STRING_leaf(name));
+	    INC_REFCNT(pred);
+	    Eval(stop);
+	    if( is_fail(stop) ) {
+		MAKE_REDEX_FAILURE(redex, FailBuf);
+		break;
 	    }
-	    if( keep_going ) {
-		nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, nd_idx);
-		int composite = np->composite;
-		if( composite >= 0 ) {
-		    ncomp_ptr cp =
-			(ncomp_ptr) M_LOCATE_BUF(compositesp, composite);
-		    FOREACH_NODE(nd, cp->inps) {
-			push_buf(&todo_buf, &nd);
-		    }
-		}
+	    if( GET_BOOL(stop) == B_One() ) { continue; }
+	}
+	push_fsm(fsm);
+	nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, nd_idx);
+	if( np->composite >= 0 ) {
+	    ncomp_ptr cp = (ncomp_ptr)M_LOCATE_BUF(compositesp, np->composite);
+	    FOREACH_NODE(nd, cp->inps) {
+		push_buf(&todo_buf, &nd);
 	    }
 	}
+	pop_fsm();
     }
-    POP_GLOBAL_GC(1);
+    POP_GLOBAL_GC(3);
+  cleanup:
     free_buf(&todo_buf);
+    dispose_hash(&start_tbl, NULLFCN);
     dispose_hash(&done_tbl, NULLFCN);
-    End_string_ops(sop);
 }
 
 static void
@@ -1709,62 +1716,77 @@ fanout(g_ptr redex)
 static void
 fanout_dfs(g_ptr redex)
 {
-    sop = Begin_string_ops();
     g_ptr g_fsm, pred, nodes;
     EXTRACT_3_ARGS(redex, g_fsm, pred, nodes);
     fsm_ptr fsm = (fsm_ptr) GET_EXT_OBJ(g_fsm);
-    push_fsm(fsm);
     buffer todo_buf;
-    new_buf(&todo_buf, 100, sizeof(unint));
+    new_buf(&todo_buf, 100, sizeof(int));
+    hash_record start_tbl;
+    create_hash(&start_tbl, 100, int_hash, int_equ);
     hash_record done_tbl;
     create_hash(&done_tbl, 100, int_hash, int_equ);
-    int cnt = 0;
+    sop = Begin_string_ops();
+    push_fsm(fsm);
     while( !IS_NIL(nodes) ) {
 	string node = GET_STRING(GET_CONS_HD(nodes));
-	unint idx = name2idx(node);
+	int idx = name2idx(node);
+	if( idx < 0 ) {
+	    pop_fsm();
+	    End_string_ops(sop);
+	    MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
+	    goto cleanup;
+	}
 	push_buf(&todo_buf, &idx);
-	cnt++;
+	if( find_hash(&start_tbl, INT2PTR(idx)) == NULL ) {
+	    insert_hash(&start_tbl, INT2PTR(idx), INT2PTR(1));
+	}
 	nodes = GET_CONS_TL(nodes);
     }
+    pop_fsm();
+    End_string_ops(sop);
+    // The predicate is evaluated below and can cause garbage collections
+    PUSH_GLOBAL_GC(g_fsm);
+    PUSH_GLOBAL_GC(pred);
     MAKE_REDEX_NIL(redex);
     PUSH_GLOBAL_GC(redex);
     g_ptr tail = redex;
-    // Process nodes in bfs order....
+    // Process nodes in dfs order....
     while( COUNT_BUF(&todo_buf) > 0 ) {
-	unint nd_idx;
+	int nd_idx;
 	pop_buf(&todo_buf, &nd_idx);
-	cnt--;
-	if( find_hash(&done_tbl, INT2PTR(nd_idx)) == NULL ) {
-	    insert_hash(&done_tbl, INT2PTR(nd_idx), INT2PTR(1));
-	    string name = wastrsave(stringsp, idx2name(nd_idx));
-	    APPEND1(tail, Make_STRING_leaf(name));
-	    bool keep_going = TRUE;
-	    if( cnt < 0 ) {
-		// Only apply predicate on real fanout nodes
-		g_ptr stop = Make_APPL_ND(pred, Make_STRING_leaf(name));
-		INC_REFCNT(pred);
-		Eval(stop);
-		if( is_fail(stop) ) {
-		    MAKE_REDEX_FAILURE(redex, FailBuf);
-		    return;
-		}
-		if( GET_BOOL(stop) == B_One() ) { keep_going = FALSE; }
+	if( find_hash(&done_tbl, INT2PTR(nd_idx)) != NULL ) { continue; }
+	insert_hash(&done_tbl, INT2PTR(nd_idx), INT2PTR(1));
+	push_fsm(fsm);
+	string name = wastrsave(stringsp, idx2name(nd_idx));
+	pop_fsm();
+	APPEND1(tail, Make_STRING_leaf(name));
+	// Only apply predicate on nodes that are not starting points
+	if( find_hash(&start_tbl, INT2PTR(nd_idx)) == NULL ) {
+	    // Note that the predicate may query this or some other fsm
+	    g_ptr stop = Make_APPL_ND(pred, Make_STRING_leaf(name));
+	    INC_REFCNT(pred);
+	    Eval(stop);
+	    if( is_fail(stop) ) {
+		MAKE_REDEX_FAILURE(redex, FailBuf);
+		break;
 	    }
-	    if( keep_going ) {
-		nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, nd_idx);
-		for(idx_list_ptr ip = np->fanouts; ip != NULL; ip = ip->next) {
-		    ncomp_ptr cp = (ncomp_ptr)M_LOCATE_BUF(compositesp,ip->idx);
-		    FOREACH_NODE(nd, cp->outs) {
-			push_buf(&todo_buf, &nd);
-		    }
-		}
+	    if( GET_BOOL(stop) == B_One() ) { continue; }
+	}
+	push_fsm(fsm);
+	nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, nd_idx);
+	for(idx_list_ptr ip = np->fanouts; ip != NULL; ip = ip->next) {
+	    ncomp_ptr cp = (ncomp_ptr) M_LOCATE_BUF(compositesp, ip->idx);
+	    FOREACH_NODE(nd, cp->outs) {
+		push_buf(&todo_buf, &nd);
 	    }
 	}
+	pop_fsm();
     }
-    POP_GLOBAL_GC(1);
+    POP_GLOBAL_GC(3);
+  cleanup:
     free_buf(&todo_buf);
+    dispose_hash(&start_tbl, NULLFCN);
     dispose_hash(&done_tbl, NULLFCN);
-    End_string_ops(sop);
 }
 
 static void
-- 
2.43.0


From 68ea4b1a3ea40e3fa6b8c0debcc49f22ce35301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:55 +0000
Subject: [PATCH 38/53] fix: print and fprintf to stdout/stderr lost what did
 not fit into 16383 characters

---
 src/bin/fl/error.c | 73 +++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/src/bin/fl/error.c b/src/bin/fl/error.c
index 077360f..4fce06e 100644
--- a/src/bin/fl/error.c
+++ b/src/bin/fl/error.c
@@ -32,6 +32,30 @@ static char safe_buf[2*FBUF_MAX_SZ];
 /*			GLOBAL FUNCTIONS				*/
 /************************************************************************/
 
+// Send one (buffer sized) piece of text to the GUI.
+static void
+write_to_gui(odests fp, string txt)
+{
+    string safe_buf = make_tcl_safe(txt);
+    string tmp = protect(safe_buf, NULL);
+    switch( fp ) {
+	case stdout_fp:
+	    fprintf(to_tcl_fp, "WriteStdOut {%s}\n", tmp); break;
+	case sim_fp:
+	    fprintf(to_tcl_fp, "WriteSim {%s}\n", tmp); break;
+	case err_fp:
+	    fprintf(to_tcl_fp, "WriteStdErr {%s}\n", tmp); break;
+	case warning_fp:
+	    fprintf(to_tcl_fp, "WriteWarning {%s}\n", tmp); break;
+	case fl_gc_fp:
+	    fprintf(to_tcl_fp, "WriteFlGC {%s}\n", tmp); break;
+	case bdd_gc_fp:
+	    fprintf(to_tcl_fp, "WriteBddGC {%s}\n", tmp); break;
+	default:
+	    fprintf(to_tcl_fp, "WriteStdOut {%s}\n", tmp); break;
+    }
+}
+
 // A shorthand for fprintf() with additional logging possible
 void
 FP_va(odests fp, const string format, va_list arg)
@@ -39,43 +63,46 @@ FP_va(odests fp, const string format, va_list arg)
     if( fp == FILE_fp ) {
         vfprintf(odests_fp, format, arg);
     } else {
-	vsnprintf(fbuf, FBUF_MAX_SZ, format, arg);
+	va_list arg2;
+	va_copy(arg2, arg);
+	string txt = fbuf;
+	int len = vsnprintf(fbuf, FBUF_MAX_SZ, format, arg);
+	if( len >= FBUF_MAX_SZ ) {
+	    // Does not fit
+	    txt = Malloc(len+1);
+	    vsnprintf(txt, len+1, format, arg2);
+	}
+	va_end(arg2);
         if( !gui_mode || use_stdout ) {
             switch( fp ) {
                 case fl_gc_fp:
                 case bdd_gc_fp:
                 case stdout_fp:
                 case warning_fp:
-                    fprintf(stdout, "%s", fbuf); break;
+                    fprintf(stdout, "%s", txt); break;
                 case sim_fp:
                 case err_fp:
-                    fprintf(stderr, "%s", fbuf); break;
+                    fprintf(stderr, "%s", txt); break;
                 default:
-                    fprintf(stderr, "%s", fbuf); break;
+                    fprintf(stderr, "%s", txt); break;
             }
         }
         if( gui_mode ) {
-	    string safe_buf = make_tcl_safe(fbuf);
-            string tmp = protect(safe_buf, NULL);
-            switch( fp ) {
-                case stdout_fp:
-                    fprintf(to_tcl_fp, "WriteStdOut {%s}\n", tmp); break;
-                case sim_fp:
-                    fprintf(to_tcl_fp, "WriteSim {%s}\n", tmp); break;
-                case err_fp:
-                    fprintf(to_tcl_fp, "WriteStdErr {%s}\n", tmp); break;
-                case warning_fp:
-                    fprintf(to_tcl_fp, "WriteWarning {%s}\n", tmp); break;
-                case fl_gc_fp:
-                    fprintf(to_tcl_fp, "WriteFlGC {%s}\n", tmp); break;
-                case bdd_gc_fp:
-                    fprintf(to_tcl_fp, "WriteBddGC {%s}\n", tmp); break;
-                default:
-                    fprintf(to_tcl_fp, "WriteStdOut {%s}\n", tmp); break;
-            }
+	    string cur = txt;
+	    while( cur != fbuf && (int) strlen(cur) >= FBUF_MAX_SZ ) {
+		// Send it in pieces, preferably complete lines
+		int sz = FBUF_MAX_SZ-1;
+		while( sz > 0 && *(cur+sz-1) != '\n' ) { sz--; }
+		if( sz == 0 ) { sz = FBUF_MAX_SZ-1; }
+		memcpy(fbuf, cur, sz);
+		fbuf[sz] = 0;
+		write_to_gui(fp, fbuf);
+		cur += sz;
+	    }
+	    write_to_gui(fp, cur);
             fflush(to_tcl_fp);
         }
-
+	if( txt != fbuf ) { Free(txt); }
     }
 }
 
-- 
2.43.0


From a4cf0f7218f081ac993e91ea66d55fe1e4ed29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:40 +0000
Subject: [PATCH 39/53] fix: sscanf %x took the characters : g G as digits and
 crashed

---
 src/bin/fl/io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 66e7edf..c0ad057 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -327,9 +327,9 @@ in_range(char c, int max)
 	int ci = c - '0';
 	int ca = c - 'a';
 	int cA = c - 'A';
-	if( 0 <= ci && ci <= 10 ) return TRUE;
-	if( 0 <= ca && ca <= 6 ) return TRUE;
-	if( 0 <= cA && cA <= 6 ) return TRUE;
+	if( 0 <= ci && ci <= 9 ) return TRUE;
+	if( 0 <= ca && ca <= 5 ) return TRUE;
+	if( 0 <= cA && cA <= 5 ) return TRUE;
 	return FALSE;
     }
 }
-- 
2.43.0


From a1bd7aae15bc253a1f904e0d00549af57c3233c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:40 +0000
Subject: [PATCH 40/53] fix: a negative width given by * was ignored by printf
 and its relatives

---
 src/bin/fl/io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index c0ad057..f5c4560 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -668,6 +668,11 @@ Printf(g_ptr *rootp, g_ptr **spp, int *depthp)
 		    {
                         /* pat_star */
                         size = GET_INT(GET_APPLY_RIGHT(*(sp+i)));
+                        if( size < 0 ) {
+                            // Documented: '-' flag and a positive width
+                            ljust = TRUE;
+                            size = -size;
+                        }
                         i++;
                     },
 		    {
-- 
2.43.0


From 9c9ebf3d7cedace6ad2771cbe034faca0a000974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:40 +0000
Subject: [PATCH 41/53] fix: printf "%2b" -3 printed 01 (negative number that
 does not fit the width)

---
 src/bin/fl/io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index f5c4560..5740990 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -701,6 +701,11 @@ Printf(g_ptr *rootp, g_ptr **spp, int *depthp)
 					*s = '1';
 				}
 			    }
+			    if( *tmp != '1' ) {
+				// Does not fit: the sign bit is lost
+				neg_too_big(i, pfn, redex);
+				goto end_pfn;
+			    }
 			} else {
 			    if(!zfill && Arbi_cmp(v,Arbi_FromInt(0))!=arbi_EQ) {
 				charappend('0');
-- 
2.43.0


From 8dbcf9a00befd636014a77f1f990e05b584c30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:40 +0000
Subject: [PATCH 42/53] fix: printf %B cut the text of a formula at 4095
 characters

---
 src/bin/fl/io.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index 5740990..acaeccc 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -48,7 +48,6 @@ extern FILE     *odests_fp;
 /**** PRIVATE VARIABLES ****/
 static rec_mgr		io_rec_mgr;
 static io_ptr		open_ios;
-static char		bdd_pbuf[4096];
 static char		buf[4096];
 static uniq_buffer	bexpr_buf;
 static uniq_buffer	bool_buf;
@@ -842,13 +841,18 @@ Printf(g_ptr *rootp, g_ptr **spp, int *depthp)
                     },
 		    {
                         /* pat_B */
-			if((odests_fp = fmemopen(bdd_pbuf,4096,"w")) == NULL ) {
+			char *bdd_pbuf = NULL;
+			size_t bdd_psize = 0;
+			odests_fp = open_memstream(&bdd_pbuf, &bdd_psize);
+			if( odests_fp == NULL ) {
 			    DIE("Should never happen");
 			}
 			B_Print(FILE_fp, GET_BOOL(GET_APPLY_RIGHT(*(sp+i))),-1);
 			fclose(odests_fp);
 			odests_fp = NULL;
-                        if( !prs(pfn, i, redex, bdd_pbuf, ljust, zfill, size) )
+			bool bok = prs(pfn, i, redex, bdd_pbuf, ljust, zfill, size);
+			free(bdd_pbuf);
+                        if( !bok )
                             goto end_pfn;
                         i++;
                     },
-- 
2.43.0


From d2c9eca8d6f161bbd81f5d4d09d4b89a0d5cd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:17 +0000
Subject: [PATCH 43/53] fix: sscanf %1s read beyond the end of the input

---
 src/bin/fl/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/io.c b/src/bin/fl/io.c
index acaeccc..d4d95eb 100644
--- a/src/bin/fl/io.c
+++ b/src/bin/fl/io.c
@@ -515,7 +515,7 @@ Sscanf(g_ptr *rootp, g_ptr **spp, int *depthp)
 			string start = inp;
 			char tmp;
 			size = (size == 0)? (int) strlen(inp) : size;
-			while( size > 0 && !isspace(*inp) ) {
+			while( size > 0 && *inp && !isspace(*inp) ) {
 			    inp++;
 			    size--;
 			}
-- 
2.43.0


From 21216cc34b259c4e21f14fbd6e748af4f03e57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:29 +0000
Subject: [PATCH 44/53] fix: designs with a negative constant of 3, 4, 6 ..
 bits were refused (constant shown in too few digits)

---
 IDVII/src/fl/design/util.fl | 11 ++++++-----
 src/bin/fl/preamble.fl      |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/IDVII/src/fl/design/util.fl b/IDVII/src/fl/design/util.fl
index f129a05..bdd5527 100644
--- a/IDVII/src/fl/design/util.fl
+++ b/IDVII/src/fl/design/util.fl
@@ -1032,9 +1032,11 @@ let base_compact_wprint inps rhs =
     let i_map = zip inps (1 upto (length inps)) in
     letrec P pri (W_X sz) = sprintf "X[%d:0]" (sz-1)
      /\    P pri (W_CONST sz v) =
-	    (sz % 4) == 0 => sprintf "0x%0*x" (sz/4) v |
-	    (sz % 3) == 0 => sprintf "0o%0*o" (sz/3) v |
-			     sprintf "0b%0*b" sz v
+	    // A negative constant is shown as its two's complement bits
+	    let u = v < 0 => v % (2**sz) | v in
+	    (sz % 4) == 0 => sprintf "0x%0*x" (sz/4) u |
+	    (sz % 3) == 0 => sprintf "0o%0*o" (sz/3) u |
+			     sprintf "0b%0*b" sz u
      /\    P pri (W_NAMED_CONST name sz v) = name
      /\    P pri (W_VAR sz base) =
 		let inp = assoc base i_map in
@@ -1169,9 +1171,8 @@ let inp2tcl inps rhs =
 		let inp = assoc base i_map in
 		sprintf "i%d" inp
      /\    P ic pri (W_NOT (W_CONST sz v)) =
-		let v' = intNOT v in
+		let v' = (intNOT v) % (2**sz) in
 		sz <= 8 => sprintf "%*b" sz v' |
-		v' < 0 => sprintf "~0x%*x" ((sz+3)/4) v |
 		sprintf "0x%*x" ((sz+3)/4) v'
      /\    P ic pri (W_SLICE indices w) =
 		let vec = pr_indices indices then
diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index f8c1dc6..f70c786 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -2124,10 +2124,12 @@ let pr_indices indices =
 letrec Pwexpr (W_X sz) = sprintf "X[%d:0]" (sz-1)
  /\    Pwexpr (W_NAMED_CONST name sz v) = name
  /\    Pwexpr (W_CONST sz v) =
+	// A negative constant is shown as its two's complement bits
+	let u = v < 0 => v % (2**sz) | v in
 	sz < 5 OR ((sz % 4) != 0) =>
-	    sprintf "0b%0*b" sz v
+	    sprintf "0b%0*b" sz u
 	|
-	    sprintf "0x%0*x" (sz/4) v
+	    sprintf "0x%0*x" (sz/4) u
  /\    Pwexpr (W_VAR sz base) = mk_name sz base
  /\    Pwexpr (W_EXPLICIT_VAR sz name) = name
  /\    Pwexpr (W_AND a b) = sprintf "(%s & %s)" (Pwexpr a) (Pwexpr b)
-- 
2.43.0


From c48ee077886f8215f1231da4c8d04b6ad51d5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:29 +0000
Subject: [PATCH 45/53] fix: constant propagation went wrong on negative,
 wrapped around and named constants

---
 IDVII/src/fl/design/simplify.fl | 64 ++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/IDVII/src/fl/design/simplify.fl b/IDVII/src/fl/design/simplify.fl
index e1f9302..b134898 100644
--- a/IDVII/src/fl/design/simplify.fl
+++ b/IDVII/src/fl/design/simplify.fl
@@ -381,48 +381,55 @@ let split_complex p =
 ;
 
 
-let do_shr sz v1 v2 = sscanf "%b" (string_butlastn (sprintf "%*b" sz v1) v2);
-let do_ashr v1 v2 = v1 >= 0 => v1 / (2**v2) | -1*((-1*v1)/(2**v2));
+let is_CONST (W_CONST sz v) = T
+ /\ is_CONST (W_NAMED_CONST name sz v) = T
+ /\ is_CONST ohter = F
+;
+
+let get_const (W_CONST sz v) = sz,v
+ /\ get_const (W_NAMED_CONST name sz v) = sz,v
+ /\ get_const other = error "Should not happen!"
+;
+
+// The constant v of sz bits read as an unsigned and as a two's complement number
+let uvalue sz v = v % (2**sz);
+let svalue sz v = let u = uvalue sz v in 2*u >= 2**sz => u - 2**sz | u;
+
+let do_shl sz v1 v2 = v2 >= sz => 0 | uvalue sz (v1*(2**v2));
+let do_shr sz v1 v2 = v2 >= sz => 0 | v1 / (2**v2);
+let do_ashr sz v1 v2 = v2 >= sz => (v1 >= 0 => 0 | -1) | v1 / (2**v2);
 
 
 let perform_binary constr e1 e2 =
-    val (W_CONST sz1 v1) = e1 in
-    val (W_CONST sz2 v2) = e2 in
+    val (sz1,c1) = get_const e1 in
+    val (sz2,c2) = get_const e2 in
     sz1 != sz2 => eprintf "Size mismatch in perform_binary (%d!=%d)" sz1 sz2 |
     let sz = sz1 in
+    let v1 = uvalue sz c1 in
+    let v2 = uvalue sz c2 in
     let  do (W_EQ  e1 e2)  = W_CONST 1 ((v1 = v2) => 1 | 0)
       /\ do (W_GR  e1 e2)  = W_CONST 1 (v1 > v2 => 1 | 0)
       /\ do (W_AND  e1 e2) = W_CONST sz (v1 intAND v2)
       /\ do (W_OR  e1 e2)  = W_CONST sz (v1 intOR v2)
-      /\ do (W_ADD e1 e2)  = W_CONST sz (v1 + v2)
-      /\ do (W_SUB e1 e2)  = W_CONST sz (v1 - v2)
-      /\ do (W_MUL e1 e2)  = W_CONST sz (v1 * v2)
+      /\ do (W_ADD e1 e2)  = W_CONST sz (uvalue sz (v1 + v2))
+      /\ do (W_SUB e1 e2)  = W_CONST sz (uvalue sz (v1 - v2))
+      /\ do (W_MUL e1 e2)  = W_CONST sz (uvalue sz (v1 * v2))
       /\ do (W_DIV e1 e2)  = W_CONST sz (v1 / v2)
       /\ do (W_MOD e1 e2)  = W_CONST sz (v1 % v2)
-      /\ do (W_SHL e1 e2)  = W_CONST sz ((v1 * (2**v2)) intAND (2 ** sz-1))
+      /\ do (W_SHL e1 e2)  = W_CONST sz (do_shl sz v1 v2)
       /\ do (W_SHR e1 e2)  = W_CONST sz (do_shr sz v1 v2)
-      /\ do (W_ASHR e1 e2) = W_CONST sz (do_ashr v1 v2)
+      /\ do (W_ASHR e1 e2) = W_CONST sz (do_ashr sz (svalue sz v1) v2)
       /\ do (W_LAT_LEQ e1 e2) = W_CONST 1 (v1 = v2 => 1 | 0)
     in
     do (constr e1 e2)
 ;
 
-let is_CONST (W_CONST sz v) = T
- /\ is_CONST (W_NAMED_CONST name sz v) = T
- /\ is_CONST ohter = F
-;
-
-let get_const (W_CONST sz v) = sz,v
- /\ get_const (W_NAMED_CONST name sz v) = sz,v
- /\ get_const other = error "Should not happen!"
-;
-
 let const_eq a b =
     is_CONST a AND is_CONST b =>
 	val (asz,av) = get_const a in
 	val (bsz,bv) = get_const b in
 	asz != bsz => eprintf "Size mismatch (%d != %d) in const_eq" asz bsz |
-	av = bv
+	(uvalue asz av) = (uvalue bsz bv)
     |
     a == b
 ;
@@ -445,7 +452,7 @@ letrec const_prop e assuming (is_binary e) =
 	let c = const_prop e then
 	is_CONST c =>
 	    val (osz,v) = get_const c then
-	    (W_CONST sz v)
+	    (W_CONST sz (svalue osz v))
 	|
 	W_SX sz c
  /\    const_prop (W_ZX sz e) =
@@ -453,13 +460,14 @@ letrec const_prop e assuming (is_binary e) =
 	is_CONST c =>
 	    val (osz,v) = get_const c then
 	    sz < osz => eprintf "ZX requires truncation! (%d>%d)" osz sz |
-	    v >= 0 => W_CONST sz v | W_CONST sz (2**osz+v)
+	    W_CONST sz (uvalue osz v)
 	|
 	W_ZX sz c
  /\    const_prop (W_ITE c t e) =
 	let cc = const_prop c then
 	is_CONST cc =>
-	    val (osz,v) = get_const cc then
+	    val (osz,ov) = get_const cc then
+	    let v = uvalue osz ov then
 	    v == 1 => const_prop t |
 	    v == 0 => const_prop e |
 	    eprintf "W_ITE with illegal condition (%d)" v
@@ -472,7 +480,7 @@ letrec const_prop e assuming (is_binary e) =
 	let ce = const_prop e then
 	is_CONST ce =>
 	    val (osz,ov) = get_const ce then
-	    let bits = explode (sprintf "%*b" osz ov) then
+	    let bits = explode (sprintf "%0*b" osz (uvalue osz ov)) then
 	    let bit_sels = map (\idx. osz-idx) indices then
 	    let sels = gather bits bit_sels then
 	    let sz = length sels then
@@ -485,7 +493,7 @@ letrec const_prop e assuming (is_binary e) =
 	let ce = const_prop e then
 	is_CONST ce =>
 	    val (osz,ov) = get_const ce then
-	    let bits = explode (sprintf "%*b" osz ov) then
+	    let bits = explode (sprintf "%0*b" osz (uvalue osz ov)) then
 	    let bit_sels = map (\idx. osz-idx) indices then
 	    let sels = gather bits bit_sels then
 	    let sz = length sels then
@@ -500,8 +508,8 @@ letrec const_prop e assuming (is_binary e) =
 	is_CONST cb AND is_CONST cn =>
 	    val (bsz,bv) = get_const cb then
 	    val (nsz,nv) = get_const cn then
-	    let bbits = explode (sprintf "%*b" bsz bv) then
-	    let nbits = explode (sprintf "%*b" nsz nv) then
+	    let bbits = explode (sprintf "%0*b" bsz (uvalue bsz bv)) then
+	    let nbits = explode (sprintf "%0*b" nsz (uvalue nsz nv)) then
 	    let sub = zip indices nbits then
 	    letrec process i (b:bs) =
 		let next = (assoc i sub) catch b then
@@ -517,7 +525,7 @@ letrec const_prop e assuming (is_binary e) =
  /\    const_prop (W_CAT parts) =
 	let cparts = map const_prop parts then
 	letrec merge ((W_CONST sz1 v1):(W_CONST sz2 v2):rem) =
-	    let r = W_CONST (sz1+sz2) (v1*(2**sz2)+v2) then
+	    let r = W_CONST (sz1+sz2) ((uvalue sz1 v1)*(2**sz2)+(uvalue sz2 v2)) then
 	    merge (r:rem)
 	 /\    merge (r:rem) = r:(merge rem)
 	 /\    merge [] = []
-- 
2.43.0


From e9a994eba8ed6fd079536664bb24fc078ea1f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:29 +0000
Subject: [PATCH 46/53] fix: mk_X of a STRUCT with explicit indices ignored the
 indices

---
 IDVII/src/fl/design/hfl.fl | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/IDVII/src/fl/design/hfl.fl b/IDVII/src/fl/design/hfl.fl
index c999518..9d43f15 100644
--- a/IDVII/src/fl/design/hfl.fl
+++ b/IDVII/src/fl/design/hfl.fl
@@ -2190,8 +2190,19 @@ let base_STRUCT_explicit type name size field_list do_check =
 	let pre = sprintf "let mk_%s " name in
 	let lhs = list2str T pre " " " = " fst ft_list in
 	let mk (field,type) = sprintf "(hw_%s_destr %s)" type field in
-	let pre = sprintf " hw_%s_constr (W_CAT [\n\t" name in
-	let rhs = list2str T pre ",\n\t" "]);" mk ft_list in
+	// Fields with explicit indices may be stored in another order
+	let indices = flatmap (\(field,type,bits). bits) field_list in
+	let in_order = (size-1) downto 0 in
+	let permuted = (indices != in_order) AND
+		       ((qsort (\a.\b. b-a) indices) == in_order)
+	in
+	let pos i = size - (find_first0 (\j. j = i) indices) in
+	let slice =
+	    permuted => list2str T "W_SLICE [" "," "] (" (\i. sprintf "%d" (pos i)) in_order
+		     |  "("
+	in
+	let pre = sprintf " hw_%s_constr (%sW_CAT [\n\t" name slice in
+	let rhs = list2str T pre ",\n\t" "]));" mk ft_list in
 	lhs^rhs
     in
     let cmd = sprintf "%s\n%s\n" comment def in
-- 
2.43.0


From c85bd25fb570b7b95c59fa587c19543e6ff50e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:26 +0000
Subject: [PATCH 47/53] hook (VOSS_MC): give freed BDD nodes another value

---
 src/bin/fl/new_bdd.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 779a137..497a0c9 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -2800,6 +2800,11 @@ garbage_collect()
 		    *(vp->uniq_tbl+j) = ncur;
 #ifdef REF_CNT_DEBUG
 		    bp->in_use = 0;
+#endif
+#ifdef VOSS_MC
+		    /* Make any use of a freed node visible */
+		    bp->lson = ZERO;
+		    bp->rson = ZERO;
 #endif
 		    bp->next = b_free_list;
 		    b_free_list = cur;
@@ -2822,6 +2827,11 @@ garbage_collect()
 		    pbp->next = ncur;
 #ifdef REF_CNT_DEBUG
 		    bp->in_use = 0;
+#endif
+#ifdef VOSS_MC
+		    /* Make any use of a freed node visible */
+		    bp->lson = ZERO;
+		    bp->rson = ZERO;
 #endif
 		    bp->next = b_free_list;
 		    b_free_list = cur;
-- 
2.43.0


From 12a4f5ab49918dc085a73a08c577543eb402aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:36 +0000
Subject: [PATCH 48/53] fix: Verilog import took every operand for signed when
 extending it, and compared and divided signed operands as unsigned

---
 IDVII/src/fl/design/yosys_lib.fl              | 51 +++++++++++++++++++
 .../yosys/write_pexlif/write_pexlif.cc        | 31 ++++++++---
 2 files changed, 74 insertions(+), 8 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index a4cba71..f94f81a 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -156,6 +156,30 @@ let _mod sz src =
     mk_rtl W_MOD "draw_rtl {%}" attrs sz
 ;
 
+// Signed division: truncates towards 0 and the remainder has the sign of the
+// dividend
+let w_is_neg sz w = W_SLICE [sz-1] w;
+let w_negate sz w = W_SUB (W_CONST sz 0) w;
+let w_abs sz w = W_ITE (w_is_neg sz w) (w_negate sz w) w;
+
+let _sdiv sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    let op A B =
+	let q = W_DIV (w_abs sz A) (w_abs sz B) in
+	W_ITE (W_EQ (w_is_neg sz A) (w_is_neg sz B)) q (w_negate sz q)
+    in
+    mk_rtl op "draw_rtl {/}" attrs sz
+;
+
+let _smod sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    let op A B =
+	let r = W_MOD (w_abs sz A) (w_abs sz B) in
+	W_ITE (w_is_neg sz A) (w_negate sz r) r
+    in
+    mk_rtl op "draw_rtl {%}" attrs sz
+;
+
 let _and sz src =
     let attrs = mk_attr src __FILE__ __LINE__ then
     mk_rtl W_AND "draw_and2" attrs sz
@@ -311,6 +335,33 @@ let _le sz src =
     mk_cmp (\w1.\w2. W_OR (W_GR w2 w1) (W_EQ w1 w2)) "draw_rtl {<=}" attrs sz
 ;
 
+// Signed comparisons
+let w_sgr sz w1 w2 =
+    let neg1 = W_SLICE [sz-1] w1 in
+    let neg2 = W_SLICE [sz-1] w2 in
+    W_OR (W_AND (W_NOT neg1) neg2) (W_AND (W_EQ neg1 neg2) (W_GR w1 w2))
+;
+
+let _sgt sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (w_sgr sz) "draw_rtl {>}" attrs sz
+;
+
+let _sge sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (\w1.\w2. W_NOT (w_sgr sz w2 w1)) "draw_rtl {>=}" attrs sz
+;
+
+let _slt sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (\w1.\w2. w_sgr sz w2 w1)  "draw_rtl {<}" attrs sz
+;
+
+let _sle sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (\w1.\w2. W_NOT (w_sgr sz w1 w2)) "draw_rtl {<=}" attrs sz
+;
+
 
 let _mux sz src out inp1 inp2 s =
     let attrs = mk_attr src __FILE__ __LINE__ then
diff --git a/src/external/yosys/write_pexlif/write_pexlif.cc b/src/external/yosys/write_pexlif/write_pexlif.cc
index ced023d..780dd51 100644
--- a/src/external/yosys/write_pexlif/write_pexlif.cc
+++ b/src/external/yosys/write_pexlif/write_pexlif.cc
@@ -180,6 +180,13 @@ struct PexlifDumper
 	}
 
 
+	// Only the value of the parameter tells whether the operand is signed
+	bool is_signed(RTLIL::Cell *cell, const char *param)
+	{
+		return cell->parameters.count(param) > 0 &&
+		       cell->parameters.at(param).as_bool();
+	}
+
 	const char *cstr(RTLIL::IdString id)
 	{
 		std::string str = RTLIL::unescape_id(id);
@@ -531,10 +538,15 @@ struct PexlifDumper
 			int a_sz = a.size();
 			int b_sz = b.size();
 			bool a_signed =
-			    cell->parameters.count("\\A_SIGNED") > 0;
+			    is_signed(cell, "\\A_SIGNED");
 			bool b_signed =
-			    cell->parameters.count("\\B_SIGNED") > 0;
-			f << "_" << cell->type.substr(1);
+			    is_signed(cell, "\\B_SIGNED") &&
+			    cell->type != "$shl" && cell->type != "$sshl";
+			// Division is the only operation here for which
+			// signed operands are more than sign extended
+			bool signed_op = a_signed && b_signed &&
+			    (cell->type == "$div" || cell->type == "$mod");
+			f << (signed_op? "_s" : "_") << cell->type.substr(1);
 			f << stringf(" %d \"%s\" ", y_sz, src.c_str());
 			dump_sigspec(f, y);
 			f << " ";
@@ -586,10 +598,13 @@ struct PexlifDumper
 			int a_sz = a.size();
 			int b_sz = b.size();
 			bool a_signed =
-			    cell->parameters.count("\\A_SIGNED") > 0;
+			    is_signed(cell, "\\A_SIGNED");
 			bool b_signed =
-			    cell->parameters.count("\\B_SIGNED") > 0;
-			f << "_" << cell->type.substr(1);
+			    is_signed(cell, "\\B_SIGNED");
+			bool signed_op = a_signed && b_signed &&
+			    (cell->type == "$lt" || cell->type == "$gt" ||
+			     cell->type == "$ge" || cell->type == "$le");
+			f << (signed_op? "_s" : "_") << cell->type.substr(1);
 			int sz = max(a_sz,b_sz);
 			f << stringf(" %d \"%s\" ", sz, src.c_str());
 			dump_sigspec(f, y);
@@ -643,7 +658,7 @@ struct PexlifDumper
 			int y_sz = y.size();
 			int a_sz = a.size();
 			bool a_signed =
-			    cell->parameters.count("\\A_SIGNED") > 0;
+			    is_signed(cell, "\\A_SIGNED");
 			f << "_" << cell->type.substr(1);
 			f << stringf(" %d \"%s\" ", y_sz, src.c_str());
 			dump_sigspec(f, y);
@@ -911,7 +926,7 @@ struct PexlifDumper
 			RTLIL::SigSpec out = cell->getPort("\\Y");
 			RTLIL::SigSpec a = cell->getPort("\\A");
 			RTLIL::SigSpec b = cell->getPort("\\B");
-			bool a_signed = cell->parameters.count("\\A_SIGNED")>0;
+			bool a_signed = is_signed(cell, "\\A_SIGNED");
 			if( a_signed ) {
 			    f << "_ashr ";
 			} else {
-- 
2.43.0


From 9b3c63cf9a51bf4c88391e5fcc1e09969b27de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:47 +0000
Subject: [PATCH 49/53] fix: right shifts and indexed selections in imported
 Verilog were wrong unless all their sizes agreed

---
 IDVII/src/fl/design/yosys_lib.fl              | 14 +++++-
 .../yosys/write_pexlif/write_pexlif.cc        | 44 ++++++-------------
 2 files changed, 26 insertions(+), 32 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index f94f81a..0d5bb59 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -215,6 +215,16 @@ let _neg sz src out inp =
     PINST "draw_unary_arithm {-}" attrs T fa_inps fa_outs ints leaf
 ;
 
+// Shift a by b: both operands are extended to the same size and the o_sz least
+// significant bits of the result are kept.
+let w_shift_right is_arith o_sz a_sz b_sz a b =
+    let sz = max o_sz (max a_sz b_sz) in
+    let ext_a = a_sz = sz => a | is_arith => W_SX sz a | W_ZX sz a in
+    let ext_b = b_sz = sz => b | W_ZX sz b in
+    let res = is_arith => W_ASHR ext_a ext_b | W_SHR ext_a ext_b in
+    o_sz = sz => res | W_SLICE ((o_sz-1)--0) res
+;
+
 let _shr  o_sz a_sz b_sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
     let f_out = mk_name o_sz "Y" in
@@ -226,7 +236,7 @@ let _shr  o_sz a_sz b_sz src out inp1 inp2 =
     let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
     let fa_outs = [(f_out, out)] in
     let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_SHR A B)] in
+    let leaf = P_LEAF [W_UPDATE_FN Y (w_shift_right F o_sz a_sz b_sz A B)] in
     PINST "draw_rtl {>>}" attrs T fa_inps fa_outs ints leaf
 ;
 
@@ -241,7 +251,7 @@ let _ashr  o_sz a_sz b_sz src out inp1 inp2 =
     let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
     let fa_outs = [(f_out, out)] in
     let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_ASHR A B)] in
+    let leaf = P_LEAF [W_UPDATE_FN Y (w_shift_right T o_sz a_sz b_sz A B)] in
     PINST "draw_rtl {|>>}" attrs T fa_inps fa_outs ints leaf
 ;
 
diff --git a/src/external/yosys/write_pexlif/write_pexlif.cc b/src/external/yosys/write_pexlif/write_pexlif.cc
index 780dd51..f4efb8e 100644
--- a/src/external/yosys/write_pexlif/write_pexlif.cc
+++ b/src/external/yosys/write_pexlif/write_pexlif.cc
@@ -896,46 +896,30 @@ struct PexlifDumper
 			dump_sigspec(f, cell->getPort("\\D"));
 			continue;
 		    }
-		    if (cell->type == "$shiftx") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
-			RTLIL::SigSpec a = cell->getPort("\\A");
-			RTLIL::SigSpec b = cell->getPort("\\B");
-			f << "_shr ";
-			f << stringf("%d %d %d \"%s\" ", out.size(), a.size(), b.size(), src.c_str());
-			dump_sigspec(f, out);
-			f << " ";
-			dump_sigspec(f, a);
-			f << " ";
-			dump_sigspec(f, b);
-			continue;
-		    }
-		    if (cell->type == "$shr") {
-			RTLIL::SigSpec out = cell->getPort("\\Y");
-			RTLIL::SigSpec a = cell->getPort("\\A");
-			RTLIL::SigSpec b = cell->getPort("\\B");
-			f << "_shr ";
-			f << stringf("%d %d %d \"%s\" ", out.size(), a.size(), b.size(), src.c_str());
-			dump_sigspec(f, out);
-			f << " ";
-			dump_sigspec(f, a);
-			f << " ";
-			dump_sigspec(f, b);
-			continue;
-		    }
-		    if (cell->type == "$sshr") {
+		    if (cell->type == "$shiftx" ||
+			cell->type == "$shr" ||
+			cell->type == "$sshr") {
 			RTLIL::SigSpec out = cell->getPort("\\Y");
 			RTLIL::SigSpec a = cell->getPort("\\A");
 			RTLIL::SigSpec b = cell->getPort("\\B");
 			bool a_signed = is_signed(cell, "\\A_SIGNED");
-			if( a_signed ) {
+			// The operand is first extended to the size of the result
+			int sz = max(a.size(), out.size());
+			if( a_signed && cell->type == "$sshr" ) {
 			    f << "_ashr ";
 			} else {
 			    f << "_shr ";
 			}
-			f << stringf("%d %d %d \"%s\" ", out.size(), a.size(), b.size(), src.c_str());
+			f << stringf("%d %d %d \"%s\" ", out.size(), sz, b.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
-			dump_sigspec(f, a);
+			if( a.size() < sz ) {
+			    f << stringf("(%s %d ", a_signed? "_SignExt" : "_ZeroExt", sz);
+			    dump_sigspec(f, a);
+			    f << ")";
+			} else {
+			    dump_sigspec(f, a);
+			}
 			f << " ";
 			dump_sigspec(f, b);
 			continue;
-- 
2.43.0


From 0c0fc07c8fa929683cb021226b2374230325812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:27 +0000
Subject: [PATCH 50/53] fix: imported Verilog with a wider use of a one bit
 result, && and || of different sizes, or !== was refused

---
 IDVII/src/fl/design/yosys_lib.fl              | 100 +++++++-----------
 .../yosys/write_pexlif/write_pexlif.cc        |   1 +
 2 files changed, 40 insertions(+), 61 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index 0d5bb59..02a75be 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -94,17 +94,21 @@ let _buf sz src out inp =
     PINST "draw_buffer" attrs T fa_inps fa_outs ints leaf
 ;
 
+// An operation with a one bit result. The output can be wider.
+let mk_bool_fn name attrs out fa_inps res =
+    let sz = length (cexpand_vectors out) in
+    let f_out = mk_name sz "Y" in
+    let Y = W_VAR sz "Y" in
+    let fa_outs = [(f_out, out)] in
+    let leaf = P_LEAF [W_UPDATE_FN Y (sz = 1 => res | W_ZX sz res)] in
+    PINST name attrs T fa_inps fa_outs [] leaf
+;
+
 let _logic_not sz src out inp =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let f_out = mk_name 1 "Y" in
-    let Y = W_VAR 1 "Y" in
-    let f_inp = mk_name sz "A" in
     let A = W_VAR sz "A" in
-    let fa_inps = [(f_inp, inp)] in
-    let fa_outs = [(f_out, out)] in
-    let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_EQ A (W_CONST sz 0))] in
-    PINST "draw_unary_arithm {==0}" attrs T fa_inps fa_outs ints leaf
+    let fa_inps = [(mk_name sz "A", inp)] in
+    mk_bool_fn "draw_unary_arithm {==0}" attrs out fa_inps (W_EQ A (W_CONST sz 0))
 ;
 
 let mk_rtl op name attrs sz out inp1 inp2 =
@@ -255,38 +259,31 @@ let _ashr  o_sz a_sz b_sz src out inp1 inp2 =
     PINST "draw_rtl {|>>}" attrs T fa_inps fa_outs ints leaf
 ;
 
+// The operands of && and || can have different sizes
+let mk_logic op name attrs out inp1 inp2 =
+    let a_sz = length (cexpand_vectors inp1) in
+    let b_sz = length (cexpand_vectors inp2) in
+    let A_T = W_NOT (W_EQ (W_VAR a_sz "A") (W_CONST a_sz 0)) in
+    let B_T = W_NOT (W_EQ (W_VAR b_sz "B") (W_CONST b_sz 0)) in
+    let fa_inps = [(mk_name a_sz "A", inp1), (mk_name b_sz "B", inp2)] in
+    mk_bool_fn name attrs out fa_inps (op A_T B_T)
+;
+
 let _land sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let op A B = 
-	let A_T = W_NOT (W_EQ A (W_CONST sz 0)) in
-	let B_T = W_NOT (W_EQ B (W_CONST sz 0)) in
-	W_AND A_T B_T
-    in
-    mk_rtl op "draw_and2" attrs sz out inp1 inp2
+    mk_logic W_AND "draw_and2" attrs out inp1 inp2
 ;
 
 let _lor sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let op A B = 
-	let A_T = W_NOT (W_EQ A (W_CONST sz 0)) in
-	let B_T = W_NOT (W_EQ B (W_CONST sz 0)) in
-	W_OR A_T B_T
-    in
-    mk_rtl op "draw_or2" attrs sz out inp1 inp2
+    mk_logic W_OR "draw_or2" attrs out inp1 inp2
 ;
 
 let mk_cmp op name attrs sz out inp1 inp2 =
-    let f_out = mk_name 1 "Y" in
-    let Y = W_VAR 1 "Y" in
-    let f_inp1 = mk_name sz "A" in
     let A = W_VAR sz "A" in
-    let f_inp2 = mk_name sz "B" in
     let B = W_VAR sz "B" in
-    let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
-    let fa_outs = [(f_out, out)] in
-    let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (op A B)] in
-    PINST name attrs T fa_inps fa_outs ints leaf
+    let fa_inps = [(mk_name sz "A", inp1), (mk_name sz "B", inp2)] in
+    mk_bool_fn name attrs out fa_inps (op A B)
 ;
 
 let _eqx sz src =
@@ -305,18 +302,12 @@ let _eq sz src out inp1 inp2 =
     let i2 = hd inp2 in
     NOT (str_is_prefix "0b" i2) => base |
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let f_out = mk_name 1 "Y" in
-    let Y = W_VAR 1 "Y" in
-    let f_inp1 = mk_name sz "A" in
     let A = W_VAR sz "A" in
-    let fa_inps = [(f_inp1, inp1)] in
-    let fa_outs = [(f_out, out)] in
-    let ints = [] in
+    let fa_inps = [(mk_name sz "A", inp1)] in
     let v = sscanf "0b%b" i2 in
     let B = W_CONST sz v in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_EQ A B)] in
     let pfn = sprintf "draw_unary_arithm {=0x%x}" v in
-    PINST pfn attrs T fa_inps fa_outs ints leaf
+    mk_bool_fn pfn attrs out fa_inps (W_EQ A B)
 ;
     
 
@@ -325,6 +316,11 @@ let _ne sz src =
     mk_cmp (\w1.\w2. W_NOT (W_EQ w1 w2)) "draw_rtl {!=}" attrs sz
 ;
 
+let _nex sz src =
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    mk_cmp (\w1.\w2. W_NOT (W_EQ w1 w2)) "draw_rtl {!=}" attrs sz
+;
+
 let _gt sz src =
     let attrs = mk_attr src __FILE__ __LINE__ then
     mk_cmp W_GR "draw_rtl {>}" attrs sz
@@ -527,41 +523,23 @@ let _pmux out_sz sel_sz src out inp1 inp2 s =
 
 let _logic_reduce_bool sz src out inp =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let f_out = mk_name 1 "Y" in
-    let Y = W_VAR 1 "Y" in
-    let f_inp = mk_name sz "A" in
     let A = W_VAR sz "A" in
-    let fa_inps = [(f_inp, inp)] in
-    let fa_outs = [(f_out, out)] in
-    let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_NOT (W_EQ A (W_CONST sz 0)))] in
-    PINST "draw_unary_arithm {!=0}" attrs T fa_inps fa_outs ints leaf
+    let fa_inps = [(mk_name sz "A", inp)] in
+    mk_bool_fn "draw_unary_arithm {!=0}" attrs out fa_inps (W_NOT (W_EQ A (W_CONST sz 0)))
 ;
 
 let _logic_reduce_or sz src out inp =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let f_out = mk_name 1 "Y" in
-    let Y = W_VAR 1 "Y" in
-    let f_inp = mk_name sz "A" in
     let A = W_VAR sz "A" in
-    let fa_inps = [(f_inp, inp)] in
-    let fa_outs = [(f_out, out)] in
-    let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_NOT (W_EQ A (W_CONST sz 0)))] in
-    PINST "draw_unary_arithm {!=0}" attrs T fa_inps fa_outs ints leaf
+    let fa_inps = [(mk_name sz "A", inp)] in
+    mk_bool_fn "draw_unary_arithm {!=0}" attrs out fa_inps (W_NOT (W_EQ A (W_CONST sz 0)))
 ;
 
 let _logic_reduce_and sz src out inp =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let f_out = mk_name 1 "Y" in
-    let Y = W_VAR 1 "Y" in
-    let f_inp = mk_name sz "A" in
     let A = W_VAR sz "A" in
-    let fa_inps = [(f_inp, inp)] in
-    let fa_outs = [(f_out, out)] in
-    let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_EQ A (W_CONST sz (2**sz-1)))] in
-    PINST "draw_and_n" attrs T fa_inps fa_outs ints leaf
+    let fa_inps = [(mk_name sz "A", inp)] in
+    mk_bool_fn "draw_and_n" attrs out fa_inps (W_EQ A (W_CONST sz (2**sz-1)))
 ;
 
 // NOTE: 'en' not used!
diff --git a/src/external/yosys/write_pexlif/write_pexlif.cc b/src/external/yosys/write_pexlif/write_pexlif.cc
index f4efb8e..558a3f7 100644
--- a/src/external/yosys/write_pexlif/write_pexlif.cc
+++ b/src/external/yosys/write_pexlif/write_pexlif.cc
@@ -590,6 +590,7 @@ struct PexlifDumper
 			 cell->type == "$le" ||
 			 cell->type == "$eq" ||
 			 cell->type == "$eqx" ||
+			 cell->type == "$nex" ||
 			 cell->type == "$ne" )
 		    {
 			RTLIL::SigSpec y = cell->getPort("\\Y");
-- 
2.43.0


From 1837b3cbcc5665cb5f508221d237eb1dfcf0e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:57 +0000
Subject: [PATCH 51/53] fix: imported Verilog with a shift count wider than the
 result was refused

---
 IDVII/src/fl/design/yosys_lib.fl              | 21 +++++++++++++++----
 .../yosys/write_pexlif/write_pexlif.cc        | 10 +++++----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index 02a75be..0639423 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -125,14 +125,27 @@ let mk_rtl op name attrs sz out inp1 inp2 =
     PINST name attrs T fa_inps fa_outs ints leaf
 ;
 
-let _sshl sz src =
+// The size of the shift count can differ from the size of the result
+let w_shift_left sz out inp1 inp2 attrs =
+    let b_sz = length (cexpand_vectors inp2) in
+    let w_sz = max sz b_sz in
+    let ext v_sz v = v_sz = w_sz => v | W_ZX w_sz v in
+    let res = W_SHL (ext sz (W_VAR sz "A")) (ext b_sz (W_VAR b_sz "B")) in
+    let rhs = sz = w_sz => res | W_SLICE ((sz-1)--0) res in
+    let fa_inps = [(mk_name sz "A", inp1), (mk_name b_sz "B", inp2)] in
+    let fa_outs = [(mk_name sz "Y", out)] in
+    let leaf = P_LEAF [W_UPDATE_FN (W_VAR sz "Y") rhs] in
+    PINST "draw_rtl {<<}" attrs T fa_inps fa_outs [] leaf
+;
+
+let _sshl sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    mk_rtl W_SHL "draw_rtl {<<}" attrs sz
+    w_shift_left sz out inp1 inp2 attrs
 ;
 
-let _shl sz src =
+let _shl sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    mk_rtl W_SHL "draw_rtl {<<}" attrs sz
+    w_shift_left sz out inp1 inp2 attrs
 ;
 
 let _sub sz src =
diff --git a/src/external/yosys/write_pexlif/write_pexlif.cc b/src/external/yosys/write_pexlif/write_pexlif.cc
index 558a3f7..5cd9ef8 100644
--- a/src/external/yosys/write_pexlif/write_pexlif.cc
+++ b/src/external/yosys/write_pexlif/write_pexlif.cc
@@ -540,8 +540,10 @@ struct PexlifDumper
 			bool a_signed =
 			    is_signed(cell, "\\A_SIGNED");
 			bool b_signed =
-			    is_signed(cell, "\\B_SIGNED") &&
-			    cell->type != "$shl" && cell->type != "$sshl";
+			    is_signed(cell, "\\B_SIGNED");
+			// A shift count is used as it is
+			bool is_shift =
+			    cell->type == "$shl" || cell->type == "$sshl";
 			// Division is the only operation here for which
 			// signed operands are more than sign extended
 			bool signed_op = a_signed && b_signed &&
@@ -554,7 +556,7 @@ struct PexlifDumper
 			    f.flush();
 			    log_error("A size (%d) greater than Y size (%d) for celltype %s", a_sz, y_sz, cell->type.substr(1).c_str());
 			}
-			if( b_sz > y_sz ) {
+			if( b_sz > y_sz && !is_shift ) {
 			    f.flush();
 			    log_error("B size (%d) greater than Y size (%d) for celltype %s", b_sz, y_sz, cell->type.substr(1).c_str());
 			}
@@ -570,7 +572,7 @@ struct PexlifDumper
 			    dump_sigspec(f, a);
 			    f << " ";
 			}
-			if( b_sz < y_sz ) {
+			if( b_sz < y_sz && !is_shift ) {
 			    if( b_signed ) {
 				f << stringf("(_SignExt %d ", y_sz);
 			    } else {
-- 
2.43.0


From 48146e81801650336b1c7aac95d3b407aec7418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:51 +0000
Subject: [PATCH 52/53] fix: imported Verilog: negedge registers, low latches,
 latches with reset and asynchronous loads did not behave as written

---
 IDVII/src/fl/design/make_generic_pexlifs.fl   | 64 +------------
 IDVII/src/fl/design/yosys_lib.fl              | 93 ++++++++++++-------
 .../yosys/write_pexlif/write_pexlif.cc        |  4 +-
 3 files changed, 63 insertions(+), 98 deletions(-)

diff --git a/IDVII/src/fl/design/make_generic_pexlifs.fl b/IDVII/src/fl/design/make_generic_pexlifs.fl
index 468abcd..476baf8 100644
--- a/IDVII/src/fl/design/make_generic_pexlifs.fl
+++ b/IDVII/src/fl/design/make_generic_pexlifs.fl
@@ -10,71 +10,11 @@ let make name p =
 
 make "re_ff" (re_ff 'clk (W_VAR 0 "d") (W_VAR 0 "q"));
 
+make "fe_ff" (fe_ff 'clk (W_VAR 0 "d") (W_VAR 0 "q"));
+
 make "ah_latch" (ah_latch 'clk (W_VAR 0 "d") (W_VAR 0 "q"));
 
 make "al_latch" (al_latch 'clk (W_VAR 0 "d") (W_VAR 0 "q"));
 
 
-let base_adlatch p_en p_arst =
-    bit_input       clk.
-    bit_input       arst.
-    input           {reset_value:: wexpr}.
-    input           {d:: wexpr}.
-    output          {out:: wexpr}.
-    bit_internal    en.
-    internal        {mid:: wexpr}.
-    CELL "_WrApPeR_" [
-        ah_latch en mid out,
-        en  <- (p_en => clk | '~' clk),
-        mid <- (IF (p_arst => arst | '~' arst) THEN reset_value ELSE d)
-];
-
-let adlatch p_en p_arst =
-    bit_input       clk.
-    bit_input       arst.
-    input           {d:: wexpr}.
-    output          {out:: wexpr}.
-    internal	    {reset_value :: wexpr}.
-    CELL (sprintf "draw_adlatch %s %s" (p_en=>"1"|"0") (p_arst=>"1"|"0")) [
-	reset_value <- (W_CONST 0 0),
-	base_adlatch p_en p_arst clk arst reset_value d out
-];
-
-
-make "adlatch_0_0" (adlatch F F 'clk 'arst (W_VAR 0 "d") (W_VAR 0 "q"));
-make "adlatch_0_1" (adlatch F T 'clk 'arst (W_VAR 0 "d") (W_VAR 0 "q"));
-make "adlatch_1_0" (adlatch T F 'clk 'arst (W_VAR 0 "d") (W_VAR 0 "q"));
-make "adlatch_1_1" (adlatch T T 'clk 'arst (W_VAR 0 "d") (W_VAR 0 "q"));
-
-let aldff p_clk p_aload =
-    input	    {ad :: *a}.
-    bit_input	    aload.
-    input	    {d :: *a}.
-    bit_input	    clk.
-    output	    {q :: *a}.
-    internal	    {md:: *a} {fq:: *a}.
-    CELL (sprintf "draw_aldff %s %s" (p_clk=>"1"|"0") (p_aload=>"1"|"0")) [
-	md <- (IF aload THEN ad ELSE d),
-	re_ff clk md fq,
-	q <- (IF aload THEN ad ELSE fq)
-];
-
-
-make "aldff_0_0"
-    (aldff F F (W_VAR 0 "ad") 'aload (W_VAR 0 "d") 'clk (W_VAR 0 "q"))
-;
-
-make "aldff_0_1"
-    (aldff F T (W_VAR 0 "ad") 'aload (W_VAR 0 "d") 'clk (W_VAR 0 "q"))
-;
-
-make "aldff_1_0"
-    (aldff T F (W_VAR 0 "ad") 'aload (W_VAR 0 "d") 'clk (W_VAR 0 "q"))
-;
-
-make "aldff_1_1"
-    (aldff T T (W_VAR 0 "ad") 'aload (W_VAR 0 "d") 'clk (W_VAR 0 "q"))
-;
-
-
 quit;
diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index 0639423..e1217ee 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -743,6 +743,15 @@ let _dff sz src out clk d =
     update_attrs_and_ios attrs fa_inps fa_outs base
 ;
 
+// Falling edge triggered
+let _ndff sz src out clk d =
+    let base = resize_pexlif sz (get_generic "fe_ff") then
+    let attrs = mk_attr src __FILE__ __LINE__ then
+    let fa_inps = [((mk_name sz "d"), d), ("clk", clk)] then 
+    let fa_outs = [((mk_name sz "q"), out)] then 
+    update_attrs_and_ios attrs fa_inps fa_outs base
+;
+
 
 let _dlatch polarity sz src out clk d =
     let attrs = mk_attr src __FILE__ __LINE__ then
@@ -754,32 +763,32 @@ let _dlatch polarity sz src out clk d =
     update_attrs_and_ios attrs fa_inps fa_outs base
 ;
 
-let mk_constant sz pin_name value =
-    let pfn = sprintf "draw_constant %s" value then
-    let attrs = mk_attr "" __FILE__ __LINE__ then
-    let fa_inps = [] in
-    let fa_outs = let n = mk_name sz pin_name in [(n,[n])] then
-    let ints = [] in
-    let Z = W_VAR sz pin_name in
-    let ch = P_LEAF [W_UPDATE_FN Z (W_CONST sz (sscanf "%b" value))] in
-    PINST pfn attrs T fa_inps fa_outs ints ch
-;
-
 let _adlatch p_en p_arst rst_value sz src out clk arst d =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let generic = get_generic (assoc (p_en,p_arst) [ ((F,F), "adlatch_0_0"),
-						     ((F,T), "adlatch_0_1"),
-						     ((T,F), "adlatch_1_0"),
-						     ((T,T), "adlatch_1_1")])
+    let fa_inps_r = ref [] then
+    let fa_outs_r = ref [] then
+    let ints_r    = ref [] then
+    let Q	  = mk_ifc_signal fa_outs_r sz "q" out then
+    let D	  = mk_ifc_signal fa_inps_r sz "d" d then
+    let ARST	  = mk_ifc_signal fa_inps_r 1 "arst" arst then
+    let CLK	  = mk_ifc_signal fa_inps_r 1 "clk" clk then
+    let dQ	  = mk_int_signal ints_r sz "q_##_" then
+    let q_del	  = W_PHASE_DELAY dQ Q then
+    let RST_VALUE =
+	rst_value = "" => W_CONST sz 0 | W_CONST sz (sscanf "%b" rst_value)
     then
-    val (PINST nm attrs lf fa_inps fa_outs ints (P_HIER (c:cs))) = generic then
-    let c' = mk_constant sz "reset_value" rst_value then
-    let p0 = PINST nm attrs lf fa_inps fa_outs ints (P_HIER (c' :cs)) then 
-    let p = resize_pexlif sz p0 in
-    let attrs = mk_attr src __FILE__ __LINE__ then
-    let fa_inps = [("clk", clk), ("arst", arst), ((mk_name sz "d"), d)] then 
-    let fa_outs = [((mk_name sz "q"), out)] then 
-    update_attrs_and_ios attrs fa_inps fa_outs p
+    let en_cond   = p_en => CLK | W_NOT CLK then
+    let rst_cond  = p_arst => ARST | W_NOT ARST then
+    let mux	  = W_UPDATE_FN Q
+		    (W_ITE rst_cond RST_VALUE (W_ITE en_cond D dQ))
+    then
+    let subs	  = P_LEAF [q_del, mux] then
+    let pfn = sprintf "draw_adlatch %s %s"
+		      (p_en   => "1" | "0")
+		      (p_arst => "1" | "0")
+    then
+    PINST pfn attrs T
+	    (deref fa_inps_r) (deref fa_outs_r) (deref ints_r) subs
 ;
 
 //_adlatch T T "010" 3 "ds.we:12" ["Out[2:0]"] ["CLK"] ["ARST"] ["D[2:0]"];
@@ -787,18 +796,34 @@ let _adlatch p_en p_arst rst_value sz src out clk arst d =
 
 let _aldff p_clk p_aload sz src q aload ad clk d =
     let attrs = mk_attr src __FILE__ __LINE__ then
-    let generic = get_generic (assoc (p_clk,p_aload) [ ((F,F), "aldff_0_0"),
-						       ((F,T), "aldff_0_1"),
-						       ((T,F), "aldff_1_0"),
-						       ((T,T), "aldff_1_1")])
+    let fa_inps_r = ref [] then
+    let fa_outs_r = ref [] then
+    let ints_r    = ref [] then
+    let Q	  = mk_ifc_signal fa_outs_r sz "q" q then
+    let CLK	  = mk_ifc_signal fa_inps_r 1 "clk" clk then
+    let D	  = mk_ifc_signal fa_inps_r sz "d" d then
+    let ALOAD	  = mk_ifc_signal fa_inps_r 1 "aload" aload then
+    let AD	  = mk_ifc_signal fa_inps_r sz "ad" ad then
+    let dQ	  = mk_int_signal ints_r sz "q_##_" then
+    let dCLK	  = mk_int_signal ints_r 1 "clk_##_" then
+    let dD	  = mk_int_signal ints_r sz "d_##_" then
+    let clk_del	  = W_PHASE_DELAY dCLK CLK then
+    let d_del	  = W_PHASE_DELAY dD D then
+    let q_del	  = W_PHASE_DELAY dQ Q then
+    let clk_cond  = p_clk => W_AND (W_NOT dCLK) CLK
+			   | W_AND dCLK (W_NOT CLK)
     then
-    let p = resize_pexlif sz generic then
-    let attrs = mk_attr src __FILE__ __LINE__ then
-    let fa_inps = [((mk_name sz "ad"), ad), ("aload", aload),
-		   ((mk_name sz "d"), d), ("clk", clk)]
-    in
-    let fa_outs = [((mk_name sz "q"), q)] then 
-    update_attrs_and_ios attrs fa_inps fa_outs p
+    let load_cond = p_aload => ALOAD | W_NOT ALOAD then
+    let mux	  = W_UPDATE_FN Q
+		    (W_ITE load_cond AD (W_ITE clk_cond dD dQ))
+    then
+    let subs	  = P_LEAF [clk_del, d_del, q_del, mux] then
+    let pfn = sprintf "draw_aldff %s %s"
+		      (p_clk   => "1" | "0")
+		      (p_aload => "1" | "0")
+    then
+    PINST pfn attrs T
+	    (deref fa_inps_r) (deref fa_outs_r) (deref ints_r) subs
 ;
 
 // _aldff T F 3 "ds.we:12" ["Out[2:0]"]  ["LD"] ["iv[2:0]"] ["CLK"] ["D[2:0]"];
diff --git a/src/external/yosys/write_pexlif/write_pexlif.cc b/src/external/yosys/write_pexlif/write_pexlif.cc
index 5cd9ef8..77a7f91 100644
--- a/src/external/yosys/write_pexlif/write_pexlif.cc
+++ b/src/external/yosys/write_pexlif/write_pexlif.cc
@@ -688,7 +688,7 @@ struct PexlifDumper
 		    if (cell->type == "$dlatch")
 		    {
 			RTLIL::SigSpec out = cell->getPort("\\Q");
-			f << "_dlatch T ";
+			if( cell->hasParam(ID::EN_POLARITY) && !cell->getParam(ID::EN_POLARITY).as_bool() )   { f << "_dlatch F "; } else { f << "_dlatch T "; }
 			f << stringf("%d \"%s\" ", out.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
@@ -742,7 +742,7 @@ struct PexlifDumper
 
 		    if (cell->type == "$dff") {
 			RTLIL::SigSpec out = cell->getPort("\\Q");
-			f << "_dff ";
+			if( cell->hasParam(ID::CLK_POLARITY) && !cell->getParam(ID::CLK_POLARITY).as_bool() )   { f << "_ndff "; } else { f << "_dff "; }
 			f << stringf("%d \"%s\" ", out.size(), src.c_str());
 			dump_sigspec(f, out);
 			f << " ";
-- 
2.43.0


From 836d2ec821c041f62f1aa51b02f87360d4bd141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:02 +0000
Subject: [PATCH 53/53] fix: memories of imported Verilog forgot their
 contents, ignored write enables and delayed reads

---
 IDVII/src/fl/design/yosys_lib.fl | 83 +++++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index e1217ee..40adc4f 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -929,25 +929,37 @@ let prim_mem_write mem_info clk_enable clk_polarity
     val (f_A1, A1) = mk_vec width "A1" in
     val (f_A2, A2) = mk_vec width "A2" in
     val (f_TMP, TMP) = mk_mem mem_info "TMP" in
+    // A clocked port uses the values its inputs had before the clock edge
+    val (f_D_ADDR, D_ADDR) = mk_vec abits "D_ADDR" in
+    val (f_D_DATA, D_DATA) = mk_vec width "D_DATA" in
+    val (f_D_EN, D_EN) = mk_vec width "D_EN" in
+    val (f_WRITES, WRITES) = mk_vec 1 "WRITES" in
+    let sample lhs rhs = clk_enable = "0" => lhs <- rhs | lhs <: rhs in
     let leaves = [
+	sample D_ADDR ADDR,
+	sample D_DATA DATA,
+	sample D_EN EN,
 	OCLK <: CLK,
 	ACTIVE  <- (clk_enable = "0" => W_CONST 1 1 |
 		    clk_polarity = "1" => '~' OCLK '&' CLK |
 					 OCLK '&' '~' CLK),
-        OLD     <- (W_MEM_READ mem_info M ADDR),
-        INV_EN  <- '~' EN,
+        OLD     <- (W_MEM_READ mem_info M D_ADDR),
+        INV_EN  <- '~' D_EN,
         A1      <- INV_EN '&' OLD,
-        A2      <-  EN '&' DATA,
+        A2      <-  D_EN '&' D_DATA,
         MASKED_WDATA <-  A1 '|' A2,
-        TMP     <-  (W_MEM_WRITE mem_info M ADDR DATA),
-        M_OUT <- (W_ITE ACTIVE TMP M)
+        TMP     <-  (W_MEM_WRITE mem_info M D_ADDR MASKED_WDATA),
+	// The address is undefined when nothing is to be written
+	WRITES <- '~' (D_EN '=' W_CONST width 0),
+        M_OUT <- (W_ITE (ACTIVE '&' WRITES) TMP M)
     ] in
     // Toplevel interfaces
     let fa_inps = [(f_M, old_mem), (f_ADDR, w_addr), (f_DATA, w_din), 
 		   (f_EN, w_en), (f_CLK, w_clk)]
     in
     let fa_outs = [(f_M_OUT, new_mem), (f_MASKED_WDATA, masked_wdata)] in
-    let ints    = [f_OLD,f_INV_EN,f_A1,f_A2,f_TMP,f_ACTIVE,f_OCLK] in
+    let ints    = [f_OLD,f_INV_EN,f_A1,f_A2,f_TMP,f_ACTIVE,f_OCLK,
+		   f_D_ADDR, f_D_DATA, f_D_EN, f_WRITES] in
     let pfn     = "draw_hier prim_mem_write" in
     PINST pfn attrs F fa_inps fa_outs ints (P_HIER leaves)
 ;
@@ -956,7 +968,7 @@ let prim_rw_bypass // Parameters
 		   mem_info wr_clk_enable wr_clk_polarity
 		   rd_transparency_mask rd_collision_x_mask
 		   // Signals
-		   inp r_addr wr_clk w_addr w_din out
+		   inp r_addr wr_clk w_addr w_en w_din out
     =
     val (MEM abits lines width) = mem_info in
     let attrs = mk_attr "" __FILE__ __LINE__ then
@@ -965,6 +977,7 @@ let prim_rw_bypass // Parameters
     val (f_CLK, CLK) = mk_vec 1 "CLK" in
     val (f_RD_ADDR, RD_ADDR) = mk_vec abits "RD_ADDR" in
     val (f_WR_ADDR, WR_ADDR) = mk_vec abits "WR_ADDR" in
+    val (f_WR_EN, WR_EN) = mk_vec width "WR_EN" in
     val (f_WR_DIN, WR_DIN) = mk_vec width "WR_DIN" in
     // Output
     val (f_OUT, OUT) = mk_vec width "OUT" in
@@ -974,6 +987,11 @@ let prim_rw_bypass // Parameters
     val (f_ACTIVE,ACTIVE) = mk_vec 1 "ACTIVE" in
     val (f_CTRL, CTRL) = mk_vec 1 "CTRL" in
     val (f_OCLK, OCLK) = mk_vec 1 "OCLK" in
+    val (f_D_RD_ADDR, D_RD_ADDR) = mk_vec abits "D_RD_ADDR" in
+    val (f_D_WR_ADDR, D_WR_ADDR) = mk_vec abits "D_WR_ADDR" in
+    val (f_D_WR_EN, D_WR_EN) = mk_vec width "D_WR_EN" in
+    val (f_WRITES, WRITES) = mk_vec 1 "WRITES" in
+    let sample lhs rhs = wr_clk_enable = "0" => lhs <- rhs | lhs <: rhs in
     //
     let not_trans = rd_transparency_mask = "0" in
     let not_coll  = rd_collision_x_mask = "0" in
@@ -985,15 +1003,21 @@ let prim_rw_bypass // Parameters
 		ACTIVE <- (wr_clk_enable = "0"   => W_CONST 1 1 |
 			   wr_clk_polarity = "1" => '~' OCLK '&' CLK |
 						    OCLK '&' '~' CLK),
-		CTRL   <- ACTIVE '&' (RD_ADDR '=' WR_ADDR)
+		D_RD_ADDR <: RD_ADDR,
+		sample D_WR_ADDR WR_ADDR,
+		sample D_WR_EN WR_EN,
+		WRITES <- '~' (D_WR_EN '=' W_CONST width 0),
+		CTRL   <- ACTIVE '&' WRITES '&' (D_RD_ADDR '=' D_WR_ADDR)
 	    ]
     in
     // Toplevel interfaces
     let fa_inps = [(f_INP,[inp]), (f_RD_ADDR, [r_addr]), (f_CLK, [wr_clk]),
-		   (f_WR_ADDR, [w_addr]), (f_WR_DIN, [w_din])]
+		   (f_WR_ADDR, [w_addr]), (f_WR_EN, [w_en]),
+		   (f_WR_DIN, [w_din])]
     in
     let fa_outs = [(f_OUT, [out])] in
-    let ints    = [f_M1, f_M2, f_CTRL, f_OCLK, f_ACTIVE] in
+    let ints    = [f_M1, f_M2, f_CTRL, f_OCLK, f_ACTIVE,
+		   f_D_RD_ADDR, f_D_WR_ADDR, f_D_WR_EN, f_WRITES] in
     let pfn     = "draw_hier prim_rw_bypass" in
     PINST pfn attrs F fa_inps fa_outs ints (P_HIER leaves)
 ;
@@ -1062,6 +1086,10 @@ let prim_mem_rd_port
     val (f_OTMP, OTMP)       = mk_vec width "OTMP" in
     val (f_NRES, NRES) = mk_vec width "NRES" in
     val (f_ORES, ORES) = mk_vec width "ORES" in
+    // A clocked port uses the values its inputs had before the clock edge
+    val (f_D_SRST, D_SRST) = mk_vec 1 "D_SRST" in
+    val (f_D_RD_EN, D_RD_EN) = mk_vec 1 "D_RD_EN" in
+    val (f_D_RD_ADDR, D_RD_ADDR) = mk_vec abits "D_RD_ADDR" in
     //
     let NOT_CE_OVER_SRST = W_CONST 1 ((rd_ce_over_srst = "1") => 0 | 1) in
     let CLK_ENABLE = W_CONST 1 ((rd_clk_enable = "1") => 1 | 0) in
@@ -1071,17 +1099,20 @@ let prim_mem_rd_port
 		   rd_clk_polarity = "1" => '~' O_RD_CLK '&' RD_CLK |
 					    O_RD_CLK '&' '~' RD_CLK),
 	C1   <- ARST,
-	C2   <- SRST '&' ACTIVE '&' (RD_EN '|' NOT_CE_OVER_SRST),
+	D_SRST <: SRST,
+	D_RD_EN <: RD_EN,
+	D_RD_ADDR <: RD_ADDR,
+	C2   <- D_SRST '&' ACTIVE '&' (D_RD_EN '|' NOT_CE_OVER_SRST),
 	C3   <- CLK_ENABLE,
-	C4   <- CLK_ENABLE '&' RD_EN '&' ACTIVE,
+	C4   <- CLK_ENABLE '&' D_RD_EN '&' ACTIVE,
 	OTMP <: M1,
-	DOUT <- OTMP,
+	DOUT <- M1,
         M1   <- (W_ITE C1 (sval2wexpr rd_arst_value) M2),
         M2   <- (W_ITE C2 (sval2wexpr rd_srst_value) M3),
         M3   <- (W_ITE C3 M4 NRES),
-        M4   <- (W_ITE C4 M5 ORES),
+        M4   <- (W_ITE C4 M5 OTMP),
         NRES <- (W_MEM_READ mem_info NEW_M RD_ADDR),
-        ORES <- (W_MEM_READ mem_info OLD_M RD_ADDR)
+        ORES <- (W_MEM_READ mem_info OLD_M D_RD_ADDR)
     ] in
     let wr_clk_enable_l        = explode wr_clk_enables in
     let wr_clk_polarity_l      = explode wr_clk_polarities in
@@ -1094,14 +1125,14 @@ let prim_mem_rd_port
 		       rd_collision_x_mask_l
     in
     letrec mk_bypass (wsig:wsigs) (wparam:wparams) (out,OUT) =
-	val (wclk,waddr,wdin) = wsig in
+	val (wclk,waddr,wen,wdin) = wsig in
 	val (clk_enable, clk_polarity, trans_mask, coll_x_mask) = wparam in
         val (cur,CUR) = mk_vec width (sprintf "bp_%d" (length wsigs)) in
 	val (ps, ints) = mk_bypass wsigs wparams (cur,CUR) in
 	let p = prim_rw_bypass mem_info
 			       clk_enable clk_polarity
 			       trans_mask coll_x_mask
-			       cur f_RD_ADDR wclk waddr wdin out
+			       cur f_RD_ADDR wclk waddr wen wdin out
 	in
 	let ps' = p:ps in
 	let ints' = cur:ints in
@@ -1112,8 +1143,8 @@ let prim_mem_rd_port
     let leaves = common_leaves @ bypass_leaves in
     //
     let wr_inps_fa =
-	let get_ports (wclk,waddr,wdin) = 
-	    [(wclk,[wclk]), (waddr,[waddr]), (wdin,[wdin])]
+	let get_ports (wclk,waddr,wen,wdin) = 
+	    [(wclk,[wclk]), (waddr,[waddr]), (wen,[wen]), (wdin,[wdin])]
 	in
 	flatmap get_ports wr_ports
     in
@@ -1124,7 +1155,8 @@ let prim_mem_rd_port
     in
     let fa_outs = [(f_DOUT, [dout])] in
     let ints    = [f_O_RD_CLK, f_ACTIVE, f_C1, f_C2, f_C3, f_C4, f_OTMP,
-		   f_M1, f_M2, f_M3, f_M4, f_M5, f_NRES, f_ORES]@bypass_ints
+		   f_M1, f_M2, f_M3, f_M4, f_M5, f_NRES, f_ORES,
+		   f_D_SRST, f_D_RD_EN, f_D_RD_ADDR]@bypass_ints
     in
     let pfn     = "draw_hier prim_mem_rd_port" in
     PINST pfn attrs F fa_inps fa_outs ints (P_HIER leaves)
@@ -1135,7 +1167,7 @@ let mk_mem_name mem_info base =
     sprintf "%s[%d:0][%d:0]" base (lines-1) (width-1)
 ;
 
-let mk_write_ports mem_info wsigs wparams out =
+let mk_write_ports mem_info wsigs wparams old_mem out =
     val (MEM abits lines width) = mem_info in
     letrec mk_wport (wsig:wsigs) (wparam:wparams) out =
 	val (w_clk,w_en,w_addr,w_din) = wsig in
@@ -1151,7 +1183,9 @@ let mk_write_ports mem_info wsigs wparams out =
 	let ints' = cur:ints in
 	let mwds' = m_wdata:mwds in
 	(ps',ints', mwds')
-     /\   mk_wport [] [] out = [], [], []
+     /\   mk_wport [] [] out =
+	// What the first port writes to is the old contents
+	[W_EXPLICIT_VAR (lines*width) (hd out) <- old_mem], [], []
     in
     mk_wport wsigs wparams [out]
 ;
@@ -1255,7 +1289,7 @@ let _mem_v2 src mem wr_ports rd_ports lines width abits params
 		let clk_polarities = splitn 1 WR_CLK_POLARITY then
 		zip clk_enables clk_polarities
 	    then
-	    mk_write_ports mem_info wports wparams f_NEW_MEM
+	    mk_write_ports mem_info wports wparams OLD_MEM f_NEW_MEM
     then
     // Memory storage part
     let mem_pexlifs = [OLD_MEM <: NEW_MEM] then
@@ -1265,8 +1299,9 @@ let _mem_v2 src mem wr_ports rd_ports lines width abits params
 	    wr_ports = 0 => [] |
 	    let w_clks = splitv 1 f_WR_CLK then
 	    let w_addrs = splitv abits f_WR_ADDR then
+	    let w_ens  = splitv width f_WR_EN then
 	    let w_dins = masked_wdatas then
-	    zip3 w_clks w_addrs w_dins
+	    zip4 w_clks w_addrs w_ens w_dins
 	then
 	// Parameters
 	let rd_clk_enable_l        = splitn 1 RD_CLK_ENABLE then
-- 
2.43.0

