From f1aee2d4c35c30b1bab12fddc26a63c067de9e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:16 +0000
Subject: [PATCH 01/33] fix: bev_ashr by at least the vector length keeps the
 sign bit

---
 src/bin/fl/bev.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bev.c b/src/bin/fl/bev.c
index 8322e59..4ef3b00 100644
--- a/src/bin/fl/bev.c
+++ b/src/bin/fl/bev.c
@@ -877,9 +877,13 @@ bev_ashr(g_ptr redex)
     g_ptr tail = res;
     g_ptr al = a->u.l;
     int len = get_bev_length(al);
-    for(int i = 0; i < len-cnt; i++) {
+    if( cnt >= len ) {
 	APPEND1(tail, GET_CONS_HD(al));
-	al = GET_CONS_TL(al);
+    } else {
+	for(int i = 0; i < len-cnt; i++) {
+	    APPEND1(tail, GET_CONS_HD(al));
+	    al = GET_CONS_TL(al);
+	}
     }
     MAKE_REDEX_EXT_OBJ(redex, bev_oidx, get_bev_rec(res));
 }
-- 
2.43.0


From 5743692cb3e778bbc327113ed28f5dee1b3b625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 02/33] fix: bev_pow terminates and computes the power for
 positive exponents

---
 src/bin/fl/preamble.fl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/preamble.fl b/src/bin/fl/preamble.fl
index c27a432..474420d 100644
--- a/src/bin/fl/preamble.fl
+++ b/src/bin/fl/preamble.fl
@@ -756,8 +756,10 @@ let bv_neg bv = bv_add (bv_NOT bv) (int2bv 1);
 
 // Compute base to the power of n.
 letrec bev_pow {base::bev} {n::bev} =
-    IF (bev_geq n (int2bev 0)) THEN (int2bev 1) ELSE
-    (bev_mul base (bev_pow base (bev_sub n (int2bev 1))))
+    let positive = bev_greater n (int2bev 0) in
+    bexpr_is_unsat positive 1 => int2bev 1 |
+    IF positive THEN (bev_mul base (bev_pow base (bev_sub n (int2bev 1))))
+		ELSE (int2bev 1)
 ;
 
 // Compute n shifted left by amount.
-- 
2.43.0


From e8f41d48b2ec16c9e7cc7cfcb281e2f6c173153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 03/33] fix: unsigned arithmetic library no longer drops
 leading ones of dynamic vectors

---
 src/vosslib/gen_u_arithm.fl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vosslib/gen_u_arithm.fl b/src/vosslib/gen_u_arithm.fl
index b36fb38..650f04b 100644
--- a/src/vosslib/gen_u_arithm.fl
+++ b/src/vosslib/gen_u_arithm.fl
@@ -12,10 +12,10 @@ begin_abstype;
 // and fo[1][0]).
 let variable_vector v = map gvariable (md_expand_vector v);
 
-// Remove leading duplicated values
+// Remove leading zeros
 let bv_trim res =
     letrec trim (b1:b2:bs) =
-	(b1 == b2) => trim (b2:bs) | (b1:b2:bs)
+	(b1 == gF) => trim (b2:bs) | (b1:b2:bs)
      /\    trim [b] = [b]
      /\    trim [] = [gF]
     in
@@ -220,7 +220,7 @@ infix 5 '>=';
 // Add two dynamic bitvectors.
 clet dbvadd av bv =
     val (av,bv) = ZX2 av bv in
-    bv_trim (tl (ext_gen_bvadd (hd av:av) (hd bv:bv) gF))
+    bv_trim (tl (ext_gen_bvadd (gF:av) (gF:bv) gF))
 ;
 
 // Add two dynamic bitvectors.
-- 
2.43.0


From 1f8d580124e8e64bf72b477b8c9e38c6b33fc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 04/33] fix: arithmetic shift right of negative vectors in the
 arithmetic libraries

---
 src/vosslib/gen_arithm.fl   | 7 ++++---
 src/vosslib/gen_u_arithm.fl | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vosslib/gen_arithm.fl b/src/vosslib/gen_arithm.fl
index 18a26d0..4cc8afb 100644
--- a/src/vosslib/gen_arithm.fl
+++ b/src/vosslib/gen_arithm.fl
@@ -476,10 +476,11 @@ let fbvashr av bv =
     let sz = length av in
     sz != length bv => error "Length mismatch in fbvashr" |
     let msb = hd av in
-    let zero = replicate sz msb in
-    gIF (bv '>=' int2fbv sz sz) gTHEN zero gELSE
+    let fill = replicate sz msb in
+    let zero = replicate sz gF in
+    gIF (bv '>=' int2fbv sz sz) gTHEN fill gELSE
     letrec shift cur cnt i =
-	i = 0 => zero |
+	i = 0 => fill |
 	gIF (cnt '=' zero) gTHEN cur gELSE
 	shift ([msb] @ butlast cur) (cnt '-' (int2fbv sz 1)) (i-1)
     in
diff --git a/src/vosslib/gen_u_arithm.fl b/src/vosslib/gen_u_arithm.fl
index 650f04b..160760f 100644
--- a/src/vosslib/gen_u_arithm.fl
+++ b/src/vosslib/gen_u_arithm.fl
@@ -380,10 +380,11 @@ let fbvashr av bv =
     let sz = length av in
     sz != length bv => error "Length mismatch in fbvashr" |
     let msb = hd av in
-    let zero = replicate sz msb in
-    gIF (bv '>=' int2fbv sz sz) gTHEN zero gELSE
+    let fill = replicate sz msb in
+    let zero = replicate sz gF in
+    gIF (bv '>=' int2fbv sz sz) gTHEN fill gELSE
     letrec shift cur cnt i =
-	i = 0 => zero |
+	i = 0 => fill |
 	gIF (cnt '=' zero) gTHEN cur gELSE
 	shift ([msb] @ butlast cur) (cnt '-' (int2fbv sz 1)) (i-1)
     in
-- 
2.43.0


From ee68521fd550c57496e6c006ac8f23f987f73186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 05/33] fix: dbvmult and dbvdiv on symbolic dynamic vectors

---
 src/vosslib/gen_arithm.fl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vosslib/gen_arithm.fl b/src/vosslib/gen_arithm.fl
index 4cc8afb..84422df 100644
--- a/src/vosslib/gen_arithm.fl
+++ b/src/vosslib/gen_arithm.fl
@@ -335,9 +335,9 @@ clet fbvnegate av = fbvsub (int2fbv (length av) 0) av;
 clet dbvmult av bv =
     val (av,bv) = length av < length bv => (bv,av) | (av,bv) in
     let neg_a = hd av in
-    let aav = gIF neg_a gTHEN (dbvnegate av) gELSE av in
+    let aav = dbvMUX neg_a (dbvnegate av) av in
     let neg_b = hd bv in
-    let abv = gIF neg_b gTHEN (dbvnegate bv) gELSE bv in
+    let abv = dbvMUX neg_b (dbvnegate bv) bv in
     letrec bvmult xv [] = [gF]
      /\    bvmult xv (y:ys) =
         let prod = gF:(map ((defix gAND) y) (xv @ (replicate (length ys) gF)))
@@ -346,7 +346,7 @@ clet dbvmult av bv =
     in
     let ares = bvmult aav abv then
     let neg = neg_a gXOR neg_b then
-    gIF neg gTHEN (dbvnegate ares) gELSE ares
+    dbvMUX neg (dbvnegate ares) ares
 ;
 
 // Unsigned multiplication of dynamically sized bitvectors
@@ -454,7 +454,7 @@ clet ext_bvdiv nv dv =
     val ((n_sign, n_abs), (d_sign,d_abs)) = get_sign_abs2 nv dv then
     val (q,r) = fixed_ext_bvdiv n_abs d_abs then
     let res_sign = n_sign gXOR d_sign then
-    let q_res = gIF res_sign gTHEN (dbvnegate q) gELSE q in
+    let q_res = dbvMUX res_sign (dbvnegate q) q in
     (bv_trim q_res, bv_trim r)
 ;
 
-- 
2.43.0


From 4f127ddff5006e01c372435f0878008d527e35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 06/33] fix: bITE uses its own condition when a branch
 evaluates another bITE

---
 src/bin/fl/bexpr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f72d8d7..5ba8c1f 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1064,6 +1064,8 @@ bITE(g_ptr redex)
     } else {
 	g_ptr arg2 = force(GET_APPLY_RIGHT(l), FALSE);
 	g_ptr arg3 = force(GET_APPLY_RIGHT(redex), FALSE);
+	// Forcing the branches may have evaluated other bITEs
+	current_bexpr_cond = GET_BEXPR(arg1);
 	g_ptr res = Gen_map2(s_bITE, g_be_ite, arg2, arg3, FALSE);
 	OVERWRITE(redex, res);
     }
-- 
2.43.0


From f8ff7cfbbc51fc0022598cb32f188b8647e260d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:42 +0000
Subject: [PATCH 07/33] fix: unsigned dbvsub zero-extends its operands

---
 src/vosslib/gen_u_arithm.fl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vosslib/gen_u_arithm.fl b/src/vosslib/gen_u_arithm.fl
index 160760f..10b040b 100644
--- a/src/vosslib/gen_u_arithm.fl
+++ b/src/vosslib/gen_u_arithm.fl
@@ -244,7 +244,7 @@ infix 7 '-';
 // Subtract two dynamic bitvectors 
 clet dbvsub av bv =
     val (av,bv) = ZX2 av bv in
-    bv_trim (tl (ext_gen_bvadd (hd av:av) (map gNOT (hd bv:bv)) gT))
+    bv_trim (tl (ext_gen_bvadd (gF:av) (map gNOT (gF:bv)) gT))
 ;
 
 // Subtract two dynamic bitvectors 
-- 
2.43.0


From 6d52a5620a3cab229d9048f8984a6dcc8f6505cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 08/33] fix: bexpr2bdd does not reuse BDDs computed under
 another substitution

---
 src/bin/fl/bexpr.c | 7 ++++++-
 src/bin/fl/bexpr.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 5ba8c1f..f3864ed 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -34,6 +34,8 @@ static char	    buf[1024];
 static hash_record  depend_tbl;
 static hash_record  gl_subst_tbl;
 static hash_record  bexpr2bdd_sub_tbl;
+static ui	    bexpr2bdd_epoch = 0;
+static ui	    bexpr2bdd_last_epoch = 0;
 static hash_record  res_tbl;
 static hash_record  bdd2bexpr_tbl;
 static buffer	    bvar_buf;
@@ -553,6 +555,8 @@ bexpr2bdd(g_ptr redex)
     g_ptr sub, bf;
     EXTRACT_2_ARGS(redex, sub, bf);
     create_hash(&bexpr2bdd_sub_tbl, 100, str_hash, str_equ);
+    // BDDs computed under one substitution cannot be used for another one
+    bexpr2bdd_epoch = IS_NIL(sub)? 0 : ++bexpr2bdd_last_epoch;
     while( !IS_NIL(sub) ) {
         g_ptr pair = GET_CONS_HD(sub);
         string v = GET_STRING(GET_CONS_HD(pair));
@@ -1407,7 +1411,7 @@ be2bdd(bexpr be)
     if( BE_IS_TRUE(be) ) return( B_One() );
     bool neg = BE_IS_NEG(be);
     bexpr b = BE_POS(be);
-    if( b->has_bdd ) {
+    if( b->has_bdd && (b->bdd_epoch == bexpr2bdd_epoch) ) {
 	return( neg? B_Not(b->bdd) : b->bdd );
     }
     formula res;
@@ -1426,6 +1430,7 @@ be2bdd(bexpr be)
 	POP_BDD_GC(1);
     }
     b->bdd = res;
+    b->bdd_epoch = bexpr2bdd_epoch;
     b->has_bdd = 1;
     return( neg? B_Not(res) : res );
 }
diff --git a/src/bin/fl/bexpr.h b/src/bin/fl/bexpr.h
index f7c1956..1f5821f 100644
--- a/src/bin/fl/bexpr.h
+++ b/src/bin/fl/bexpr.h
@@ -65,6 +65,7 @@ typedef struct bexpr_rec {
     ui		    height:28;
     int		    sat_idx:32;
     formula	    bdd;
+    ui		    bdd_epoch;	// Conversion bdd was computed by (0=no subst.)
     bexpr	    next;
     union {
 	bexpr	    be;
-- 
2.43.0


From 3a66f942ed610762dfa1d6c62cb7859d0c38acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:53 +0000
Subject: [PATCH 09/33] fix: bexpr2bdd keeps its redex intact while the
 conversion may garbage collect

---
 src/bin/fl/bexpr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f3864ed..55a1d54 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -564,7 +564,9 @@ bexpr2bdd(g_ptr redex)
 	insert_hash(&bexpr2bdd_sub_tbl, v, e);
         sub = GET_CONS_TL(sub);
     }
-    MAKE_REDEX_BOOL(redex, be2bdd(GET_BEXPR(bf)));
+    // The conversion can garbage collect; keep redex intact until it is done
+    formula res = be2bdd(GET_BEXPR(bf));
+    MAKE_REDEX_BOOL(redex, res);
     dispose_hash(&bexpr2bdd_sub_tbl, NULLFCN);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
-- 
2.43.0


From 59404f3be18b16f4f2e23245cde85c2cdd0286c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:21 +0000
Subject: [PATCH 10/33] fix: relational product quantifies with the right
 quantifier and cache key when an operand is true

---
 src/bin/fl/new_bdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c4d81e..0f49a8d 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -933,9 +933,9 @@ Rel_prod(formula qv, formula a, formula b, bool existential)
     if( a == ZERO || b == ZERO || a == NOT(b) )
 	BDD_RETURN( ZERO );
     if( a == ONE || (a == b))
-	BDD_RETURN( quantify(b, qv, existential) );
+	BDD_RETURN( quantify(b, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( b == ONE )
-	BDD_RETURN( quantify(a, qv, existential) );
+	BDD_RETURN( quantify(a, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( qv == ONE || qv == ZERO )
 	BDD_RETURN( B_And(a,b) );
 
-- 
2.43.0


From fa47f3ea88b21830e4cf4ee6b405ea1d28deded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 11/33] fix: bexpr H/L printing asks the SAT solver correctly,
 also for constants

check_for_satisfaction_with_SAT returned TRUE for unsatisfiable formulas and
passed variable -1 to the solver for constants, so bSTE crashed as soon as an
antecedent failure was reported.
---
 src/bin/fl/bexpr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 55a1d54..53cf8ef 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1746,13 +1746,16 @@ be_sat_depend(bexpr be)
 static bool
 check_for_satisfaction_with_SAT(bexpr f)
 {
+    // Constants have no variable in the SAT solver
+    if( BE_IS_FALSE(f) ) return FALSE;
+    if( BE_IS_TRUE(f) ) return TRUE;
     int assumptions[2];
     bool neg_f = BE_IS_NEG(f);
     bexpr p_f  = BE_POS(f);
     assumptions[0] = neg_f? -1*p_f->sat_idx : p_f->sat_idx;
     int res = Find_model(assumptions, 1, 5); 
-    if( res <= 0 ) return TRUE;
-    return FALSE;
+    if( res <= 0 ) return FALSE;
+    return TRUE;
 }
 
 static bool
-- 
2.43.0


From d6d69e80fa06f1901f26e68c73411c6bc9b83602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 12/33] fix: STE re-evaluates a node whose antecedent ends when
 a consequent starts on it

process_event cleared the change flag for every event on a node, so an event
of another kind at the same time left the node at its old, no longer driven
value.
---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3d3bcbf..d407f90 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3586,7 +3586,6 @@ process_event(buffer *event_bufp, int time)
 	} else {
 	    int idx = ep->nd_idx;
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
-	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
 		np->has_trace = TRUE;
 		gbv H = *(cur_buf + 2*idx);
@@ -7240,6 +7239,7 @@ initialize(ste_ptr ste, bool trace_all)
     nnode_ptr np;
     FOR_BUF(nodesp, nnode_rec, np) {
 	np->has_phase_event = FALSE;
+	np->has_ant_or_weak_change = FALSE;
 	np->has_weak = FALSE;
 	np->has_ant = FALSE;
 	np->has_cons = FALSE;
-- 
2.43.0


From 37d25da7174819c8a2fdc7293a3ab140b4d7fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:19 +0000
Subject: [PATCH 13/33] fix: STE applies antecedents and weakenings to phase
 delayed nodes in their own phase

The next value of a phase delayed node was constrained with the events of the
previous phase: an antecedent or weakening on such a node started and ended
one phase late, and could make the trajectory contradictory after its end.
---
 src/bin/fl/fsm.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index d407f90..aa75812 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5772,14 +5772,20 @@ do_phase(ste_ptr ste)
 {
     nnode_ptr np;
     int idx = 0;
-    (ste->cur_time)++;
     FOR_BUF(nodesp, nnode_rec, np) {
 	gbv newH, newL;
+	bool changed = np->has_phase_event;
+	if( np->has_ant_or_weak_change && np->composite >= 0 ) {
+	    // The constraints on a phase delayed node changed
+	    ncomp_ptr c;
+	    c = (ncomp_ptr) M_LOCATE_BUF(compositesp, np->composite);
+	    if( c->phase_delay ) { changed = TRUE; }
+	}
 	if( idx >3 && np->composite == -1 ) {
 	    // Input
 	    newH = newL = c_ONE;
 	    update_node(ste, idx, newH, newL);
-	} else if( np->has_phase_event ) {
+	} else if( changed ) {
 	    np->has_phase_event = FALSE;
 	    newH = *(next_buf+2*idx);
 	    newL = *(next_buf+2*idx+1);
@@ -5787,7 +5793,6 @@ do_phase(ste_ptr ste)
 	}
 	idx++;
     }
-    (ste->cur_time)--;
 }
 
 static int
@@ -8740,6 +8745,10 @@ gSTE(g_ptr redex, value_type type)
 		    FP(sim_fp, "Time: %d\n", t);
 	    }
 	}
+	// Move on to phase t: first find the constraints that hold now and
+	// then apply them to the inputs and to the phase delayed nodes.
+	process_event(event_bufp, t);
+	do_phase(ste);
 	if ( stop_node_active(stop_idx) ) {
 	    ste->max_time = t;
 	    free_ste_buffers();
@@ -8754,7 +8763,6 @@ gSTE(g_ptr redex, value_type type)
 	    return;
 	}
 
-	process_event(event_bufp, t);
 	nnode_ptr np;
 	// Put nodes whose weak/ant changed on evaluation list.
 	int idx = 0;
@@ -8841,7 +8849,6 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	    idx++;
 	}
-	do_phase(ste);
 	if( Do_gc_asap )
 	    Garbage_collect();
     }
-- 
2.43.0


From a731fa33b7ed90d15b285a574b938bd9adb176d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:52 +0000
Subject: [PATCH 14/33] fix: overlapping STE assertions and weakenings on a
 node

The end of one antecedent, consequent or weakening switched off the others
that were still active on the same node, and a node with several active
weakenings was weakened only when all of them held.
---
 src/bin/fl/fsm.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index aa75812..9cb5d2e 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3613,7 +3613,6 @@ process_event(buffer *event_bufp, int time)
 			buf = weak_buf;
 			break;
 		    case end_weak:
-			np->has_weak = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			if( c_EQ(ep->H, c_ZERO) && c_EQ(ep->L, c_ZERO) ) {
 			    if( np->composite >= 0 ) {
@@ -3624,6 +3623,7 @@ process_event(buffer *event_bufp, int time)
 			    }
 			}
 			cur_active = delete_active_event(active_weak_tblp, ep);
+			np->has_weak = (cur_active != NULL);
 			buf = weak_buf;
 			break;
 		    case start_ant:
@@ -3633,9 +3633,9 @@ process_event(buffer *event_bufp, int time)
 			buf = ant_buf;
 			break;
 		    case end_ant:
-			np->has_ant = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			cur_active = delete_active_event(active_ant_tblp, ep);
+			np->has_ant = (cur_active != NULL);
 			buf = ant_buf;
 			break;
 		    case start_cons:
@@ -3644,19 +3644,24 @@ process_event(buffer *event_bufp, int time)
 			buf = cons_buf;
 			break;
 		    case end_cons:
-			np->has_cons = FALSE;
 			cur_active = delete_active_event(active_cons_tblp, ep);
+			np->has_cons = (cur_active != NULL);
 			buf = cons_buf;
 			break;
 		    default:
 			DIE("Should not happen");
 			break;
 		}
-		gbv H = c_ONE;
-		gbv L = c_ONE;
+		// Assertions accumulate constraints, but a node is weakened
+		// as soon as one of its active weakenings holds.
+		bool weak = (buf == weak_buf);
+		gbv H = weak? c_ZERO : c_ONE;
+		gbv L = weak? c_ZERO : c_ONE;
 		while( cur_active ) {
-		    H = c_AND(H, cur_active->ep->H);
-		    L = c_AND(L, cur_active->ep->L);
+		    gbv eH = cur_active->ep->H;
+		    gbv eL = cur_active->ep->L;
+		    H = weak? c_OR(H, eH) : c_AND(H, eH);
+		    L = weak? c_OR(L, eL) : c_AND(L, eL);
 		    cur_active = cur_active->next;
 		}
 		*(buf + 2*idx)   = H;
-- 
2.43.0


From df229cd1cb83aad5acc4e1f88cfb800c104b6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 15/33] fix: STE tuples with an empty time interval no longer
 abort fl

---
 src/bin/fl/fsm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 9cb5d2e..3af0867 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3429,6 +3429,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in weakening list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	    // No phase at all
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3458,6 +3459,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in antecedent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	    // No phase at all
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3503,6 +3505,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in consequent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	    // No phase at all
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3547,6 +3550,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in trace list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	    // No phase at all
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
-- 
2.43.0


From 6710e8ac7821e535867e6d4cc29c5d83e50cb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:17 +0000
Subject: [PATCH 16/33] fix: STE shifts of vectors wider than 32 bits by large
 amounts

---
 src/bin/fl/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3af0867..4a0110c 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -6315,7 +6315,7 @@ op_SHL(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshl_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < (unint) op->size ) { shift *= 2; }	// Avoid overflow
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6340,7 +6340,7 @@ op_SHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < (unint) op->size ) { shift *= 2; }	// Avoid overflow
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6367,7 +6367,7 @@ op_ASHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sashr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	if( shift < (unint) op->size ) { shift *= 2; }	// Avoid overflow
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
-- 
2.43.0


From 8ecc7146478285fdade5f121a6ff062c77032cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:07 +0000
Subject: [PATCH 17/33] fix: multiplying -1 by the most negative word no longer
 crashes

---
 src/bin/fl/arb_prec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 4149779..2169edc 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -517,7 +517,9 @@ arbi__mlt(arbi_T x, arbi_T y)
         if(!wx) return(arbi__FromInt(0));
         if(!wy) return(arbi__FromInt(0));
 	wp = wx*wy;
-	if(wy == wp/wx && wx == wp/wy ) /* no overflow? */
+	/* wp/wx itself overflows for -1*MinWord */
+	if((wx != -1 || wy != MinWord) &&
+	   wy == wp/wx && wx == wp/wy ) /* no overflow? */
 	    return(arbi__FromInt(wp));
     }
 
-- 
2.43.0


From 6a4d2a3805d668d077e632427eda775e007dedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:25 +0000
Subject: [PATCH 18/33] fix: bdd_size counts a node once when it is used both
 plain and complemented at top level

---
 src/bin/fl/new_bdd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 0f49a8d..9c2fb06 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -802,6 +802,8 @@ B_Size(formula f)
 
     if( f == ZERO || f == ONE)
         return;
+    // A function and its negation share the same node
+    f = POS(f);
     if( find_hash(&bdd_size_tbl, FORMULA2PTR(f)) != NULL )
 	return;
     bp = GET_BDDP(f);
-- 
2.43.0


From 7175dcd21faa0f651fdad7d777c6b2ee87a3d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:25 +0000
Subject: [PATCH 19/33] fix: counting models over an empty list of variables

---
 src/bin/fl/new_bdd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c2fb06..a29eb5e 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -1299,6 +1299,8 @@ Get_Size_and_Vars(g_ptr funs, g_ptr vars,
 	    *allp = B_And(*allp, v);
 	}
     }
+    // A conjunction of variables is traversed until ZERO is reached
+    if( *allp == ONE ) { *allp = ZERO; }
 }
 
 
@@ -1782,6 +1784,8 @@ do_fp_truth_cover_n(g_ptr redex)
 	vs = B_And(vs, v);
 	var_list = GET_CONS_TL(var_list);
     }
+    // A conjunction of variables is traversed until ZERO is reached
+    if( vs == ONE ) { vs = ZERO; }
     MAKE_REDEX_NIL(redex);
     g_ptr tail = redex;
     while( !IS_NIL(funs) ) {
@@ -1923,6 +1927,8 @@ do_fp_truth_cover2_n(g_ptr redex)
 	vs = B_And(vs, v);
 	var_list = GET_CONS_TL(var_list);
     }
+    // A conjunction of variables is traversed until ZERO is reached
+    if( vs == ONE ) { vs = ZERO; }
     MAKE_REDEX_NIL(redex);
     g_ptr tail = redex;
     while( !IS_NIL(funs) ) {
-- 
2.43.0


From 83009992449b94acf606f459bafa6426e207477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 20/33] fix: gen_model_count treated a counted variable as free
 after the last free one

---
 src/bin/fl/bv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/bv.c b/src/bin/fl/bv.c
index 758d3b8..2ec9f62 100644
--- a/src/bin/fl/bv.c
+++ b/src/bin/fl/bv.c
@@ -1622,7 +1622,7 @@ get_next_vars(formula *vsp, formula *fsp)
 {
     bool is_free;
     bdd_ptr vp = f_GET_BDDP(*vsp);
-    if( *fsp == ONE ) {
+    if( *fsp == ONE || *fsp == ZERO ) {
 	is_free = FALSE;
     } else {
 	bdd_ptr fp = f_GET_BDDP(*fsp);
-- 
2.43.0


From c958582b438d2c2e0042272077d30329c1e01a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 21/33] fix: gen_model_count and bv_sum protect arguments and
 results from garbage collection

---
 src/bin/fl/bv.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bv.c b/src/bin/fl/bv.c
index 2ec9f62..ec44f73 100644
--- a/src/bin/fl/bv.c
+++ b/src/bin/fl/bv.c
@@ -29,6 +29,7 @@ static char	    bv_str_buf[4096];
 static g_ptr	    Zero;
 static g_ptr	    One;
 static hash_record  gen_mc_cache_tbl;
+static g_ptr	    gen_mc_cache_list;
 static int          gen_mc_cache_sz = -1;
 
 /* ----- Forward definitions local functions ----- */
@@ -1251,8 +1252,10 @@ do_gen_model_count(g_ptr redex)
     PUSH_BDD_GC(fs);
     create_gen_mc_cache(sz);
     // Now compute the gen_model_count for all variables
-    MAKE_REDEX_NIL(redex);
-    g_ptr tail = redex;
+    // (redex keeps the arguments alive until all results are available)
+    g_ptr list = Make_NIL();
+    PUSH_GLOBAL_GC(list);
+    g_ptr tail = list;
     while( !IS_NIL(funs) ) {
         formula fun = GET_BOOL(GET_CONS_HD(funs));
         g_ptr res = gen_model_count_rec(vs, fs, fun);
@@ -1260,6 +1263,8 @@ do_gen_model_count(g_ptr redex)
         funs = GET_CONS_TL(funs);
     }
     free_gen_mc_cache();
+    POP_GLOBAL_GC(1);
+    OVERWRITE(redex, list);
     RCdo_dynamic_var_order = o_do_dynamic_var_order;
     POP_BDD_GC(2);
     DEC_REF_CNT(l);
@@ -1575,6 +1580,9 @@ create_gen_mc_cache(unint sz)
 {
     gen_mc_cache_sz = sz;
     create_hash(&gen_mc_cache_tbl, 2*sz, formula_hash, formula_eq);
+    // Protect the cached results from garbage collection
+    gen_mc_cache_list = Make_CONS_ND(Make_NIL(), Make_NIL());
+    PUSH_GLOBAL_GC(gen_mc_cache_list);
 }
 
 static g_ptr 
@@ -1589,12 +1597,16 @@ static void
 insert_in_gen_mc_cache(formula f, g_ptr bvl)
 {
     insert_hash(&gen_mc_cache_tbl, FORMULA2PTR(f), bvl);
+    INC_REFCNT(bvl);
+    SET_CONS_TL(gen_mc_cache_list,
+		Make_CONS_ND(bvl, GET_CONS_TL(gen_mc_cache_list)));
 }
 
 static void             
 free_gen_mc_cache()
 {
     dispose_hash(&gen_mc_cache_tbl, NULLFCN);
+    POP_GLOBAL_GC(1);
     gen_mc_cache_sz = -1;
 }
 
-- 
2.43.0


From 83fccf546dcd2c0d07e9e9d71ab7136ed9c94d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:42 +0000
Subject: [PATCH 22/33] fix: loading saved formulas whose variable names
 contain spaces

---
 src/bin/fl/bexpr.c   | 2 +-
 src/bin/fl/new_bdd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 53cf8ef..0250979 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -377,7 +377,7 @@ Load_bexprs(string filename, buffer *results)
 	switch( c ) {
 	    case 'v':
 	    {
-		if( fscanf(fp, "v %s\n", buf) != 1 )
+		if( fscanf(fp, "v%*1[ ]%[^\n]\n", buf) != 1 )
 		    goto parse_error;
 		line_cnt++;
 		string name = wastrsave(stringsp, buf);
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index a29eb5e..f97773e 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -879,7 +879,7 @@ Load_BDDs(string filename, buffer *results)
     }
     buffer var_map;
     new_buf(&var_map, 100, sizeof(formula));
-    while( fscanf(fp, "v %s\n", buf) == 1 ) {
+    while( fscanf(fp, "v%*1[ ]%[^\n]\n", buf) == 1 ) {
 	string name = wastrsave(stringsp, buf);
 	formula b = B_Var(name);
 	push_buf(&var_map, (pointer) &b);
-- 
2.43.0


From c447e4491a710986cec29bdb9fbc5b9c27cf5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:42 +0000
Subject: [PATCH 23/33] fix: bdd_save reports when the file cannot be written

---
 src/bin/fl/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index b6d5810..bacd6f0 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -3827,8 +3827,9 @@ traverse_left(g_ptr oroot)
 			    push_buf(&roots, &b);
 			    ntmp = GET_CONS_TL(ntmp);
 			}
-			Save_BDDs(GET_STRING(arg1), &roots);
+			bool saved = Save_BDDs(GET_STRING(arg1), &roots);
 			free_buf(&roots);
+			if( !saved ) { goto fail2; }
 			MAKE_REDEX_BOOL(redex, B_One());
 			goto finish2;
 		    }
-- 
2.43.0


From 93cccc77eb9bad966a86b0f6e1fc4fe0e1c37160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:42 +0000
Subject: [PATCH 24/33] fix: loading a file without or with incomplete saved
 formulas fails instead of returning fewer

---
 src/bin/fl/bexpr.c   | 7 ++++++-
 src/bin/fl/new_bdd.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 0250979..b6d9fc2 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -362,7 +362,7 @@ Load_bexprs(string filename, buffer *results)
     if( fscanf(fp, "SAVED_BEXPRS %d\n", &cnt) != 1 ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+        return( FALSE );
     }
     buffer work_buf;
     new_buf(&work_buf, 1000, sizeof(bexpr));
@@ -418,6 +418,11 @@ Load_bexprs(string filename, buffer *results)
     }
     fclose(fp);
     free_buf(&work_buf);
+    if( (int) COUNT_BUF(results) != cnt ) {
+	Fail_pr("Only %d out of %d bexprs could be read from %s",
+		COUNT_BUF(results), cnt, filename);
+	return( FALSE );
+    }
     return( TRUE );
  
   parse_error:
diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index f97773e..9fa09f1 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -875,7 +875,7 @@ Load_BDDs(string filename, buffer *results)
     if( fscanf(fp, "SAVED_BDDS %d\n", &cnt) != 1 ) {
 	fclose(fp);
 	Fail_pr("Illegal file format around line 1 in %s", filename);
-        return 1;
+        return( FALSE );
     }
     buffer var_map;
     new_buf(&var_map, 100, sizeof(formula));
@@ -907,6 +907,11 @@ Load_BDDs(string filename, buffer *results)
     free_buf(&var_map);
     free_buf(&work_buf);
     fclose(fp);
+    if( (int) COUNT_BUF(results) != cnt ) {
+	Fail_pr("Only %d out of %d BDDs could be read from %s",
+		COUNT_BUF(results), cnt, filename);
+	return( FALSE );
+    }
     return( TRUE );
 }
 
-- 
2.43.0


From 71e08e3c8d171b36a895759d94232063d239d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:30 +0000
Subject: [PATCH 25/33] fix: strides of vectors with ascending index ranges

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 4a0110c..839426f 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -5395,7 +5395,7 @@ get_stride(vec_ptr vp)
 	if( vp->type == INDEX ) {
 	    int sum = 0;
 	    for(range_ptr rp = vp->u.ranges; rp != NULL; rp = rp->next) {
-		sum += abs(rp->upper-rp->lower+1);
+		sum += abs(rp->upper-rp->lower)+1;
 	    }
 	    res = res * sum;
 	}
-- 
2.43.0


From 22a476621bb40aef6ec405b6770b7d9903478efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:47 +0000
Subject: [PATCH 26/33] fix: merging vector names must not reorder bits across
 a multi-element prefix

---
 src/bin/fl/voss_strings.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 3e9782a..091334e 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -1831,6 +1831,13 @@ is_const(merge_list_ptr mp)
     return( vp && vp->type == TXT && strncmp(vp->u.name, "0b", 2) == 0 );
 }
 
+static bool
+is_single_index(vec_ptr vp)
+{
+    range_ptr rp = vp->u.ranges;
+    return( rp == NULL || (rp->next == NULL && rp->upper == rp->lower) );
+}
+
 static merge_list_ptr
 gen_extract_vectors(string_op_ptr sop, buffer_ptr vec_buf)
 {
@@ -1974,11 +1981,15 @@ gen_merge_vectors(string_op_ptr sop, buffer_ptr vec_buf)
 		// Potentially can be merged
 		vec_ptr v1 = mp->vec;
 		vec_ptr v2 = mp->next->vec;
+		bool single_prefix = TRUE;
 		while( v1 &&
 		       (v1->type == TXT ||
 			//range_equ(v1->u.ranges, v2->u.ranges)) )
 			same_range(v1->u.ranges,v2->u.ranges)) )
 		{
+		    if( v1->type == INDEX && !is_single_index(v1) ) {
+			single_prefix = FALSE;
+		    }
 		    v1 = v1->next;
 		    v2 = v2->next;
 		}
@@ -2000,8 +2011,8 @@ gen_merge_vectors(string_op_ptr sop, buffer_ptr vec_buf)
 			v1 = v1->next;
 			v2 = v2->next;
 		    }
-		    if( v1 != NULL ) {
-			// Different suffix
+		    if( v1 != NULL || !single_prefix ) {
+			// Different suffix or merging would reorder the bits
 			not_changed++;
 			mp = mp->next;
 		    } else {
-- 
2.43.0


From 64f8426eaca89ce2fde416efc72c71cffe544b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:47 +0000
Subject: [PATCH 27/33] fix: splitting a vector into contiguous names must keep
 the order of its bits

---
 src/bin/fl/voss_strings.c | 41 +++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/bin/fl/voss_strings.c b/src/bin/fl/voss_strings.c
index 091334e..87bf50f 100644
--- a/src/bin/fl/voss_strings.c
+++ b/src/bin/fl/voss_strings.c
@@ -2147,6 +2147,19 @@ show_non_contig_vectors(string_op_ptr sop, vec_list_ptr vlp)
     return res;
 }
 
+static bool
+has_non_contig_index(vec_ptr vp)
+{
+    for(; vp != NULL; vp = vp->next) {
+        if( vp->type == INDEX
+            && vp->u.ranges != NULL && vp->u.ranges->next != NULL )
+        {
+            return TRUE;
+        }
+    }
+    return FALSE;
+}
+
 // todo: assumes '_strtemp' has been called, I think.
 static sname_list_ptr
 show_contig_vector(string_op_ptr sop, vec_ptr vp)
@@ -2159,15 +2172,27 @@ show_contig_vector(string_op_ptr sop, vec_ptr vp)
         } else {
             sname_list_ptr res = NULL, *tail_ptr = &res;
 	    string end_s = str_buf+strlen(str_buf);
+            // If a later index is split into several names, this index must
+            // be enumerated to keep the bits in order.
+            bool enumerate = has_non_contig_index(vp->next);
             for(range_ptr rp = vp->u.ranges; rp != NULL; rp = rp->next) {
-		*end_s = 0;
-		gen_strtemp(tstrings, str_buf);
-                SPRINT_RANGE(rp);
-                sname_list_ptr slp = show_contig_vector(sop, vp->next);
-                // /
-                *tail_ptr = slp;
-                while(slp->next != NULL) { slp = slp->next; }
-                tail_ptr = &slp->next;
+		int dir = (rp->upper > rp->lower)? -1 : 1;
+		int i = rp->upper;
+		while( 1 ) {
+		    range_rec range = *rp;
+		    range_ptr cur = &range;
+		    if( enumerate ) { cur->upper = cur->lower = i; }
+		    *end_s = 0;
+		    gen_strtemp(tstrings, str_buf);
+		    SPRINT_RANGE(cur);
+		    sname_list_ptr slp = show_contig_vector(sop, vp->next);
+		    // /
+		    *tail_ptr = slp;
+		    while(slp->next != NULL) { slp = slp->next; }
+		    tail_ptr = &slp->next;
+		    if( !enumerate || i == rp->lower ) { break; }
+		    i += dir;
+		}
             }
             return res;
         }
-- 
2.43.0


From b75c610bcbd6a242d66bbc50692f865bf8fef60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:47 +0000
Subject: [PATCH 28/33] fix: label of a circuit expression with a negative
 constant

---
 IDVII/src/fl/design/util.fl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IDVII/src/fl/design/util.fl b/IDVII/src/fl/design/util.fl
index f129a05..a6358b1 100644
--- a/IDVII/src/fl/design/util.fl
+++ b/IDVII/src/fl/design/util.fl
@@ -1031,7 +1031,8 @@ end_abstype get_wbase_names;
 let base_compact_wprint inps rhs =
     let i_map = zip inps (1 upto (length inps)) in
     letrec P pri (W_X sz) = sprintf "X[%d:0]" (sz-1)
-     /\    P pri (W_CONST sz v) =
+     /\    P pri (W_CONST sz sv) =
+	    let v = sv < 0 => sv + 2**sz | sv in
 	    (sz % 4) == 0 => sprintf "0x%0*x" (sz/4) v |
 	    (sz % 3) == 0 => sprintf "0o%0*o" (sz/3) v |
 			     sprintf "0b%0*b" sz v
-- 
2.43.0


From 280bbfb813fb2030d282875be2b6842c1fddfef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:47 +0000
Subject: [PATCH 29/33] fix: constant propagation in HFL must respect width and
 sign of constants

---
 IDVII/src/fl/design/simplify.fl | 65 ++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/IDVII/src/fl/design/simplify.fl b/IDVII/src/fl/design/simplify.fl
index e1f9302..abfca25 100644
--- a/IDVII/src/fl/design/simplify.fl
+++ b/IDVII/src/fl/design/simplify.fl
@@ -381,42 +381,54 @@ let split_complex p =
 ;
 
 
-let do_shr sz v1 v2 = sscanf "%b" (string_butlastn (sprintf "%*b" sz v1) v2);
-let do_ashr v1 v2 = v1 >= 0 => v1 / (2**v2) | -1*((-1*v1)/(2**v2));
+// The value of a sz bit wide constant, viewed as an unsigned/signed number.
+let to_unsigned sz v = let m = 2**sz in ((v % m) + m) % m;
+let to_signed sz v =
+    let u = to_unsigned sz v in
+    u >= 2**(sz-1) => u - 2**sz | u
+;
+
+let do_shl sz v1 v2 = v2 >= sz => 0 | to_unsigned sz (v1 * (2**v2));
+let do_shr sz v1 v2 = v2 >= sz => 0 | v1 / (2**v2);
+let do_ashr sz v1 v2 =
+    let s = to_signed sz v1 in
+    let d = 2**(v2 >= sz => sz | v2) in
+    to_unsigned sz (s >= 0 => s / d | -1 - ((-1 - s) / d))
+;
 
+let is_CONST (W_CONST sz v) = T
+ /\ is_CONST (W_NAMED_CONST name sz v) = T
+ /\ is_CONST ohter = F
+;
+
+let get_const (W_CONST sz v) = sz, (to_unsigned sz v)
+ /\ get_const (W_NAMED_CONST name sz v) = sz, (to_unsigned sz v)
+ /\ get_const other = error "Should not happen!"
+;
 
 let perform_binary constr e1 e2 =
-    val (W_CONST sz1 v1) = e1 in
-    val (W_CONST sz2 v2) = e2 in
+    val (sz1,v1) = get_const e1 in
+    val (sz2,v2) = get_const e2 in
     sz1 != sz2 => eprintf "Size mismatch in perform_binary (%d!=%d)" sz1 sz2 |
     let sz = sz1 in
+    let mk v = W_CONST sz (to_unsigned sz v) in
     let  do (W_EQ  e1 e2)  = W_CONST 1 ((v1 = v2) => 1 | 0)
       /\ do (W_GR  e1 e2)  = W_CONST 1 (v1 > v2 => 1 | 0)
-      /\ do (W_AND  e1 e2) = W_CONST sz (v1 intAND v2)
-      /\ do (W_OR  e1 e2)  = W_CONST sz (v1 intOR v2)
-      /\ do (W_ADD e1 e2)  = W_CONST sz (v1 + v2)
-      /\ do (W_SUB e1 e2)  = W_CONST sz (v1 - v2)
-      /\ do (W_MUL e1 e2)  = W_CONST sz (v1 * v2)
-      /\ do (W_DIV e1 e2)  = W_CONST sz (v1 / v2)
-      /\ do (W_MOD e1 e2)  = W_CONST sz (v1 % v2)
-      /\ do (W_SHL e1 e2)  = W_CONST sz ((v1 * (2**v2)) intAND (2 ** sz-1))
+      /\ do (W_AND  e1 e2) = mk (v1 intAND v2)
+      /\ do (W_OR  e1 e2)  = mk (v1 intOR v2)
+      /\ do (W_ADD e1 e2)  = mk (v1 + v2)
+      /\ do (W_SUB e1 e2)  = mk (v1 - v2)
+      /\ do (W_MUL e1 e2)  = mk (v1 * v2)
+      /\ do (W_DIV e1 e2)  = v2 == 0 => constr e1 e2 | mk (v1 / v2)
+      /\ do (W_MOD e1 e2)  = v2 == 0 => constr e1 e2 | mk (v1 % v2)
+      /\ do (W_SHL e1 e2)  = W_CONST sz (do_shl sz v1 v2)
       /\ do (W_SHR e1 e2)  = W_CONST sz (do_shr sz v1 v2)
-      /\ do (W_ASHR e1 e2) = W_CONST sz (do_ashr v1 v2)
+      /\ do (W_ASHR e1 e2) = W_CONST sz (do_ashr sz v1 v2)
       /\ do (W_LAT_LEQ e1 e2) = W_CONST 1 (v1 = v2 => 1 | 0)
     in
     do (constr e1 e2)
 ;
 
-let is_CONST (W_CONST sz v) = T
- /\ is_CONST (W_NAMED_CONST name sz v) = T
- /\ is_CONST ohter = F
-;
-
-let get_const (W_CONST sz v) = sz,v
- /\ get_const (W_NAMED_CONST name sz v) = sz,v
- /\ get_const other = error "Should not happen!"
-;
-
 let const_eq a b =
     is_CONST a AND is_CONST b =>
 	val (asz,av) = get_const a in
@@ -445,7 +457,7 @@ letrec const_prop e assuming (is_binary e) =
 	let c = const_prop e then
 	is_CONST c =>
 	    val (osz,v) = get_const c then
-	    (W_CONST sz v)
+	    (W_CONST sz (to_signed osz v))
 	|
 	W_SX sz c
  /\    const_prop (W_ZX sz e) =
@@ -453,7 +465,7 @@ letrec const_prop e assuming (is_binary e) =
 	is_CONST c =>
 	    val (osz,v) = get_const c then
 	    sz < osz => eprintf "ZX requires truncation! (%d>%d)" osz sz |
-	    v >= 0 => W_CONST sz v | W_CONST sz (2**osz+v)
+	    W_CONST sz v
 	|
 	W_ZX sz c
  /\    const_prop (W_ITE c t e) =
@@ -517,7 +529,8 @@ letrec const_prop e assuming (is_binary e) =
  /\    const_prop (W_CAT parts) =
 	let cparts = map const_prop parts then
 	letrec merge ((W_CONST sz1 v1):(W_CONST sz2 v2):rem) =
-	    let r = W_CONST (sz1+sz2) (v1*(2**sz2)+v2) then
+	    let v2' = to_unsigned sz2 v2 then
+	    let r = W_CONST (sz1+sz2) (v1*(2**sz2)+v2') then
 	    merge (r:rem)
 	 /\    merge (r:rem) = r:(merge rem)
 	 /\    merge [] = []
-- 
2.43.0


From 47699f78e3ecf469c12d33fcd6f6b71bf9ba59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:33 +0000
Subject: [PATCH 30/33] fix: asynchronous set/reset of HFL flip-flops and state
 machines must be remembered

---
 IDVII/src/fl/design/hfl.fl | 50 ++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/IDVII/src/fl/design/hfl.fl b/IDVII/src/fl/design/hfl.fl
index c999518..3a7a01f 100644
--- a/IDVII/src/fl/design/hfl.fl
+++ b/IDVII/src/fl/design/hfl.fl
@@ -2639,6 +2639,21 @@ let base_re_ff =
 	MUX TmP_en TmP_d_o TmP_q_o q
 ];
 
+// The storage part of a flip-flop with an asynchronous set/reset. Between clock
+// edges it keeps the (already set/reset) output value 'old'.
+let base_re_ff_async =
+    input d old.
+    bit_input clk.
+    output q.
+    internal TmP_d_o TmP_clk_o TmP_q_o TmP_en.
+    CELL "draw_hier re_ff_async" [
+	TmP_d_o <: d,
+	TmP_q_o <: old,
+	TmP_clk_o <: clk,
+	TmP_en <- '~'TmP_clk_o '&' clk,
+	MUX TmP_en TmP_d_o TmP_q_o q
+];
+
 let base_re_ff_en =
     input	d.
     bit_input	en.
@@ -2658,7 +2673,7 @@ let base_re_ff_reset =
     internal	mid cur.
     CELL "draw_ff_re_reset" [
 	MUX reset '0 d mid,
-	base_re_ff mid clk cur,
+	base_re_ff_async mid q clk cur,
 	MUX reset '0 cur q
 ];
 
@@ -2670,7 +2685,7 @@ let base_re_ff_set =
     internal	mid cur.
     CELL "draw_ff_re_set" [
 	MUX set '1 d mid,
-	base_re_ff mid clk cur,
+	base_re_ff_async mid q clk cur,
 	MUX set '1 cur q
 ];
 
@@ -2695,7 +2710,7 @@ let base_re_ff_en_reset =
     CELL "draw_ff_re_with_en_reset" [
 	MUX en d q tmp,
 	MUX reset '0 tmp mid,
-	base_re_ff mid clk cur,
+	base_re_ff_async mid q clk cur,
 	MUX reset '0 cur q
 ];
 
@@ -2722,7 +2737,7 @@ let base_re_ff_en_reset_with_value reset_value =
     CELL "draw_ff_re_with_en_reset" [
 	MUX en d q tmp,
 	MUX reset reset_value tmp mid,
-	base_re_ff mid clk cur,
+	base_re_ff_async mid q clk cur,
 	MUX reset reset_value cur q
 ];
 
@@ -2782,6 +2797,16 @@ let base_fe_ff =
 	nclk <- '~' clk
 ];
 
+let base_fe_ff_async =
+    input d old.
+    bit_input clk.
+    output q.
+    bit_internal nclk.
+    CELL "draw_hier fe_ff_async" [
+	base_re_ff_async d old nclk q,
+	nclk <- '~' clk
+];
+
 let base_fe_ff_en =
     input	d.
     bit_input	en.
@@ -2801,7 +2826,7 @@ let base_fe_ff_reset =
     internal	mid cur.
     CELL "draw_ff_fe_reset" [
 	MUX reset '0 d mid,
-	base_fe_ff mid clk cur,
+	base_fe_ff_async mid q clk cur,
 	MUX reset '0 cur q
 ];
 
@@ -2815,7 +2840,7 @@ let base_fe_ff_en_reset =
     CELL "draw_ff_fe_with_en_reset" [
 	MUX en d q tmp,
 	MUX reset '0 tmp mid,
-	base_fe_ff mid clk cur,
+	base_fe_ff_async mid q clk cur,
 	MUX reset '0 cur q
 ];
 
@@ -3136,9 +3161,6 @@ let Moore_FSM name clk state reset_condition transitions =
     let b_nstate = "_new_"^b_state then
     let w_nstate = W_VAR ssz b_nstate then
     let n_nstate = mk_name ssz b_nstate then
-    let b_istate = "_intermediate_"^b_state then
-    let w_istate = W_VAR ssz b_istate then
-    let n_istate = mk_name ssz b_istate then
     let s_clk = hd (w_depends (hw_bit_destr clk)) then
     let w_reset = hw_bit_destr reset then
     let reset_name = hd (w_depends w_reset) then
@@ -3149,17 +3171,15 @@ let Moore_FSM name clk state reset_condition transitions =
 		  [(reset_name, [reset_name]), (s_clk, [s_clk])]
     then
     let fa_outs = [(n_state, [n_state])] then
-    let ints = [n_nstate, n_istate] then
+    let ints = [n_nstate] then
     let ssz = hw_size state then
     let part_trans = partition fst wtransitions then
     let w_new_state = W_ITE w_reset wS0 (build_cond w_state part_trans) then
     let comb = {(hw_constr w_nstate):: *a} <- (hw_constr w_new_state) then
-    let w_final_state = W_ITE w_reset wS0 w_istate then
-    let comb2 = state <- {(hw_constr w_final_state):: *a} then
     let body = P_HIER [
-	re_ff clk {(hw_constr w_nstate):: *a} {(hw_constr w_istate):: *a},
-	comb,
-	comb2
+	re_ff_en_reset_with_value S0 clk {'1::bit} reset
+	    {(hw_constr w_nstate):: *a} state,
+	comb
     ] then
     let base_inps = map (\(f,a). hd (str_split f "[")) fa_inps then
     val (code,states,edges) = draw_fsm reset S0 transitions base_inps then
-- 
2.43.0


From 3007bb71f9c3487b2a7e518526a7af4744fdfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:34 +0000
Subject: [PATCH 31/33] fix: keep the internal state register of HFL state
 machines by its name

Follow-up to 'asynchronous set/reset ... must be remembered': the node
_intermediate_<state> remains the register of a Moore_FSM.
---
 IDVII/src/fl/design/hfl.fl | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/IDVII/src/fl/design/hfl.fl b/IDVII/src/fl/design/hfl.fl
index 3a7a01f..022a5c1 100644
--- a/IDVII/src/fl/design/hfl.fl
+++ b/IDVII/src/fl/design/hfl.fl
@@ -3161,6 +3161,9 @@ let Moore_FSM name clk state reset_condition transitions =
     let b_nstate = "_new_"^b_state then
     let w_nstate = W_VAR ssz b_nstate then
     let n_nstate = mk_name ssz b_nstate then
+    let b_istate = "_intermediate_"^b_state then
+    let w_istate = W_VAR ssz b_istate then
+    let n_istate = mk_name ssz b_istate then
     let s_clk = hd (w_depends (hw_bit_destr clk)) then
     let w_reset = hw_bit_destr reset then
     let reset_name = hd (w_depends w_reset) then
@@ -3171,15 +3174,17 @@ let Moore_FSM name clk state reset_condition transitions =
 		  [(reset_name, [reset_name]), (s_clk, [s_clk])]
     then
     let fa_outs = [(n_state, [n_state])] then
-    let ints = [n_nstate] then
+    let ints = [n_nstate, n_istate] then
     let ssz = hw_size state then
     let part_trans = partition fst wtransitions then
     let w_new_state = W_ITE w_reset wS0 (build_cond w_state part_trans) then
     let comb = {(hw_constr w_nstate):: *a} <- (hw_constr w_new_state) then
+    let comb2 = state <- {(hw_constr w_istate):: *a} then
     let body = P_HIER [
 	re_ff_en_reset_with_value S0 clk {'1::bit} reset
-	    {(hw_constr w_nstate):: *a} state,
-	comb
+	    {(hw_constr w_nstate):: *a} {(hw_constr w_istate):: *a},
+	comb,
+	comb2
     ] then
     let base_inps = map (\(f,a). hd (str_split f "[")) fa_inps then
     val (code,states,edges) = draw_fsm reset S0 transitions base_inps then
-- 
2.43.0


From 3e8e35a56457a033c4abb82217f26b9017fccbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:46 +0000
Subject: [PATCH 32/33] fix: Verilog import: logical and/or of vectors, right
 shifts with operands of different sizes

$logic_and and $logic_or have a one bit result whatever the size of their
operands; $shr, $sshr and $shiftx have three independent sizes while
W_SHR/W_ASHR need equal ones.
---
 IDVII/src/fl/design/yosys_lib.fl | 45 +++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index a4cba71..691b04f 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -191,6 +191,15 @@ let _neg sz src out inp =
     PINST "draw_unary_arithm {-}" attrs T fa_inps fa_outs ints leaf
 ;
 
+// The shift operations need operands and result of the same size.
+let shift_in_common_size op ext o_sz a_sz b_sz A B =
+    let sz = max o_sz (max a_sz b_sz) in
+    let A' = a_sz = sz => A | ext sz A in
+    let B' = b_sz = sz => B | W_ZX sz B in
+    let res = op A' B' in
+    o_sz = sz => res | W_SLICE ((o_sz-1)--0) res
+;
+
 let _shr  o_sz a_sz b_sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
     let f_out = mk_name o_sz "Y" in
@@ -202,7 +211,7 @@ let _shr  o_sz a_sz b_sz src out inp1 inp2 =
     let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
     let fa_outs = [(f_out, out)] in
     let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_SHR A B)] in
+    let leaf = P_LEAF [W_UPDATE_FN Y (shift_in_common_size W_SHR W_ZX o_sz a_sz b_sz A B)] in
     PINST "draw_rtl {>>}" attrs T fa_inps fa_outs ints leaf
 ;
 
@@ -217,10 +226,24 @@ let _ashr  o_sz a_sz b_sz src out inp1 inp2 =
     let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
     let fa_outs = [(f_out, out)] in
     let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (W_ASHR A B)] in
+    let leaf = P_LEAF [W_UPDATE_FN Y (shift_in_common_size W_ASHR W_SX o_sz a_sz b_sz A B)] in
     PINST "draw_rtl {|>>}" attrs T fa_inps fa_outs ints leaf
 ;
 
+let mk_cmp op name attrs sz out inp1 inp2 =
+    let f_out = mk_name 1 "Y" in
+    let Y = W_VAR 1 "Y" in
+    let f_inp1 = mk_name sz "A" in
+    let A = W_VAR sz "A" in
+    let f_inp2 = mk_name sz "B" in
+    let B = W_VAR sz "B" in
+    let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
+    let fa_outs = [(f_out, out)] in
+    let ints = [] in
+    let leaf = P_LEAF [W_UPDATE_FN Y (op A B)] in
+    PINST name attrs T fa_inps fa_outs ints leaf
+;
+
 let _land sz src out inp1 inp2 =
     let attrs = mk_attr src __FILE__ __LINE__ then
     let op A B = 
@@ -228,7 +251,7 @@ let _land sz src out inp1 inp2 =
 	let B_T = W_NOT (W_EQ B (W_CONST sz 0)) in
 	W_AND A_T B_T
     in
-    mk_rtl op "draw_and2" attrs sz out inp1 inp2
+    mk_cmp op "draw_and2" attrs sz out inp1 inp2
 ;
 
 let _lor sz src out inp1 inp2 =
@@ -238,21 +261,7 @@ let _lor sz src out inp1 inp2 =
 	let B_T = W_NOT (W_EQ B (W_CONST sz 0)) in
 	W_OR A_T B_T
     in
-    mk_rtl op "draw_or2" attrs sz out inp1 inp2
-;
-
-let mk_cmp op name attrs sz out inp1 inp2 =
-    let f_out = mk_name 1 "Y" in
-    let Y = W_VAR 1 "Y" in
-    let f_inp1 = mk_name sz "A" in
-    let A = W_VAR sz "A" in
-    let f_inp2 = mk_name sz "B" in
-    let B = W_VAR sz "B" in
-    let fa_inps = [(f_inp1, inp1), (f_inp2, inp2)] in
-    let fa_outs = [(f_out, out)] in
-    let ints = [] in
-    let leaf = P_LEAF [W_UPDATE_FN Y (op A B)] in
-    PINST name attrs T fa_inps fa_outs ints leaf
+    mk_cmp op "draw_or2" attrs sz out inp1 inp2
 ;
 
 let _eqx sz src =
-- 
2.43.0


From 3b97640579e5c3577e179e997431a851b05c2c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:36 +0000
Subject: [PATCH 33/33] fix: Verilog import: asynchronous set, clear, reset and
 load are levels

The set/clear of $dffsr and $dffsre acted only when they changed. The reset of
$adlatch acted only while the latch was enabled (and its output was not
connected). $aldff ignored the polarities of clock and load and forgot a loaded
value.
---
 IDVII/src/fl/design/make_generic_pexlifs.fl | 25 ++++++++++++---------
 IDVII/src/fl/design/yosys_lib.fl            | 20 +++++------------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/IDVII/src/fl/design/make_generic_pexlifs.fl b/IDVII/src/fl/design/make_generic_pexlifs.fl
index 468abcd..2c44ebb 100644
--- a/IDVII/src/fl/design/make_generic_pexlifs.fl
+++ b/IDVII/src/fl/design/make_generic_pexlifs.fl
@@ -21,23 +21,24 @@ let base_adlatch p_en p_arst =
     input           {reset_value:: wexpr}.
     input           {d:: wexpr}.
     output          {out:: wexpr}.
-    bit_internal    en.
+    bit_internal    en rst.
     internal        {mid:: wexpr}.
-    CELL "_WrApPeR_" [
+    CELL "draw_hier adlatch" [
         ah_latch en mid out,
-        en  <- (p_en => clk | '~' clk),
-        mid <- (IF (p_arst => arst | '~' arst) THEN reset_value ELSE d)
+        rst <- (p_arst => arst | '~' arst),
+        en  <- (p_en => clk | '~' clk) '|' rst,
+        mid <- (IF rst THEN reset_value ELSE d)
 ];
 
 let adlatch p_en p_arst =
     bit_input       clk.
     bit_input       arst.
     input           {d:: wexpr}.
-    output          {out:: wexpr}.
+    output          {q:: wexpr}.
     internal	    {reset_value :: wexpr}.
     CELL (sprintf "draw_adlatch %s %s" (p_en=>"1"|"0") (p_arst=>"1"|"0")) [
 	reset_value <- (W_CONST 0 0),
-	base_adlatch p_en p_arst clk arst reset_value d out
+	base_adlatch p_en p_arst clk arst reset_value d q
 ];
 
 
@@ -52,11 +53,15 @@ let aldff p_clk p_aload =
     input	    {d :: *a}.
     bit_input	    clk.
     output	    {q :: *a}.
-    internal	    {md:: *a} {fq:: *a}.
+    internal	    {od:: *a} {oq:: *a} {fq:: *a}.
+    bit_internal    oclk edge.
     CELL (sprintf "draw_aldff %s %s" (p_clk=>"1"|"0") (p_aload=>"1"|"0")) [
-	md <- (IF aload THEN ad ELSE d),
-	re_ff clk md fq,
-	q <- (IF aload THEN ad ELSE fq)
+	od <: d,
+	oq <: q,
+	oclk <: clk,
+	edge <- (p_clk => '~' oclk '&' clk | oclk '&' '~' clk),
+	fq <- (IF edge THEN od ELSE oq),
+	q <- (IF (p_aload => aload | '~' aload) THEN ad ELSE fq)
 ];
 
 
diff --git a/IDVII/src/fl/design/yosys_lib.fl b/IDVII/src/fl/design/yosys_lib.fl
index 691b04f..ee1e491 100644
--- a/IDVII/src/fl/design/yosys_lib.fl
+++ b/IDVII/src/fl/design/yosys_lib.fl
@@ -1507,26 +1507,22 @@ let _dffsre p_clk p_set p_clr p_en sz src q clr set en clk d =
     let dEN	  = mk_int_signal ints_r 1 "EN_##_" then
     let dCLK	  = mk_int_signal ints_r 1 "CLK_##_" then
     let dD	  = mk_int_signal ints_r sz "D_##_" then
-    let dCLR	  = mk_int_signal ints_r sz "CLR_##_" then
-    let dSET	  = mk_int_signal ints_r sz "SET_##_" then
     let clk_del	  = W_PHASE_DELAY dCLK CLK then
     let en_del	  = W_PHASE_DELAY dEN EN then
     let d_del	  = W_PHASE_DELAY dD D then
     let q_del	  = W_PHASE_DELAY dQ Q then
-    let clr_del   = W_PHASE_DELAY dCLR CLR then
-    let set_del   = W_PHASE_DELAY dSET SET then
     let ZERO	  = W_CONST sz 0 then
     let ONE	  = W_CONST sz (2**sz-1) then
     let clk_cond  = p_clk=> W_AND (W_NOT dCLK) CLK | W_AND dCLK (W_NOT CLK) then
     let en_cond   = p_en => dEN | W_NOT dEN then
-    let clr_cond  = p_clr=> W_AND (W_NOT dCLR) CLR | W_AND dCLR (W_NOT CLR) then
-    let set_cond  = p_set=> W_AND (W_NOT dSET) SET | W_AND dSET (W_NOT SET) then
+    let clr_cond  = p_clr => CLR | W_NOT CLR then
+    let set_cond  = p_set => SET | W_NOT SET then
     let mux	  = W_UPDATE_FN Q
 			(W_AND (W_NOT clr_cond)
 			       (W_OR set_cond 
 				    (W_ITE (W_AND en_cond clk_cond) dD dQ)))
     then 
-    let subs	  = P_LEAF [clk_del,d_del,en_del,q_del,clr_del,set_del,mux] then
+    let subs	  = P_LEAF [clk_del,d_del,en_del,q_del,mux] then
     let pfn = sprintf "draw_dffsre %s %s %s %s"
 		      (p_clk  => "1" | "0")
 		      (p_clr => "1" | "0")
@@ -1550,24 +1546,20 @@ let _dffsr p_clk p_set p_clr sz src q clr set clk d =
     let dQ	  = mk_int_signal ints_r sz "Q_##_" then
     let dCLK	  = mk_int_signal ints_r 1 "CLK_##_" then
     let dD	  = mk_int_signal ints_r sz "D_##_" then
-    let dCLR	  = mk_int_signal ints_r sz "CLR_##_" then
-    let dSET	  = mk_int_signal ints_r sz "SET_##_" then
     let clk_del	  = W_PHASE_DELAY dCLK CLK then
     let d_del	  = W_PHASE_DELAY dD D then
     let q_del	  = W_PHASE_DELAY dQ Q then
-    let clr_del   = W_PHASE_DELAY dCLR CLR then
-    let set_del   = W_PHASE_DELAY dSET SET then
     let ZERO	  = W_CONST sz 0 then
     let ONE	  = W_CONST sz (2**sz-1) then
     let clk_cond  = p_clk=> W_AND (W_NOT dCLK) CLK | W_AND dCLK (W_NOT CLK) then
-    let clr_cond  = p_clr=> W_AND (W_NOT dCLR) CLR | W_AND dCLR (W_NOT CLR) then
-    let set_cond  = p_set=> W_AND (W_NOT dSET) SET | W_AND dSET (W_NOT SET) then
+    let clr_cond  = p_clr => CLR | W_NOT CLR then
+    let set_cond  = p_set => SET | W_NOT SET then
     let mux	  = W_UPDATE_FN Q
 			(W_AND (W_NOT clr_cond)
 			       (W_OR set_cond 
 				    (W_ITE clk_cond dD dQ)))
     then 
-    let subs	  = P_LEAF [clk_del,d_del,q_del,clr_del,set_del,mux] then
+    let subs	  = P_LEAF [clk_del,d_del,q_del,mux] then
     let pfn = sprintf "draw_dffsr %s %s %s"
 		      (p_clk  => "1" | "0")
 		      (p_clr => "1" | "0")
-- 
2.43.0

