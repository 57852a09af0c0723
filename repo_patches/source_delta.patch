From 7d28549b0bf97a38e2c14dcf492e14494c9e3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 01/44] fix: do not share GC-invocation code between functions
 with different root sets

sameCallingConvention compared root lists with ListPair.all, which ignores the
tail of the longer list, so a function with live floating-point values could
share the GC code of one with fewer of them and lose the values in a collection.
---
 base/compiler/CodeGen/cpscompile/invokegc.sml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/compiler/CodeGen/cpscompile/invokegc.sml b/base/compiler/CodeGen/cpscompile/invokegc.sml
index 699a7a6..abc979b 100644
--- a/base/compiler/CodeGen/cpscompile/invokegc.sml
+++ b/base/compiler/CodeGen/cpscompile/invokegc.sml
@@ -712,10 +712,10 @@ functor InvokeGC (
 	    | eqF (T.FLOAD(_,ea1,_), T.FLOAD(_,ea2,_)) = eqEA(ea1, ea2)
 	    | eqF _ = false
 	  in
-	    ListPair.all eqR (b1, b2)
+	    ListPair.allEq eqR (b1, b2)
 	      andalso eqR(ret1, ret2)
-	      andalso ListPair.all eqR (i1, i2)
-	      andalso ListPair.all eqF (f1, f2)
+	      andalso ListPair.allEq eqR (i1, i2)
+	      andalso ListPair.allEq eqF (f1, f2)
 	  end
       | sameCallingConvention _ = false
 
-- 
2.43.0


From d2fd89443b9984fdbeaa1c8395ca79531223f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:47 +0000
Subject: [PATCH 02/44] fix: build string lists first in database lookups

ML_CStringList may collect garbage (for lists of more than 8K bytes), so values
allocated before it, which are not roots, were left dangling.
---
 base/runtime/c-libs/posix-sysdb/getgrgid.c         | 3 ++-
 base/runtime/c-libs/posix-sysdb/getgrnam.c         | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbyname.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbynum.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getrpcbyname.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getrpcbynum.c    | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkhostent.c | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mknetent.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkservent.c | 3 ++-
 9 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/base/runtime/c-libs/posix-sysdb/getgrgid.c b/base/runtime/c-libs/posix-sysdb/getgrgid.c
index 6eaa30f..8bc5ae3 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrgid.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrgid.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrgid (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* NOTE: ML_CStringList may do a GC, so it comes first */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (SysWord_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/posix-sysdb/getgrnam.c b/base/runtime/c-libs/posix-sysdb/getgrnam.c
index 22a35bc..62e5abd 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrnam.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrnam.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrnam (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* NOTE: ML_CStringList may do a GC, so it comes first */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (Word_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
index 60696b8..b4e1932 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbyname (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
index 98dff50..f45d125 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbynum (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c b/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
index 41710ed..cfc3102 100644
--- a/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
@@ -28,8 +28,9 @@ ml_val_t _ml_NetDB_getrpcbyname (ml_state_t *msp, ml_val_t arg)
     if (rentry == NIL(struct rpcent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, rentry->r_name);
+      /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList (msp, rentry->r_aliases);
+	name = ML_CString (msp, rentry->r_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(rentry->r_number));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c b/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
index f48c4bc..6d55655 100644
--- a/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
@@ -31,8 +31,9 @@ ml_val_t _ml_NetDB_getrpcbynum (ml_state_t *msp, ml_val_t arg)
     if (rentry == NIL(struct rpcent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, rentry->r_name);
+      /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList (msp, rentry->r_aliases);
+	name = ML_CString (msp, rentry->r_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(rentry->r_number));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
index 4fab8f0..6481383 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
@@ -29,8 +29,9 @@ ml_val_t _util_NetDB_mkhostent (ml_state_t *msp, struct hostent *hentry)
 	ml_val_t	name, aliases, af, addr, addrs, res;
 	int		nAddrs, i;
 
-	name = ML_CString(msp, hentry->h_name);
+      /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList(msp, hentry->h_aliases);
+	name = ML_CString(msp, hentry->h_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	for (nAddrs = 0;  hentry->h_addr_list[nAddrs] != NIL(char *);  nAddrs++)
 	    continue;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
index 18f0d5a..abfc9a3 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
@@ -25,8 +25,9 @@ ml_val_t _util_NetDB_mknetent (ml_state_t *msp, struct netent *nentry)
       /* build the return result */
 	ml_val_t	name, aliases, af, net, res;
 
-	name = ML_CString(msp, nentry->n_name);
+      /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList(msp, nentry->n_aliases);
+	name = ML_CString(msp, nentry->n_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, nentry->n_addrtype);
 	WORD_ALLOC(msp, net, (Word_t)(nentry->n_net));
 	REC_ALLOC4 (msp, res, name, aliases, af, net);
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
index 1a659e5..dc9f94a 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
@@ -26,8 +26,9 @@ ml_val_t _util_NetDB_mkservent (ml_state_t *msp, struct servent *sentry)
       /* build the return result */
 	ml_val_t	name, aliases, port, proto, res;
 
-	name = ML_CString(msp, sentry->s_name);
+      /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList(msp, sentry->s_aliases);
+	name = ML_CString(msp, sentry->s_name);
 	port = INT_CtoML(ntohs(sentry->s_port));
 	proto = ML_CString(msp, sentry->s_proto);
 	REC_ALLOC4 (msp, res, name, aliases, port, proto);
-- 
2.43.0


From cb98afa6177d63df3964f48572df5c5c377557ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:43 +0000
Subject: [PATCH 03/44] fix: reserve space for each string of a string list

ML_CStringList did not count the strings' header objects, did not provide for
lists that exceed the allocation area, and did not preserve the list across a
collection caused by a large string; the allocation area could overflow.
---
 base/runtime/gc/ml-objects.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 806c785..865a741 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -77,28 +77,33 @@ ml_val_t ML_CString (ml_state_t *msp, const char *v)
  */
 ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
 {
-    int         i, j;
+    int         i;
     ml_val_t    p, s;
-    Word_t      nbytes;
 
     for (i = 0;  strs[i] != NIL(char *);  i++)
         continue;
 
-    /* Make sure we have enough space to allocate the list */
-    nbytes = i * (3 * WORD_SZB);
-    for (j = 0;  j < i;  j++) {
-        size_t len = strlen(strs[j]);
-        Word_t nwords = BYTES_TO_WORDS(len + 1);
-        if (len > 0 && nwords <= SMALL_OBJ_SZW) {
-            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
-        }
-    }
-    if (NeedGC (msp, nbytes)) {
-        InvokeGC (msp, 0);
-    }
-
     p = LIST_nil;
     while (i-- > 0) {
+        Word_t nwords = BYTES_TO_WORDS(strlen(strs[i]) + 1);
+        Word_t szb = WORD_SZB * (nwords + 1);  /* +1 for the descriptor word */
+        Word_t nbytes = 2 * (3 * WORD_SZB);    /* sequence header and cons cell */
+
+      /* make sure that there is space for the string and its list cell; we need
+       * to preserve the tail of the list when it requires a GC.
+       */
+        if (nwords <= SMALL_OBJ_SZW)
+            nbytes += szb;
+        if (NeedGC (msp, nbytes))
+            InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+        if (nwords > SMALL_OBJ_SZW) {
+            arena_t *ap = msp->ml_heap->gen[0]->arena[STRING_INDX];
+            IFGC (ap, szb+msp->ml_heap->allocSzB) {
+                ap->reqSizeB += szb;
+                InvokeGCWithRoots (msp, 1, &p, NIL(ml_val_t *));
+                ap->reqSizeB = 0;
+            }
+        }
         s = ML_CString(msp, strs[i]);
         LIST_cons(msp, p, s, p);
     }
-- 
2.43.0


From 652b208fb518a368218548a78f43e1cf6fce09db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:40 +0000
Subject: [PATCH 04/44] fix: signals that are pending or raised by the
 collector while masked or disabled no longer kill the process

---
 base/runtime/include/ml-signals.h   |  2 ++
 base/runtime/include/vproc-state.h  |  3 ++
 base/runtime/kernel/ml-state.c      |  2 ++
 base/runtime/mach-dep/signal-util.c | 53 +++++++++++++++++++++++++++++
 base/runtime/mach-dep/unix-signal.c | 25 +++++++++++---
 5 files changed, 81 insertions(+), 4 deletions(-)

diff --git a/base/runtime/include/ml-signals.h b/base/runtime/include/ml-signals.h
index fcbbe75..88e617a 100644
--- a/base/runtime/include/ml-signals.h
+++ b/base/runtime/include/ml-signals.h
@@ -26,6 +26,8 @@ typedef struct {		/* counters for pending signals; we keep two counters */
 
 /** Utility functions **/
 extern void GCSignal (vproc_state_t *vsp, int nGen);
+extern void HoldSignal (vproc_state_t *vsp, int sig, bool_t masked);
+extern void DiscardSignal (vproc_state_t *vsp, int sig);
 extern void ChooseSignal (vproc_state_t *vsp);
 extern ml_val_t MakeResumeCont (ml_state_t *msp, ml_val_t resume[]);
 extern ml_val_t MakeHandlerArg (ml_state_t *msp, ml_val_t resume[]);
diff --git a/base/runtime/include/vproc-state.h b/base/runtime/include/vproc-state.h
index 218eb02..e696341 100644
--- a/base/runtime/include/vproc-state.h
+++ b/base/runtime/include/vproc-state.h
@@ -57,6 +57,9 @@ struct vproc_state {
 				    /* the last GC (see kernel/timers.c). */
     Time_t	*vp_gcTime;	    /* The cumulative GC time. */
     Addr_t	vp_limitPtrMask;   /* for raw-C-call interface */
+    int		vp_gcSigMasked;	    /* true, if the GC signal is masked */
+    int		vp_heldSigs[SIGMAP_SZ]; /* counts of signals that were received, but */
+				    /* not handled, when they were masked */
 #ifdef MP_SUPPORT
     mp_pid_t	vp_mpSelf;	    /* the owning process's ID */
     vproc_status_t vp_mpState;	    /* proc state (see ml-mp.h) */
diff --git a/base/runtime/kernel/ml-state.c b/base/runtime/kernel/ml-state.c
index be52d0e..4498368 100644
--- a/base/runtime/kernel/ml-state.c
+++ b/base/runtime/kernel/ml-state.c
@@ -116,6 +116,7 @@ PVT void InitVProcState (vproc_state_t *vsp)
     vsp->vp_sigCount			= 0;
     vsp->vp_nextPendingSig		= MIN_SYSTEM_SIG;
     vsp->vp_gcSigState			= ML_SIG_IGNORE;
+    vsp->vp_gcSigMasked			= FALSE;
     vsp->vp_gcSigThreshold              = 1;  /* by default, we ignore minor collections */
     vsp->vp_gcTime0			= NEW_OBJ(Time_t);
     vsp->vp_gcTime			= NEW_OBJ(Time_t);
@@ -123,6 +124,7 @@ PVT void InitVProcState (vproc_state_t *vsp)
     for (i = 0;  i < SIGMAP_SZ;  i++) {
 	vsp->vp_sigCounts[i].nReceived = 0;
 	vsp->vp_sigCounts[i].nHandled = 0;
+	vsp->vp_heldSigs[i] = 0;
     }
 
   /* initialize the ML state, including the roots */
diff --git a/base/runtime/mach-dep/signal-util.c b/base/runtime/mach-dep/signal-util.c
index 8c9f7f4..3f02767 100644
--- a/base/runtime/mach-dep/signal-util.c
+++ b/base/runtime/mach-dep/signal-util.c
@@ -35,6 +35,12 @@ void GCSignal (vproc_state_t *vsp, int nGen)
         return;
     }
 
+    if (vsp->vp_gcSigMasked) {
+      /* deliver the signal when it is unmasked */
+        vsp->vp_heldSigs[RUNSIG_GC]++;
+        return;
+    }
+
     vsp->vp_sigCounts[RUNSIG_GC].nReceived++;
     vsp->vp_totalSigCount.nReceived++;
 
@@ -45,6 +51,53 @@ void GCSignal (vproc_state_t *vsp, int nGen)
 } /* end of GCSignal */
 
 
+/* CheckPending:
+ *
+ * Clear the pending flag when there are no signals left that need handling (otherwise,
+ * ChooseSignal would not terminate).  Called from C code, so a signal that arrives at
+ * this point does not set the flag.
+ */
+PVT void CheckPending (vproc_state_t *vsp)
+{
+    if (vsp->vp_totalSigCount.nReceived == vsp->vp_totalSigCount.nHandled)
+	vsp->vp_handlerPending = FALSE;
+
+} /* end of CheckPending */
+
+
+/* HoldSignal:
+ *
+ * The given signal is (still) masked if masked is true and unmasked otherwise; set aside
+ * its unhandled arrivals in the former case and make them pending in the latter.  Only
+ * the nHandled fields are changed, since nReceived is changed by the C signal handler.
+ */
+void HoldSignal (vproc_state_t *vsp, int sig, bool_t masked)
+{
+    sig_count_t	*cnt = &(vsp->vp_sigCounts[sig]);
+    int		delta = masked
+		    ? (int)(cnt->nReceived - cnt->nHandled)
+		    : -(vsp->vp_heldSigs[sig]);
+
+    vsp->vp_heldSigs[sig] += delta;
+    cnt->nHandled += delta;
+    vsp->vp_totalSigCount.nHandled += delta;
+    CheckPending (vsp);
+
+} /* end of HoldSignal */
+
+
+/* DiscardSignal:
+ *
+ * Forget about the unhandled arrivals of the given signal, which is no longer enabled.
+ */
+void DiscardSignal (vproc_state_t *vsp, int sig)
+{
+    HoldSignal (vsp, sig, TRUE);
+    vsp->vp_heldSigs[sig] = 0;
+
+} /* end of DiscardSignal */
+
+
 /* ChooseSignal:
  *
  * Choose which signal to pass to the ML handler and setup the ML state
diff --git a/base/runtime/mach-dep/unix-signal.c b/base/runtime/mach-dep/unix-signal.c
index 9607f5a..29d883c 100644
--- a/base/runtime/mach-dep/unix-signal.c
+++ b/base/runtime/mach-dep/unix-signal.c
@@ -68,9 +68,9 @@ void PauseUntilSignal (vproc_state_t *vsp)
  */
 void SetSignalState (vproc_state_t *vsp, int sigNum, int sigState)
 {
-/* QUESTIONS:
- * If we disable a signal that has pending signals, should the pending
- * signals be discarded?
+/* If we disable a signal that has pending signals, then the pending signals are
+ * discarded (there is no ML handler to pass them to).
+ * QUESTION:
  * How do we keep track of the state of non-UNIX signals (e.g., GC).
  */
     switch (sigNum) {
@@ -97,6 +97,9 @@ void SetSignalState (vproc_state_t *vsp, int sigNum, int sigState)
 	else Die ("SetSignalState: unknown signal %d\n", sigNum);
     } /* end of switch */
 
+    if (sigState != ML_SIG_ENABLED)
+	DiscardSignal (vsp, sigNum);
+
 } /* end of SetSignalState */
 
 
@@ -217,8 +220,10 @@ void SetSignalMask (ml_val_t sigList)
 {
     SigMask_t	mask;
     int		i;
+    vproc_state_t *vsp = SELF_VPROC;
 
     SIG_ClearMask(mask);
+    vsp->vp_gcSigMasked = FALSE;
 
     if (sigList != OPTION_NONE) {
 	sigList = OPTION_get(sigList);
@@ -227,12 +232,16 @@ void SetSignalMask (ml_val_t sigList)
 	    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {
 		SIG_AddToMask(mask, SigInfo[i].id);
 	    }
+	    vsp->vp_gcSigMasked = TRUE;
 	}
 	else {
 	    while (sigList != LIST_nil) {
 		ml_val_t	car = LIST_hd(sigList);
 		int		sig = REC_SELINT(car, 0);
-		SIG_AddToMask(mask, sig);
+		if (sig == RUNSIG_GC)
+		    vsp->vp_gcSigMasked = TRUE;
+		else
+		    SIG_AddToMask(mask, sig);
 		sigList = LIST_tl(sigList);
 	    }
 	}
@@ -240,6 +249,14 @@ void SetSignalMask (ml_val_t sigList)
 
     SIG_SetMask(mask);
 
+  /* set aside the signals that are pending, but masked, and make those that are
+   * no longer masked pending again.
+   */
+    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {
+	HoldSignal (vsp, SigInfo[i].id, SIG_isSet(mask, SigInfo[i].id));
+    }
+    HoldSignal (vsp, RUNSIG_GC, vsp->vp_gcSigMasked);
+
 } /* end of SetSignalMask */
 
 
-- 
2.43.0


From 3b3bc832067c9bc3d1f6aeb036f269c6cc4264bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:18 +0000
Subject: [PATCH 05/44] fix: changing the signal mask is atomic with respect to
 signal handlers

---
 .../Implementation/NJ/internal-signals.sml    | 79 ++++---------------
 1 file changed, 17 insertions(+), 62 deletions(-)

diff --git a/base/system/Basis/Implementation/NJ/internal-signals.sml b/base/system/Basis/Implementation/NJ/internal-signals.sml
index d77486e..dd92984 100644
--- a/base/system/Basis/Implementation/NJ/internal-signals.sml
+++ b/base/system/Basis/Implementation/NJ/internal-signals.sml
@@ -175,48 +175,31 @@ fun getInfo sigId = (case (Array.sub(!sigTbl, sigId))
 	  else SOME masked
   (* is the signal masked? *)
     fun isMasked (SIG(id, _)) = (#mask(getInfo id) > 0)
-    in
-    fun maskSignals mask = let
+  (* apply an update to the mask counts of the given signals and then set the OS's view
+   * of the mask to match.  All signals are masked while we are doing so, since otherwise a
+   * handler could run between the two steps and see (or even make its own changes to) an
+   * inconsistent state.
+   *)
+    fun changeMask update mask = let
 	  val sigs = sortSigs mask
+	  val _ = setSigMask (SOME[])
+	  val _ = List.app update sigs
+	  val masked = List.filter isMasked (!sigList)
+	  in
+	    setSigMask (makeMask (List.map sigToConst masked, List.length masked))
+	  end
+    in
+    val maskSignals = let
 	(* function for incrementing a signal mask. *)
 	  fun incMask (SIG(sigId, _)) = let
 		val {act, mask, signal} = getInfo sigId
 		in
 		  setInfo(sigId, {act=act, mask=mask+1, signal=signal})
 		end
-	(* scan over the sorted mask list and the list of all signals.  Record which signals are masked
-	 * and how many new signals are masked.
-	 *)
-	  fun computeNewMask ([], _, _, _, 0) =
-	      (* no signals are masked, so we only update the local state *)
-		List.app incMask sigs
-	    | computeNewMask ([], [], masked, nMasked, _) = (
-	      (* NOTE: we must update the OS's view of the mask before we change
-	       * our own to avoid a race condition!
-	       *)
-		setSigMask (makeMask (masked, nMasked));
-		List.app incMask sigs)
-	    | computeNewMask ([], s2::r2, masked, nMasked, nNew) =
-		if isMasked s2
-		  then computeNewMask ([], r2, (sigToConst s2)::masked, nMasked+1, nNew)
-		  else computeNewMask ([], r2, masked, nMasked, nNew)
-	    | computeNewMask ((s1 as SIG(id1, _))::r1, (s2 as SIG(id2, _))::r2, masked, nMasked, nNew) =
-		if (id1 = id2)
-		  then let
-		    val nNew = if (isMasked s1) then nNew else nNew+1
-		    in
-		      computeNewMask (r1, r2, (sigToConst s1)::masked, nMasked+1, nNew)
-		    end
-		  else if (isMasked s2)
-		    then computeNewMask (s1::r1, r2, (sigToConst s2)::masked, nMasked+1, nNew)
-		    else computeNewMask (s1::r1, r2, masked, nMasked, nNew)
-	    | computeNewMask (_::_, [], _, _, _) =
-	        raise Fail "computeNewMask: bogus mask (impossible)"
 	  in
-	    computeNewMask (sigs, !sigList, [], 0, 0)
+	    changeMask incMask
 	  end
-    fun unmaskSignals mask = let
-	  val sigs = sortSigs mask
+    val unmaskSignals = let
 	(* function for decrementing a signal mask. *)
 	  fun decMask (SIG(sigId, _)) = let
 		val {act, mask, signal} = getInfo sigId
@@ -225,36 +208,8 @@ fun getInfo sigId = (case (Array.sub(!sigTbl, sigId))
 		    then setInfo(sigId, {act=act, mask=mask-1, signal=signal})
 		    else ()
 		end
-	(* return true if decrementing this signal's count will unmask it. *)
-	  fun isUnmasked (SIG(id, _)) = (#mask(getInfo id) <= 1)
-	(* scan over the sorted mask list and the list of all signals.  Record which signals
-	 * are masked and how many new signals are unmasked.
-	 *)
-	  fun computeNewMask ([], _, _, _, 0) =
-	      (* no signals are unmasked, so we only update the local state *)
-		List.app decMask sigs
-	    | computeNewMask ([], [], masked, nMasked, _) = (
-	      (* NOTE: we must update are local view of the mask before we change the OS's view
-	       * to avoid a race condition!
-	       *)
-		List.app decMask sigs;
-		setSigMask (makeMask (masked, nMasked)))
-	    | computeNewMask ([], s2::r2, masked, nMasked, nNew) =
-		if isMasked s2
-		  then computeNewMask ([], r2, (sigToConst s2)::masked, nMasked+1, nNew)
-		  else computeNewMask ([], r2, masked, nMasked, nNew)
-	    | computeNewMask ((s1 as SIG(id1, _))::r1, (s2 as SIG(id2, _))::r2, masked, nMasked, nNew) =
-		if (id1 = id2)
-		  then if (isUnmasked s1)
-		    then computeNewMask (r1, r2, masked, nMasked, nNew+1)
-		    else computeNewMask (r1, r2, (sigToConst s1)::masked, nMasked+1, nNew) (* still masked *)
-		  else if (isMasked s2)
-		    then computeNewMask (s1::r1, r2, (sigToConst s2)::masked, nMasked+1, nNew)
-		    else computeNewMask (s1::r1, r2, masked, nMasked, nNew)
-	    | computeNewMask (_::_, [], _, _, _) =
-	        raise Fail "unmaskSignals: bogus mask (impossible)"
 	  in
-	    computeNewMask (sigs, !sigList, [], 0, 0)
+	    changeMask decMask
 	  end
     fun masked () = (case getSigMask()
 	   of NONE => MASK[]
-- 
2.43.0


From b34b13a7cf3b588285be41d5b08a0432fe7e5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:40 +0000
Subject: [PATCH 06/44] fix: a signal pending on return to ML code interrupts
 loops that do not allocate

---
 base/runtime/mach-dep/AMD64.prim.asm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/runtime/mach-dep/AMD64.prim.asm b/base/runtime/mach-dep/AMD64.prim.asm
index d372732..6433236 100644
--- a/base/runtime/mach-dep/AMD64.prim.asm
+++ b/base/runtime/mach-dep/AMD64.prim.asm
@@ -329,7 +329,10 @@ pending:
 	POP	(temp)			/* restore temp to msp */
 	POP	(misc2)
 
-	MOV	(allocptr,limitptr)
+	/* zero the limit pointer (as SIG_ZeroLimitPtr does), since the heap-limit test
+	 * is "allocptr > limitptr" and the code that we are about to run might not allocate.
+	 */
+	XOR	(limitptr,limitptr)
 	JMP	(jmp_ml)			/* Jump to ML code. */
 #undef  vsp
 
-- 
2.43.0


From fe35cb9780c3406daf9e5e20334f8ec4c5070cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:28 +0000
Subject: [PATCH 07/44] fix: handlers wrapped around one event of a choice do
 not catch exceptions of another

---
 cml/src/core-cml/event.sml | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cml/src/core-cml/event.sml b/cml/src/core-cml/event.sml
index 7b67a07..5a4b780 100644
--- a/cml/src/core-cml/event.sml
+++ b/cml/src/core-cml/event.sml
@@ -278,13 +278,17 @@ fun sayGrp (msg, eg) = let
 	  fun ext ([], blockFns) = capture (fn k => let
 		val escape = escape k
 		val (transId, setFlg) = mkFlg()
+	      (* the next blockFn must not run in the dynamic context of this one,
+	       * which includes the handlers that are wrapped around it.
+	       *)
 		fun log [] = S.atomicDispatch ()
-		  | log (blockFn :: r) =
-		      escape (blockFn {
+		  | log (blockFn :: r) = (
+		      callcc (fn nextK => escape (blockFn {
 			  transId = transId,
 			  cleanUp = setFlg,
-			  next = fn () => log r
-			})
+			  next = throw nextK
+			}));
+		      log r)
 		in
 		  log blockFns; error "[log]"
 		end)
@@ -388,12 +392,13 @@ fun sayGrp (msg, eg) = let
 		fun setFlg flg () = (
 		      transId := R.CANCEL; flg := true; chkCVars())
 		fun log [] = S.atomicDispatch ()
-		  | log ((blockFn, flg) :: r) =
-		      escape (blockFn {
+		  | log ((blockFn, flg) :: r) = (
+		      callcc (fn nextK => escape (blockFn {
 			  transId = transId,
 			  cleanUp = setFlg flg,
-			  next = fn () => log r
-			})
+			  next = throw nextK
+			}));
+		      log r)
 		in
 		  log blockFns; error "[log]"
 		end)
-- 
2.43.0


From 9492cca9353c5373a68c85891eebebcc6f9206b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:02 +0000
Subject: [PATCH 08/44] fix: a choice that signals nacks does not lose the
 partner it has selected

---
 cml/src/core-cml/event.sml | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cml/src/core-cml/event.sml b/cml/src/core-cml/event.sml
index 5a4b780..3ca1097 100644
--- a/cml/src/core-cml/event.sml
+++ b/cml/src/core-cml/event.sml
@@ -413,7 +413,12 @@ fun sayGrp (msg, eg) = let
 		val (doFn, flg) = selectDoFn (doFns, n)
 		in
 		  flg := true;
-		  chkCVars ();
+		(* the nacks are signalled once the synchronization has happened,
+		 * since waking up a thread that waits for a nack withdraws its
+		 * other offers, and doFn may be about to accept one of them.
+		 *)
+		  S.enqueueTmpThread (fn () => (
+		    S.atomicBegin(); chkCVars (); S.atomicEnd()));
 		  doFn()
 		end
 	    | extRdy ((pollFn, flg) :: r, doFns, n) = (case pollFn()
-- 
2.43.0


From 090485e87f1fa862e65ec4a4653e7fb1948f1d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:05 +0000
Subject: [PATCH 09/44] fix: barriers can be waited on repeatedly and resigned
 from

---
 cml/src/core-cml/barrier.sml | 57 +++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/cml/src/core-cml/barrier.sml b/cml/src/core-cml/barrier.sml
index 3c02d81..1049e71 100644
--- a/cml/src/core-cml/barrier.sml
+++ b/cml/src/core-cml/barrier.sml
@@ -15,16 +15,16 @@ structure Barrier :> BARRIER =
 
     datatype 'a result = RAISE of exn | VALUE of 'a
 
+    datatype status = ENROLLED | WAITING | RESIGNED
+
     datatype 'a barrier = BAR of {
 	state : 'a ref,
 	update : 'a -> 'a,
 	nEnrolled : int ref,
 	nWaiting : int ref,
-	waiting : (S.thread_id * 'a result cont) list ref
+	waiting : (S.thread_id * 'a result cont * status ref) list ref
       }
 
-    datatype status = ENROLLED | WAITING | RESIGNED
-
     datatype 'a enrollment = ENROLL of {
 	bar : 'a barrier,
 	sts : status ref	(* current status of this enrollment *)
@@ -49,51 +49,68 @@ structure Barrier :> BARRIER =
 	  S.atomicEnd();
 	  ENROLL{bar = bar, sts = ref ENROLLED})
 
-    fun wakeupThd result (tid, resumeK) =
+    fun wakeupThd result (tid, resumeK, sts) = (
+	  sts := ENROLLED;
 	  S.enqueueThread(
-	    tid, callcc(fn k => (callcc(fn k' => throw k k'); throw resumeK result)))
+	    tid, callcc(fn k => (callcc(fn k' => throw k k'); throw resumeK result))))
 
     fun return (RAISE exn) = raise exn
       | return (VALUE x) = x
 
+  (* update the state and wake up the waiting threads; this must be called
+   * from an atomic region.
+   *)
+    fun release (BAR{state, update, nWaiting, waiting, ...}) = let
+	  val result = let
+		val x = update(!state)
+		in
+		  state := x;
+		  VALUE x
+		end handle exn => RAISE exn
+	  in
+	    List.app (wakeupThd result) (!waiting);
+	    nWaiting := 0;
+	    waiting := [];
+	    result
+	  end
+
   (* synchronize on a barrier *)
-    fun wait (ENROLL{bar=BAR{state, update, nEnrolled, nWaiting, waiting}, sts}) = (
+    fun wait (ENROLL{bar as BAR{nEnrolled, nWaiting, waiting, ...}, sts}) = (
 	  S.atomicBegin();
 	  case !sts
 	   of ENROLLED => (
-		sts := WAITING;
 		nWaiting := !nWaiting+1;
 		if (!nWaiting = !nEnrolled)
 		  then let (* all threads are at the barrier, so we can proceed *)
-		    val result = let
-			  val x = update(!state)
-			  in
-			    state := x;
-			    VALUE x
-			  end handle exn => RAISE exn
+		    val result = release bar
 		    in
-		      List.app (wakeupThd result) (!waiting);
-		      nWaiting := 0;
-		      waiting := [];
 		      S.atomicEnd ();
 		      return result
 		    end
 		  else (
 		    sts := WAITING;
 		    return (callcc (fn resumeK => (
-		      waiting := (S.getCurThread(), resumeK) :: !waiting;
+		      waiting := (S.getCurThread(), resumeK, sts) :: !waiting;
 		      S.atomicDispatch())))))
 	    | WAITING => (S.atomicEnd(); raise Fail "multiple barrier waits")
 	    | RESIGNED => (S.atomicEnd(); raise Fail "barrier wait after resignation")
 	  (* end case *))
 
   (* resign from an enrolled barrier *)
-    fun resign (ENROLL{bar, sts}) = (
+    fun resign (ENROLL{bar as BAR{nEnrolled, nWaiting, ...}, sts}) = (
 	  S.atomicBegin();
 	  case !sts
-	   of RESIGNED => () (* ignore multiple resignations *)
+	   of RESIGNED => S.atomicEnd() (* ignore multiple resignations *)
 	    | WAITING => (S.atomicEnd(); raise Fail "resign while waiting")
-	    | ENROLLED => (sts := RESIGNED; S.atomicEnd()))
+	    | ENROLLED => (
+		sts := RESIGNED;
+		nEnrolled := !nEnrolled - 1;
+	      (* this may have been the one that the waiting threads waited for *)
+		if (!nWaiting > 0) andalso (!nWaiting = !nEnrolled)
+		  then ignore (release bar)
+		  else ();
+		S.atomicEnd())
+	  (* end case *))
 
   (* get the current state of the barrier *)
     fun value (ENROLL{bar=BAR{state, ...}, ...}) = !state
-- 
2.43.0


From 2adeaa58e88d2f6d479f1b3f61d7aecc5e136244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:00 +0000
Subject: [PATCH 10/44] fix: logging a channel, mailbox or server while CML is
 running does not deadlock

---
 cml/src/core-cml/cleanup.sml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cml/src/core-cml/cleanup.sml b/cml/src/core-cml/cleanup.sml
index fb27214..29e587f 100644
--- a/cml/src/core-cml/cleanup.sml
+++ b/cml/src/core-cml/cleanup.sml
@@ -158,7 +158,7 @@ DEBUG*)
     fun logChannel (name, ch) = let
 	  fun f () = Channel.resetChan ch
 	  in
-	    (unlogChannel name) handle Unlog => ();
+	    (unlogItem chanList name) handle Unlog => ();
 	    chanList := ITEM{key=name, init=f, shut=f} :: (!chanList)
 	  end
     val logChannel = fn x => protect logChannel x
@@ -167,7 +167,7 @@ DEBUG*)
     fun logMailbox (name, mb) = let
 	  fun f () = Mailbox.resetMbox mb
 	  in
-	    (unlogMailbox name) handle Unlog => ();
+	    (unlogItem mboxList name) handle Unlog => ();
 	    mboxList := ITEM{key=name, init=f, shut=f} :: (!mboxList)
 	  end
     val logMailbox = fn x => protect logMailbox x
@@ -175,7 +175,7 @@ DEBUG*)
     val unlogServer = protect (unlogItem serverList)
 
     fun logServer (name, f, g) = (
-	  (unlogServer name) handle Unlog => ();
+	  (unlogItem serverList name) handle Unlog => ();
 	  serverList := ITEM{key=name, init=f, shut=g} :: (!serverList))
     val logServer = protect logServer
 
-- 
2.43.0


From 715cc6a9b32a7d974a8994758bb2014ec551c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:25 +0000
Subject: [PATCH 11/44] fix: a preempted idle loop does not take a system with
 ready threads for deadlocked

---
 cml/src/core-cml/scheduler.sml | 1 +
 cml/src/glue/export-fn-fn.sml  | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cml/src/core-cml/scheduler.sml b/cml/src/core-cml/scheduler.sml
index 9cd39fb..7687738 100644
--- a/cml/src/core-cml/scheduler.sml
+++ b/cml/src/core-cml/scheduler.sml
@@ -13,6 +13,7 @@ structure Scheduler : sig
     type 'a cont = 'a SMLofNJ.Cont.cont
 
     val rdyQ1 : (thread_id * unit cont) RepTypes.queue
+    val rdyQ2 : (thread_id * unit cont) RepTypes.queue
 
     val getCurThread : unit -> thread_id
     val setCurThread : thread_id -> unit
diff --git a/cml/src/glue/export-fn-fn.sml b/cml/src/glue/export-fn-fn.sml
index 4eb0633..68482b3 100644
--- a/cml/src/glue/export-fn-fn.sml
+++ b/cml/src/glue/export-fn-fn.sml
@@ -31,8 +31,11 @@ functor ExportFnFn (G : OS_GLUE) : sig
 	  S.atomicBegin();
 	(* first, we poll the OS to schedule any ready threads *)
 	  G.pollOS();
-	(* check for ready threads orelse pause *)
-	  if (not (Q.isEmpty S.rdyQ1) orelse G.pause())
+	(* check for ready threads orelse pause.  This continuation may have been
+	 * preempted before the atomicBegin, and thus there may be ready threads
+	 * in either queue.
+	 *)
+	  if (not (Q.isEmpty S.rdyQ1) orelse not (Q.isEmpty S.rdyQ2) orelse G.pause())
 	    then S.atomicDispatch()
 	    else (
 	      S.atomicEnd();
-- 
2.43.0


From 3242059a5aea41d20f1caece9e8d77b14249c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:07 +0000
Subject: [PATCH 12/44] fix: exporting a heap image reports a failure to write
 its last part

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 3 ++-
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 3 ++-
 base/runtime/gc/export-heap.c                   | 5 +++++
 base/runtime/gc/writer.c                        | 3 ++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index 7dac946..6499a3a 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -33,7 +33,8 @@ ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
 	return RAISE_ERROR(msp, "unable to open file for writing");
 
     sts = ExportFnImage (msp, funct, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS) {
 	Exit (0);
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index a854fc7..530756d 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -32,7 +32,8 @@ ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
 
     msp->ml_arg = ML_true;
     sts = ExportHeapImage (msp, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS)
 	return ML_false;
diff --git a/base/runtime/gc/export-heap.c b/base/runtime/gc/export-heap.c
index d9d74de..6823f59 100644
--- a/base/runtime/gc/export-heap.c
+++ b/base/runtime/gc/export-heap.c
@@ -157,6 +157,11 @@ PVT status_t ExportImage (ml_state_t *msp, int kind, FILE *file)
     if (WriteHeap(wr, heap) == FAILURE)
 	status = FAILURE;
 
+  /* the last part of the image may still be buffered */
+    WR_Flush(wr);
+    if (WR_Error(wr))
+	status = FAILURE;
+
   done:;
     if (kind != EXPORT_FN_IMAGE)
 	RepairHeap (exportTbl, heap);
diff --git a/base/runtime/gc/writer.c b/base/runtime/gc/writer.c
index ab06a55..11a75ea 100644
--- a/base/runtime/gc/writer.c
+++ b/base/runtime/gc/writer.c
@@ -75,7 +75,8 @@ PVT void Write (writer_t *wr, const void *data, Addr_t nbytes)
  */
 PVT void Flush (writer_t *wr)
 {
-    fflush (FileOf(wr));
+    if (fflush (FileOf(wr)) != 0)
+	wr->errFlg = TRUE;
 
 } /* end of Flush */
 
-- 
2.43.0


From c6566442359d6b61f41633ad7ef38942f57c66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:25 +0000
Subject: [PATCH 13/44] fix: lseek: return after raising the system error

---
 base/runtime/c-libs/posix-io/lseek.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/lseek.c b/base/runtime/c-libs/posix-io/lseek.c
index 0b14853..4fbd313 100644
--- a/base/runtime/c-libs/posix-io/lseek.c
+++ b/base/runtime/c-libs/posix-io/lseek.c
@@ -28,7 +28,7 @@ ml_val_t _ml_P_IO_lseek (ml_state_t *msp, ml_val_t arg)
     pos = lseek(fd, offset, whence);
 
     if (pos < 0) {
-	RAISE_SYSERR (msp, (int)pos);
+	return RAISE_SYSERR (msp, (int)pos);
     }
 
     INT64_ALLOC(msp, box_pos, pos);
-- 
2.43.0


From 20006ac96aea4f9ad85e6741115164f3fcfe050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:25 +0000
Subject: [PATCH 14/44] fix: fcntl locks: length and tag of the result record
 were swapped

---
 base/runtime/c-libs/posix-io/fcntl_l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 96ff7d6..8567513 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     INT64_ALLOC(msp, start, flock.l_start)
     INT64_ALLOC(msp, length, flock.l_len)
 
-    ML_AllocWrite (msp, 0, MAKE_DESC (DTAG_record, 5));
+    ML_AllocWrite (msp, 0, MAKE_DESC (5, DTAG_record));
     ML_AllocWrite (msp, 1, INT_CtoML(flock.l_type));
     ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));
     ML_AllocWrite (msp, 3, start);
-- 
2.43.0


From 20f7f47080c6be8c9e2f8886bf214b6e7131ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:25 +0000
Subject: [PATCH 15/44] fix: tcgetattr: length and tag of the result record
 were swapped

---
 base/runtime/c-libs/posix-tty/tcgetattr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetattr.c b/base/runtime/c-libs/posix-tty/tcgetattr.c
index 371df11..6e47472 100644
--- a/base/runtime/c-libs/posix-tty/tcgetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcgetattr.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_TTY_tcgetattr (ml_state_t *msp, ml_val_t arg)
     SYSWORD_ALLOC (msp, ispeed, cfgetispeed (&data));
     SYSWORD_ALLOC (msp, ospeed, cfgetospeed (&data));
 
-    ML_AllocWrite (msp, 0, MAKE_DESC(DTAG_record, 7));
+    ML_AllocWrite (msp, 0, MAKE_DESC(7, DTAG_record));
     ML_AllocWrite (msp, 1, iflag);
     ML_AllocWrite (msp, 2, oflag);
     ML_AllocWrite (msp, 3, cflag);
-- 
2.43.0


From 736a48a639f16be8574ed212f050e33c860a7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:25 +0000
Subject: [PATCH 16/44] fix: dates: length and tag of the result record were
 swapped

---
 base/runtime/c-libs/smlnj-date/unix-date.c  | 2 +-
 base/runtime/c-libs/smlnj-date/win32-date.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-date/unix-date.c b/base/runtime/c-libs/smlnj-date/unix-date.c
index e6cafad..1930568 100644
--- a/base/runtime/c-libs/smlnj-date/unix-date.c
+++ b/base/runtime/c-libs/smlnj-date/unix-date.c
@@ -12,7 +12,7 @@
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const struct tm *tm)
 {
 
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(tm->tm_sec));
     ML_AllocWrite(msp, 2, INT_CtoML(tm->tm_min));
     ML_AllocWrite(msp, 3, INT_CtoML(tm->tm_hour));
diff --git a/base/runtime/c-libs/smlnj-date/win32-date.c b/base/runtime/c-libs/smlnj-date/win32-date.c
index b6edb30..f545a64 100644
--- a/base/runtime/c-libs/smlnj-date/win32-date.c
+++ b/base/runtime/c-libs/smlnj-date/win32-date.c
@@ -68,7 +68,7 @@ int _ml_year_day (const SYSTEMTIME *st)
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const SYSTEMTIME *st, BOOL isDST)
 {
   /* The SYSTEMTIME struct has everything that we need except the day of the year */
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(st->wSecond));
     ML_AllocWrite(msp, 2, INT_CtoML(st->wMinute));
     ML_AllocWrite(msp, 3, INT_CtoML(st->wHour));
-- 
2.43.0


From fcc03f2e8617968529f99dd4e39901b902caa370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:25 +0000
Subject: [PATCH 17/44] fix: uname: return after raising the system error

---
 base/runtime/c-libs/posix-procenv/uname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-procenv/uname.c b/base/runtime/c-libs/posix-procenv/uname.c
index d7a3370..acb7618 100644
--- a/base/runtime/c-libs/posix-procenv/uname.c
+++ b/base/runtime/c-libs/posix-procenv/uname.c
@@ -25,7 +25,7 @@ ml_val_t _ml_P_ProcEnv_uname (ml_state_t *msp, ml_val_t arg)
     sts = uname (&name);
 
     if (sts == -1)
-	RAISE_SYSERR(msp, sts);
+	return RAISE_SYSERR(msp, sts);
 
 /** NOTE: we should do something about possible GC!!! **/
 
-- 
2.43.0


From d58718f6614ca5b182b8babfbe2ef696366fb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:25 +0000
Subject: [PATCH 18/44] fix: localtime: return after raising the system error

---
 base/runtime/c-libs/smlnj-date/localtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-date/localtime.c b/base/runtime/c-libs/smlnj-date/localtime.c
index cbf0e42..26d84be 100644
--- a/base/runtime/c-libs/smlnj-date/localtime.c
+++ b/base/runtime/c-libs/smlnj-date/localtime.c
@@ -25,7 +25,7 @@ ml_val_t _ml_Date_localtime (ml_state_t *msp, ml_val_t arg)
     struct tm	tmbuf;
 
     if (localtime_r (&t, &tmbuf) == NULL) {
-	RAISE_SYSERR(msp,0);
+	return RAISE_SYSERR(msp, 0);
     }
     else {
 	return _ml_alloc_tm (msp, &tmbuf);
-- 
2.43.0


From 784b94032744074702f7ee3ab164dc98422bf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:39 +0000
Subject: [PATCH 19/44] fix: tagging a C int of 2^30 or more overflowed before
 it was widened

---
 base/runtime/include/ml-values.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-values.h b/base/runtime/include/ml-values.h
index e6af1e2..7f9d9cc 100644
--- a/base/runtime/include/ml-values.h
+++ b/base/runtime/include/ml-values.h
@@ -38,7 +38,7 @@
 #endif
 
 #define INT_MLtoC(n)		(((Int_t)(n)) >> 1)
-#define INT_CtoML(n)		((ml_val_t)(Int_t)(2*(n) + 1))
+#define INT_CtoML(n)		((ml_val_t)(2*(Int_t)(n) + 1))
 #define PTR_MLtoC(ty,p)		PTR_CAST(ty *, p)
 #define PTR_CtoML(p)		PTR_CAST(ml_val_t, p)
 #else
-- 
2.43.0


From 710cd9549dc464af642ae043204c0715ba814c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:18 +0000
Subject: [PATCH 20/44] fix: sockets: the out-of-band, peek and don't-route
 flags were passed in the wrong order

---
 .../Basis/Implementation/Sockets/socket.sml   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index 9771ddd..22ee590 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -276,7 +276,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd s
 	val (vec, i, len) = vbuf buffer
     in
-	if (len > 0) then sendV (fd, vec, i, len, dfltDon'tRoute, dfltOOB) else 0
+	if (len > 0) then sendV (fd, vec, i, len, dfltOOB, dfltDon'tRoute) else 0
     end
     fun sendVec arg = sendVec0 fdB arg
     fun sendVecNB arg = wrapNB_o (sendVec0 fdNB) arg
@@ -285,7 +285,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (vec, i, len) = vbuf buffer
     in
-	if (len > 0) then sendV (fd, vec, i, len, don't_route, oob) else 0
+	if (len > 0) then sendV (fd, vec, i, len, oob, don't_route) else 0
     end
     fun sendVec' arg = sendVec'0 fdB arg
     fun sendVecNB' arg = wrapNB_o (sendVec'0 fdNB) arg
@@ -294,7 +294,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (arr, i, len) = abuf buffer
     in
-	if (len > 0) then sendA (fd, arr, i, len, dfltDon'tRoute, dfltOOB)
+	if (len > 0) then sendA (fd, arr, i, len, dfltOOB, dfltDon'tRoute)
 	else 0
     end
     fun sendArr arg = sendArr0 fdB arg
@@ -304,7 +304,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (arr, i, len) = abuf buffer
     in
-	if (len > 0) then sendA (fd, arr, i, len, don't_route, oob) else 0
+	if (len > 0) then sendA (fd, arr, i, len, oob, don't_route) else 0
     end
     fun sendArr' arg = sendArr'0 fdB arg
     fun sendArrNB' arg = wrapNB_o (sendArr'0 fdNB) arg
@@ -321,7 +321,7 @@ structure SocketImp : SOCKET =
 	val (vec, i, len) = vbuf buffer
     in
 	if (len > 0) then
-	    sendToV(fd, vec, i, len, dfltDon'tRoute, dfltOOB, addr)
+	    sendToV(fd, vec, i, len, dfltOOB, dfltDon'tRoute, addr)
 	else 0;
 	()
     end
@@ -333,7 +333,7 @@ structure SocketImp : SOCKET =
 	val (vec, i, len) = vbuf buffer
     in
 	if (len > 0) then
-	    sendToV(fd, vec, i, len, don't_route, oob, addr)
+	    sendToV(fd, vec, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -345,7 +345,7 @@ structure SocketImp : SOCKET =
 	val (arr, i, len) = abuf buffer
     in
 	if (len > 0) then
-	    sendToA(fd, arr, i, len, dfltDon'tRoute, dfltOOB, addr)
+	    sendToA(fd, arr, i, len, dfltOOB, dfltDon'tRoute, addr)
 	else 0;
 	()
     end
@@ -357,7 +357,7 @@ structure SocketImp : SOCKET =
 	val (arr, i, len) = abuf buffer
     in
 	if (len > 0) then
-	    sendToA(fd, arr, i, len, don't_route, oob, addr)
+	    sendToA(fd, arr, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -372,7 +372,7 @@ structure SocketImp : SOCKET =
       fun recvV _ (_, 0, _, _) = W8V.fromList[]
 	| recvV getfd (sock, nbytes, peek, oob) =
 	    if nbytes < 0 then raise Size
-	    else recvV' (getfd sock, nbytes, peek, oob)
+	    else recvV' (getfd sock, nbytes, oob, peek)
       val recvA : (int * w8array * int * int * bool * bool) -> int
 	    = sockFn "recvBuf"
     in
@@ -389,7 +389,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (buf, i, sz) = abuf buffer
     in
-	if sz > 0 then recvA (fd, buf, i, sz, dfltPeek, dfltOOB) else 0
+	if sz > 0 then recvA (fd, buf, i, sz, dfltOOB, dfltPeek) else 0
     end
     fun recvArr arg = recvArr0 fdB arg
     fun recvArrNB arg = wrapNB_o (recvArr0 fdNB) arg
@@ -398,7 +398,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (buf, i, sz) = abuf buffer
     in
-	if sz > 0 then recvA (fd, buf, i, sz, peek, oob) else 0
+	if sz > 0 then recvA (fd, buf, i, sz, oob, peek) else 0
     end
     fun recvArr' arg = recvArr'0 fdB arg
     fun recvArrNB' arg = wrapNB_o (recvArr'0 fdNB) arg
@@ -411,7 +411,7 @@ structure SocketImp : SOCKET =
 	| recvFromV getfd (sock, sz, peek, oob) =
 	  if sz < 0 then raise Size
 	  else let val fd = getfd sock
-		   val (data, addr) = recvFromV' (fd, sz, peek, oob)
+		   val (data, addr) = recvFromV' (fd, sz, oob, peek)
 	       in
 		   (data, ADDR addr)
 	       end
@@ -433,7 +433,7 @@ structure SocketImp : SOCKET =
 	val (buf, i, sz) = abuf asl
     in
 	if sz > 0 then let
-		val (n, addr) = recvFromA(fd, buf, i, sz, dfltPeek, dfltOOB)
+		val (n, addr) = recvFromA(fd, buf, i, sz, dfltOOB, dfltPeek)
 	    in
 		(n, ADDR addr)
 	    end
@@ -447,7 +447,7 @@ structure SocketImp : SOCKET =
 	val (buf, i, sz) = abuf asl
     in
 	if sz > 0 then let
-		val (n, addr) = recvFromA(fd, buf, i, sz, peek, oob)
+		val (n, addr) = recvFromA(fd, buf, i, sz, oob, peek)
 	    in
 		(n, ADDR addr)
 	    end
-- 
2.43.0


From 4505f046c141680b1ee262751865c61f1a6a92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 21/44] fix: sockets: the receive-buffer option operated on the
 send buffer

---
 base/system/Basis/Implementation/Sockets/socket.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index 22ee590..57896e9 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -88,7 +88,7 @@ structure SocketImp : SOCKET =
 	  val ctlSNDBUF    : (sockFD * int option) -> int =
 		sockFn "ctlSNDBUF"
 	  val ctlRCVBUF    : (sockFD * int option) -> int =
-		sockFn "ctlSNDBUF"
+		sockFn "ctlRCVBUF"
 	in
       (* get/set socket options *)
 	fun getDEBUG x = getOpt ctlDEBUG x
-- 
2.43.0


From 7170538df4a8e49b892bb5ed1133fea9cd0c2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 22/44] fix: getfl: the descriptor flags were returned instead
 of the status flags

---
 base/runtime/c-libs/posix-io/fcntl_gfl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_gfl.c b/base/runtime/c-libs/posix-io/fcntl_gfl.c
index 4d75c7c..4f62fea 100644
--- a/base/runtime/c-libs/posix-io/fcntl_gfl.c
+++ b/base/runtime/c-libs/posix-io/fcntl_gfl.c
@@ -20,7 +20,7 @@ ml_val_t _ml_P_IO_fcntl_gfl (ml_state_t *msp, ml_val_t arg)
     int             flag;
     ml_val_t        flags, mode, obj;
 
-    flag = fcntl(fd, F_GETFD);
+    flag = fcntl(fd, F_GETFL);
 
     if (flag < 0)
 	return RAISE_SYSERR(msp, flag);
-- 
2.43.0


From 1af8288301d714cdad52e037d97a51dd7a511d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 23/44] fix: poll: the result list had undefined elements when
 a descriptor had several conditions

---
 base/runtime/c-libs/posix-os/poll.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index e207621..6f64b15 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -142,12 +142,12 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 {
     fd_set	rset, wset, eset;
     fd_set	*rfds, *wfds, *efds;
-    int		maxFD, sts, fd, flag;
+    int		maxFD, sts, fd, flag, nItems;
     ml_val_t	l, item;
 
     rfds = wfds = efds = NIL(fd_set *);
     maxFD = 0;
-    for (l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
+    for (l = pollList, nItems = 0;  l != LIST_nil;  l = LIST_tl(l), nItems++) {
 	item	= LIST_hd(l);
 	fd	= REC_SELINT(item, 0);
 	flag	= REC_SELINT(item, 1);
@@ -182,7 +182,7 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, sts);
+	ml_val_t	*resVec = NEW_VEC(ml_val_t, nItems);
 	int		i, resFlag;
 
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
@@ -202,9 +202,8 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    }
 	}
 
-	ASSERT(i == sts);
-
-	for (i = sts-1, l = LIST_nil;  i >= 0;  i--) {
+      /* note that sts counts conditions, and not descriptors */
+	for (i--, l = LIST_nil;  i >= 0;  i--) {
 	    item = resVec[i];
 	    LIST_cons (msp, l, item, l);
 	}
-- 
2.43.0


From 3ada2c4fd64c344ed2ad53cf021930df67340c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 24/44] fix: waitpid: the status was used when no child had one

---
 base/runtime/c-libs/posix-process/waitpid.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-process/waitpid.c b/base/runtime/c-libs/posix-process/waitpid.c
index de72cad..76bd194 100644
--- a/base/runtime/c-libs/posix-process/waitpid.c
+++ b/base/runtime/c-libs/posix-process/waitpid.c
@@ -29,7 +29,12 @@ ml_val_t _ml_P_Process_waitpid (ml_state_t *msp, ml_val_t arg)
 	return RAISE_SYSERR(msp, pid);
     }
 
-    if (WIFEXITED(status)) {
+    if (pid == 0) {
+      /* no child has a status to report yet (WNOHANG): status is not set */
+	how = 0;
+	val = 0;
+    }
+    else if (WIFEXITED(status)) {
 	how = 0;
 	val = WEXITSTATUS(status);
     }
-- 
2.43.0


From 2049ee4d56f818852b36994529c7d56201e1c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 25/44] fix: sockets: the family of an address was byte-swapped

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index a469480..8d8c4dc 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -20,6 +20,6 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, ntohs(addr->sa_family));
+    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From 7a42b8b7e785d221d675eaddc02ed40416dbd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 26/44] fix: getnetbyaddr: the representation of the address
 family was misread

---
 base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
index 09f94db..8a38e80 100644
--- a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
@@ -28,7 +28,7 @@ ml_val_t _ml_NetDB_getnetbyaddr (ml_state_t *msp, ml_val_t arg)
   return RAISE_ERROR(msp, "<getnetbyaddr not implemented>");
 #else
     unsigned long   net = REC_SELWORD(arg, 0);
-    int		    type = REC_SELINT(arg, 1);
+    int		    type = REC_SELINT(REC_SEL(arg, 1), 0);
 
     return _util_NetDB_mknetent (msp, getnetbyaddr(net, type));
 #endif
-- 
2.43.0


From 9a2bc88fc1cd4e6a36ded2e2a136f946d758ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 27/44] fix: getservbyport: the port was not put in network
 byte order

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index c3c4af9..84ccee9 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -25,6 +25,6 @@ ml_val_t _ml_NetDB_getservbyport (ml_state_t *msp, ml_val_t arg)
     else
 	proto = STR_MLtoC(OPTION_get(mlProto));
 
-    return _util_NetDB_mkservent (msp, getservbyport (REC_SELINT(arg, 0), proto));
+    return _util_NetDB_mkservent (msp, getservbyport (htons(REC_SELINT(arg, 0)), proto));
 
 } /* end of _ml_NetDB_getservbyport */
-- 
2.43.0


From 287a1848c658c3537fa24657181594e3642545e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 28/44] fix: sockets: a long Unix-domain path overflowed the
 address

---
 base/runtime/c-libs/smlnj-sockets/to-unixaddr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
index 43110c7..ec29ac2 100644
--- a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
@@ -26,6 +26,9 @@ ml_val_t _ml_Sock_tounixaddr (ml_state_t *msp, ml_val_t arg)
     int			len;
     ml_val_t		data, res;
 
+    if (strlen(path) >= sizeof(addr.sun_path))
+	return RAISE_ERROR(msp, "Unix-domain socket path too long");
+
     memset(&addr, 0, sizeof(struct sockaddr_un));
 
     addr.sun_family = AF_UNIX;
-- 
2.43.0


From f9663d2762357d28924625ce0b9bf095aed12b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:54 +0000
Subject: [PATCH 29/44] fix: read and recv: the result was not terminated and
 padded like other strings

---
 base/runtime/c-libs/posix-io/read.c      | 18 ++++++++++++++----
 base/runtime/c-libs/smlnj-sockets/recv.c | 15 ++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/read.c b/base/runtime/c-libs/posix-io/read.c
index f2c3ceb..c2c80af 100644
--- a/base/runtime/c-libs/posix-io/read.c
+++ b/base/runtime/c-libs/posix-io/read.c
@@ -22,22 +22,32 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
     int		    fd = REC_SELINT(arg, 0);
     int		    nbytes = REC_SELINT(arg, 1);
     ml_val_t	    vec, res;
-    int		    n;
+    int		    m, n;
+    char	    *s;
 
     if (nbytes == 0)
 	return ML_string0;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
-    n = read (fd, PTR_MLtoC(char, vec), nbytes);
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
+    s = PTR_MLtoC(char, vec);
+    n = read (fd, s, nbytes);
     if (n < 0)
 	return RAISE_SYSERR(msp, n);
     else if (n == 0)
 	return ML_string0;
 
+  /* terminate the data and pad its last word with zero bytes, as is the case
+   * for all strings (string pattern matching and C functions rely on it).
+   */
+    m = n;
+    do {
+	s[m++] = '\0';
+    } while ((m & (WORD_SZB-1)) != 0);
+
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
diff --git a/base/runtime/c-libs/smlnj-sockets/recv.c b/base/runtime/c-libs/smlnj-sockets/recv.c
index a3f4180..1da47a4 100644
--- a/base/runtime/c-libs/smlnj-sockets/recv.c
+++ b/base/runtime/c-libs/smlnj-sockets/recv.c
@@ -29,7 +29,7 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     s = PTR_MLtoC(char, vec);
     n = recv (sock, s, nbytes, flag);
@@ -39,16 +39,17 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     else if (n == 0)
 	return ML_string0;
 
-  /* pad the last word of the vector with zero bytes so that string pattern
-   * matching on the result will work.
+  /* terminate the data and pad its last word with zero bytes, as is the case
+   * for all strings (string pattern matching and C functions rely on it).
    */
-    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
-	s[m] = '\0';
-    }
+    m = n;
+    do {
+	s[m++] = '\0';
+    } while ((m & (WORD_SZB-1)) != 0);
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
-- 
2.43.0


From f405f5095e8cc5f246f05b120ef026640f5302aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:54 +0000
Subject: [PATCH 30/44] fix: recvfrom: the received address was overwritten
 when less data than asked for arrived

---
 base/runtime/c-libs/smlnj-sockets/recvfrom.c | 23 ++++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 585af1d..fb0055f 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -24,33 +24,42 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     int		nbytes = REC_SELINT(arg, 1);
     int		flag = 0;
     ml_val_t	vec;
-    int		n;
+    int		m, n;
+    char	*s;
 
     if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
+    s = PTR_MLtoC(char, vec);
     n = recvfrom (
-	sock, PTR_MLtoC(char, vec), nbytes, flag,
+	sock, s, nbytes, flag,
 	(struct sockaddr *)addrBuf, &addrLen);
 
     if (n < 0)
 	return RAISE_SYSERR(msp, sts);
     else {
-	ml_val_t	data = ML_CData (msp, addrBuf, addrLen);
-	ml_val_t	addr, res;
+	ml_val_t	data, addr, res;
 
 	if (n == 0)
 	    res = ML_string0;
 	else {
+	  /* terminate the data and pad its last word with zero bytes, as is the case
+	   * for all strings (string pattern matching and C functions rely on it).
+	   */
+	    m = n;
+	    do {
+		s[m++] = '\0';
+	    } while ((m & (WORD_SZB-1)) != 0);
 	    if (n < nbytes)
-	      /* we need to shrink the vector */
-		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	      /* we need to shrink the vector, before anything else is allocated */
+		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
 	    SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 	}
 
+	data = ML_CData (msp, addrBuf, addrLen);
 	SEQHDR_ALLOC (msp, addr, DESC_word8vec, data, addrLen);
 	REC_ALLOC2(msp, res, res, addr);
 
-- 
2.43.0


From 3bf85477c147355bb784bc3a68eb3f6a90544b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 31/44] fix: exec: the argument vector could be moved, and that
 of exece was too small

---
 base/runtime/c-libs/posix-process/exec.c  | 10 +++++++++-
 base/runtime/c-libs/posix-process/exece.c | 15 +++++++++++++--
 base/runtime/c-libs/posix-process/execp.c | 10 +++++++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exec.c b/base/runtime/c-libs/posix-process/exec.c
index fa2bb68..cb77586 100644
--- a/base/runtime/c-libs/posix-process/exec.c
+++ b/base/runtime/c-libs/posix-process/exec.c
@@ -28,7 +28,10 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+  /* not in the heap, as a garbage collection would move the arguments */
+    cp = NEW_VEC(char *, nArgs + 1);
+    if (cp == NIL(char **))
+	return RAISE_ERROR(msp, "no malloc memory");
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -36,6 +39,11 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execv(STR_MLtoC(path), argv);
+    if (sts < 0) {
+        ml_val_t res = RAISE_SYSERR(msp, sts);
+        FREE(argv);
+        return res;
+    }
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exec */
diff --git a/base/runtime/c-libs/posix-process/exece.c b/base/runtime/c-libs/posix-process/exece.c
index fb72af0..a4989da 100644
--- a/base/runtime/c-libs/posix-process/exece.c
+++ b/base/runtime/c-libs/posix-process/exece.c
@@ -23,13 +23,19 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     char            **argv, **envp;
     ml_val_t        p;
     char            **cp;
-    int             nArgs;
+    int             nArgs, nEnv;
 
     for (nArgs = 0, p = arglst; p != LIST_nil; p = LIST_tl(p)) {
         nArgs++;
     }
+    for (nEnv = 0, p = envlst; p != LIST_nil; p = LIST_tl(p)) {
+        nEnv++;
+    }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+  /* not in the heap, as a garbage collection would move the arguments */
+    cp = NEW_VEC(char *, nArgs + nEnv + 2);
+    if (cp == NIL(char **))
+	return RAISE_ERROR(msp, "no malloc memory");
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -42,6 +48,11 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the envp[] */
 
     sts = execve(STR_MLtoC(path), argv, envp);
+    if (sts < 0) {
+        ml_val_t res = RAISE_SYSERR(msp, sts);
+        FREE(argv);
+        return res;
+    }
 
     CHK_RETURN (msp, sts)
 
diff --git a/base/runtime/c-libs/posix-process/execp.c b/base/runtime/c-libs/posix-process/execp.c
index 355e11c..278aeca 100644
--- a/base/runtime/c-libs/posix-process/execp.c
+++ b/base/runtime/c-libs/posix-process/execp.c
@@ -28,7 +28,10 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+  /* not in the heap, as a garbage collection would move the arguments */
+    cp = NEW_VEC(char *, nArgs + 1);
+    if (cp == NIL(char **))
+	return RAISE_ERROR(msp, "no malloc memory");
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -36,6 +39,11 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execvp(STR_MLtoC(file), argv);
+    if (sts < 0) {
+        ml_val_t res = RAISE_SYSERR(msp, sts);
+        FREE(argv);
+        return res;
+    }
 
     CHK_RETURN (msp, sts)
 
-- 
2.43.0


From b0abee9ee3ddbd0b628989d4bd27324868ca9783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 32/44] fix: kill: signalling the own process group signalled
 every process

---
 base/system/Basis/Implementation/Posix/posix-process.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Posix/posix-process.sml b/base/system/Basis/Implementation/Posix/posix-process.sml
index e92c59c..3681b5b 100644
--- a/base/system/Basis/Implementation/Posix/posix-process.sml
+++ b/base/system/Basis/Implementation/Posix/posix-process.sml
@@ -114,7 +114,7 @@ structure POSIX_Process =
 
     val kill' : s_int * s_int -> unit = cfun "kill"
     fun kill (K_PROC (PID pid),Sig.SIG s) = kill'(pid, s)
-      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(~1, s)
+      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(0, s)
       | kill (K_GROUP (PID pid),Sig.SIG s) = kill'(~pid, s)
 
 (* TODO: generalize to finer-grain sleeping (bug #173); also alarm *)
-- 
2.43.0


From e3ab604d5d5c58887da5c584a004acfe6c723612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:33 +0000
Subject: [PATCH 33/44] fix: poll: the result list could overflow the
 allocation space

---
 base/runtime/c-libs/posix-os/poll.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index 6f64b15..63a3bc5 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -27,6 +27,7 @@
 #include "ml-c.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* bit masks for polling descriptors (see src/sml-nj/boot/Unix/os-io.sml) */
@@ -182,7 +183,7 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, nItems);
+	int		*resVec = NEW_VEC(int, 2*nItems);
 	int		i, resFlag;
 
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
@@ -197,14 +198,19 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))
 		resFlag |= ERR_BIT;
 	    if (resFlag != 0) {
-		REC_ALLOC2 (msp, item, INT_CtoML(fd), INT_CtoML(resFlag));
-		resVec[i++] = item;
+		resVec[i++] = fd;
+		resVec[i++] = resFlag;
 	    }
 	}
 
       /* note that sts counts conditions, and not descriptors */
-	for (i--, l = LIST_nil;  i >= 0;  i--) {
-	    item = resVec[i];
+	for (l = LIST_nil;  i > 0;  i -= 2) {
+	  /* make sure that there is space for the item and its list cell; note
+	   * that pollList is dead by now.
+	   */
+	    if (NeedGC (msp, 6*WORD_SZB))
+		InvokeGCWithRoots (msp, 0, &l, NIL(ml_val_t *));
+	    REC_ALLOC2 (msp, item, INT_CtoML(resVec[i-2]), INT_CtoML(resVec[i-1]));
 	    LIST_cons (msp, l, item, l);
 	}
 
-- 
2.43.0


From ed6fb85a5c67dd3c5dd0a996fd75fcb3e02df24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:22 +0000
Subject: [PATCH 34/44] fix: getgroups: a long list overflowed the allocation
 space

---
 base/runtime/c-libs/posix-procenv/getgroups.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 9196b32..3c4ea60 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -10,6 +10,7 @@
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 
@@ -31,10 +32,11 @@ PVT ml_val_t mkList (ml_state_t *msp, int ngrps, gid gidset[])
 {
     ml_val_t    p, w;
 
-/** NOTE: we should do something about possible GC!!! **/
-
     p = LIST_nil;
     while (ngrps-- > 0) {
+      /* make sure that there is space for the word and its list cell */
+        if (NeedGC (msp, 5*WORD_SZB))
+            InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
         WORD_ALLOC (msp, w, (Word_t)(gidset[ngrps]));
 	LIST_cons(msp, p, w, p);
     }
-- 
2.43.0


From b925dbbf5ade7a4e047d4870441adb18f4aa2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:53 +0000
Subject: [PATCH 35/44] fix: host entries: a long list of addresses overflowed
 the allocation space

---
 base/runtime/c-libs/smlnj-sockets/util-mkhostent.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
index 6481383..c3a729a 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
@@ -8,6 +8,7 @@
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "ml-c.h"
 #include "sock-util.h"
 
@@ -31,16 +32,19 @@ ml_val_t _util_NetDB_mkhostent (ml_state_t *msp, struct hostent *hentry)
 
       /* NOTE: ML_CStringList may do a GC, so it comes first */
 	aliases = ML_CStringList(msp, hentry->h_aliases);
-	name = ML_CString(msp, hentry->h_name);
-	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	for (nAddrs = 0;  hentry->h_addr_list[nAddrs] != NIL(char *);  nAddrs++)
 	    continue;
 	for (i = nAddrs, addrs = LIST_nil;  --i >= 0;  ) {
+	  /* make sure that there is space for the address and its list cell */
+	    if (NeedGC (msp, WORD_SZB*BYTES_TO_WORDS(hentry->h_length+1) + 7*WORD_SZB))
+		InvokeGCWithRoots (msp, 0, &aliases, &addrs, NIL(ml_val_t *));
 	    addr = ML_AllocString (msp, hentry->h_length);
 	    memcpy (GET_SEQ_DATAPTR(void, addr), hentry->h_addr_list[i],
 		hentry->h_length);
 	    LIST_cons(msp, addrs, addr, addrs);
 	}
+	name = ML_CString(msp, hentry->h_name);
+	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	REC_ALLOC4 (msp, res, name, aliases, af, addrs);
 	OPTION_SOME (msp, res, res);
 	return res;
-- 
2.43.0


From bbb57acc4937c4e5fa6418438c3b928040266d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:07 +0000
Subject: [PATCH 36/44] fix: TimeLimit: a limit of zero was no limit at all

---
 smlnj-lib/Util/time-limit.sml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smlnj-lib/Util/time-limit.sml b/smlnj-lib/Util/time-limit.sml
index ea8ec01..370dd33 100644
--- a/smlnj-lib/Util/time-limit.sml
+++ b/smlnj-lib/Util/time-limit.sml
@@ -26,6 +26,8 @@ structure TimeLimit : sig
 		raise TimeOut))
 	  fun handler _ = escapeCont
 	  in
+	  (* setting the timer to zero would turn it off *)
+	    if Time.<= (t, Time.zeroTime) then raise TimeOut else ();
 	    Signals.setHandler (Signals.sigALRM, Signals.HANDLER handler);
 	    timerOn();
 	    ((f x) handle ex => (timerOff(); raise ex))
-- 
2.43.0


From d0d8d234d06bb22cc390a8e1bcb3b757884d1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:28 +0000
Subject: [PATCH 37/44] fix: running out of memory in the C heap crashed the
 runtime system

---
 base/runtime/gc/blast-in.c     |  2 +-
 base/runtime/gc/blast-out.c    |  2 +-
 base/runtime/gc/export-heap.c  |  6 +++---
 base/runtime/gc/gc-util.c      |  7 ++-----
 base/runtime/gc/import-heap.c  |  4 ++--
 base/runtime/include/ml-base.h |  9 +++++----
 base/runtime/kernel/error.c    | 17 +++++++++++++++++
 base/runtime/memory/mem-mmap.c |  2 +-
 8 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/base/runtime/gc/blast-in.c b/base/runtime/gc/blast-in.c
index aa24ea3..1e0474b 100644
--- a/base/runtime/gc/blast-in.c
+++ b/base/runtime/gc/blast-in.c
@@ -102,7 +102,7 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
   /* read the arena headers. */
     arenaHdrsSize = (blastHdr.numArenas + blastHdr.numBOKinds)
 			* sizeof(heap_arena_hdr_t);
-    arenaHdrsBuf = (heap_arena_hdr_t *) MALLOC (arenaHdrsSize);
+    arenaHdrsBuf = (heap_arena_hdr_t *) AllocOrDie (arenaHdrsSize);
     if (HeapIO_ReadBlock (bp, arenaHdrsBuf, arenaHdrsSize) == FAILURE) {
 	FREE (arenaHdrsBuf);
 	return FAILURE;
diff --git a/base/runtime/gc/blast-out.c b/base/runtime/gc/blast-out.c
index d1fb93e..c3a5461 100644
--- a/base/runtime/gc/blast-out.c
+++ b/base/runtime/gc/blast-out.c
@@ -162,7 +162,7 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
 
   /* initialize the arena headers */
     arenaHdrSz = numArenas * sizeof(heap_arena_hdr_t);
-    arenaHdrsBuf = (heap_arena_hdr_t *) MALLOC (arenaHdrSz);
+    arenaHdrsBuf = (heap_arena_hdr_t *) AllocOrDie (arenaHdrSz);
     for (p = arenaHdrsBuf, i = 0;  i < NUM_ARENAS;  i++) {
 	if (totArenaSzB[i] > 0) {
 	    p->gen		    = 0;
diff --git a/base/runtime/gc/export-heap.c b/base/runtime/gc/export-heap.c
index 6823f59..6df5923 100644
--- a/base/runtime/gc/export-heap.c
+++ b/base/runtime/gc/export-heap.c
@@ -236,7 +236,7 @@ PVT status_t WriteHeap (writer_t *wr, heap_t *heap)
 SayDebug("%d bigobject regions\n", heap->numBORegions);
 #endif
 	sz = heap->numBORegions * sizeof(bo_region_info_t);
-	hdr = (bo_region_info_t *) MALLOC (sz);
+	hdr = (bo_region_info_t *) AllocOrDie (sz);
 	for (rp = heap->bigRegions, i = 0;  rp != NIL(bigobj_region_t *);  rp = rp->next, i++) {
 #ifdef BO_DEBUG
 PrintRegionMap(rp);
@@ -257,7 +257,7 @@ PrintRegionMap(rp);
 
   /* initialize the arena headers. */
     arenaHdrsSize = heap->numGens * (NUM_OBJ_KINDS * sizeof(heap_arena_hdr_t));
-    arenaHdrs = (heap_arena_hdr_t *) MALLOC (arenaHdrsSize);
+    arenaHdrs = (heap_arena_hdr_t *) AllocOrDie (arenaHdrsSize);
     offset = WR_Tell(wr) + arenaHdrsSize;
     offset = ROUNDUP(offset, pagesize);
     /* initialize the arena headers for this generation */
@@ -324,7 +324,7 @@ PrintRegionMap(rp);
 
 	    if (p->info.bo.numBigObjs > 0) {
 		hdrSizeB = p->info.bo.numBigObjs * sizeof(bigobj_hdr_t);
-		hdr = (bigobj_hdr_t *) MALLOC (hdrSizeB);
+		hdr = (bigobj_hdr_t *) AllocOrDie (hdrSizeB);
 		if (GCMessages) {
 		    SayDebug("write %d,%d: %d big objects (%d pages) @ %#x\n",
 			i+1, j, p->info.bo.numBigObjs, p->info.bo.numBOPages,
diff --git a/base/runtime/gc/gc-util.c b/base/runtime/gc/gc-util.c
index 2823368..8c40d7b 100644
--- a/base/runtime/gc/gc-util.c
+++ b/base/runtime/gc/gc-util.c
@@ -146,17 +146,14 @@ void NewDirtyVector (gen_t *gen)
     int         allocSzB = CARD_MAP_SZ(vecSz);
 
     if (gen->dirty == NIL(card_map_t *)) {
-        gen->dirty = (card_map_t *)MALLOC(allocSzB);
+        gen->dirty = (card_map_t *)AllocOrDie(allocSzB);
         gen->dirty->mapSzB = allocSzB;
     }
     else if (allocSzB > gen->dirty->mapSzB) {
         FREE(gen->dirty);
-        gen->dirty = (card_map_t *)MALLOC(allocSzB);
+        gen->dirty = (card_map_t *)AllocOrDie(allocSzB);
         gen->dirty->mapSzB = allocSzB;
     }
-    if (gen->dirty == NIL(card_map_t *)) {
-        Die ("unable to allocate dirty vector");
-    }
     gen->dirty->baseAddr = ap->tospBase;
     gen->dirty->numCards = vecSz;
 #ifndef BIT_CARDS
diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 4b8720c..c2eeaea 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -269,7 +269,7 @@ PVT void ReadHeap (inbuf_t *bp, ml_heap_hdr_t *hdr, ml_state_t *msp, ml_val_t *e
 
   /* read the arena headers. */
     arenaHdrsSize = hdr->numGens * NUM_OBJ_KINDS * sizeof(heap_arena_hdr_t);
-    arenaHdrs = (heap_arena_hdr_t *) MALLOC (arenaHdrsSize);
+    arenaHdrs = (heap_arena_hdr_t *) AllocOrDie (arenaHdrsSize);
     if (HeapIO_ReadBlock (bp, arenaHdrs, arenaHdrsSize) == FAILURE) {
         Die("failure to read arena info\n");
     }
@@ -351,7 +351,7 @@ PVT void ReadHeap (inbuf_t *bp, ml_heap_hdr_t *hdr, ml_state_t *msp, ml_val_t *e
 
               /* read in the big-object headers */
                 boHdrSizeB = p->info.bo.numBigObjs * sizeof(bigobj_hdr_t);
-                boHdrs = (bigobj_hdr_t *) MALLOC (boHdrSizeB);
+                boHdrs = (bigobj_hdr_t *) AllocOrDie (boHdrSizeB);
                 if (HeapIO_ReadBlock (bp, boHdrs, boHdrSizeB) == FAILURE) {
                     Die("failure to read big-object headers\n");
                 }
diff --git a/base/runtime/include/ml-base.h b/base/runtime/include/ml-base.h
index 3a428e5..c9d85ac 100644
--- a/base/runtime/include/ml-base.h
+++ b/base/runtime/include/ml-base.h
@@ -151,10 +151,10 @@ STATIC_INLINE void _free_ (void *obj, const char *file, int line)
 #define FREE(p)		free(p)
 #endif /* TRACE_MALLOC */
 
-/* Allocate a new C object of type t. */
-#define NEW_OBJ(t)	((t *)MALLOC(sizeof(t)))
-/* Allocate a new C array of type t objects. */
-#define NEW_VEC(t,n)	((t *)MALLOC((n)*sizeof(t)))
+/* Allocate a new C object of type t; running out of memory is fatal. */
+#define NEW_OBJ(t)	((t *)AllocOrDie(sizeof(t)))
+/* Allocate a new C array of type t objects; running out of memory is fatal. */
+#define NEW_VEC(t,n)	((t *)AllocOrDie((n)*sizeof(t)))
 
 /* clear memory */
 #define CLEAR_MEM(m, sz)	(memset((m), 0, (sz)))
@@ -202,6 +202,7 @@ extern void Say (const char *fmt, ...);
 extern void SayDebug (const char *fmt, ...);
 extern void Error (const char *, ...);
 extern void Exit (int code);
+extern void *AllocOrDie (Addr_t szb);
 extern void Die (const char *, ...);
 
 /* heap_params is an abstract type, whose representation depends on the
diff --git a/base/runtime/kernel/error.c b/base/runtime/kernel/error.c
index 7c7c706..b7b3a22 100644
--- a/base/runtime/kernel/error.c
+++ b/base/runtime/kernel/error.c
@@ -7,6 +7,7 @@
 
 #include <stdio.h>
 #include <stdarg.h>
+#include <stdlib.h>
 #include "ml-base.h"
 
 extern FILE	*DebugF;
@@ -76,6 +77,22 @@ void Die (const char *fmt, ...)
 } /* end of Die */
 
 
+/* AllocOrDie:
+ * Allocate memory in the C heap; running out of memory is a fatal error.
+ */
+void *AllocOrDie (Addr_t szb)
+{
+    void	*p = MALLOC(szb);
+
+    if ((p == NIL(void *)) && (szb > 0)) {
+	Die ("unable to allocate %lu bytes of memory", (unsigned long)szb);
+    }
+
+    return p;
+
+} /* end of AllocOrDie */
+
+
 #ifdef ASSERT_ON
 /* AssertFail:
  *
diff --git a/base/runtime/memory/mem-mmap.c b/base/runtime/memory/mem-mmap.c
index 2482404..a68ee60 100644
--- a/base/runtime/memory/mem-mmap.c
+++ b/base/runtime/memory/mem-mmap.c
@@ -43,7 +43,7 @@ struct mem_obj {
 
 extern int	errno;
 
-#define ALLOC_MEMOBJ()		NEW_OBJ(mem_obj_t)
+#define ALLOC_MEMOBJ()		((mem_obj_t *)MALLOC(sizeof(mem_obj_t)))
 #define FREE_MEMOBJ(p)		FREE(p)
 
 #include "mem-common.ins"
-- 
2.43.0


From 16c09fa74e824410e91d3006104f932bbab31588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:15 +0000
Subject: [PATCH 38/44] fix: CPU timers counted the time of collections twice

---
 base/system/Basis/Implementation/internal-timer.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/internal-timer.sml b/base/system/Basis/Implementation/internal-timer.sml
index b3d10c2..81987dd 100644
--- a/base/system/Basis/Implementation/internal-timer.sml
+++ b/base/system/Basis/Implementation/internal-timer.sml
@@ -30,7 +30,8 @@ structure InternalTimer : sig
     fun getTime () = let
 	  val (usr, sys, gc) = gettime' ()
 	  in {
-	    nongc = { usr = mkTime usr, sys = mkTime sys },
+	  (* note that the user time includes the time spent in the collector *)
+	    nongc = { usr = mkTime (Int64Imp.- (usr, gc)), sys = mkTime sys },
 	    gc    = { usr = mkTime gc, sys = Time.zeroTime }
 	  } end
     end (* local *)
-- 
2.43.0


From 4ad1a06208736f47d93ba09f50e7c593209c060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:59 +0000
Subject: [PATCH 39/44] fix: OS.Process.system lost its child when a signal
 interrupted the wait

---
 base/system/Basis/Implementation/Unix/os-process.sml | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Unix/os-process.sml b/base/system/Basis/Implementation/Unix/os-process.sml
index c913c4c..e2b35cd 100644
--- a/base/system/Basis/Implementation/Unix/os-process.sml
+++ b/base/system/Basis/Implementation/Unix/os-process.sml
@@ -36,7 +36,11 @@ structure OS_Process : OS_PROCESS =
 		      Signals.setHandler (UnixSignals.sigINT, savSigInt);
 		      Signals.setHandler (UnixSignals.sigQUIT, savSigQuit);
 		      ())
-		fun wait () = (case #2(P_Proc.waitpid(P_Proc.W_CHILD pid, []))
+	      (* a signal that is handled while we wait must not make us forget the child *)
+		fun waitpid () = P_Proc.waitpid(P_Proc.W_CHILD pid, [])
+		      handle (ex as Assembly.SysErr(_, SOME e)) =>
+			if (e = POSIX_Error.intr) then waitpid() else raise ex
+		fun wait () = (case #2(waitpid())
 		       of P_Proc.W_EXITED => success
 			| (P_Proc.W_EXITSTATUS w) => Word8.toInt w
 			| (P_Proc.W_SIGNALED s) => failure (* ?? *)
-- 
2.43.0


From c52a0e4b475702285a0b9e97bc871962ae881c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:59 +0000
Subject: [PATCH 40/44] fix: CML: making a child could leave the threads
 without their timer

---
 cml/src/Unix/new-unix.sml   | 5 ++++-
 cml/src/Unix/os-process.sml | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cml/src/Unix/new-unix.sml b/cml/src/Unix/new-unix.sml
index ac1cafd..026203d 100644
--- a/cml/src/Unix/new-unix.sml
+++ b/cml/src/Unix/new-unix.sml
@@ -91,11 +91,14 @@ structure Unix : UNIX =
 		      end
 		(* end case *))
           val _ = TextIO.flushOut TextIO.stdOut
+	(* as in OS.Process.system, the timer is stopped in an atomic region *)
           val pid = (
+		  S.atomicBegin();
 		  S.stopTimer();
 		  startChild () before
 		  S.restartTimer())
-		handle ex => (S.restartTimer(); closep(); raise ex)
+		handle ex => (S.restartTimer(); S.atomicEnd(); closep(); raise ex)
+          val _ = S.atomicEnd()
           val ins = openInFD (base^"_exec_in", #infd p2)
           val outs = openOutFD (base^"_exec_out", #outfd p1)
           in
diff --git a/cml/src/Unix/os-process.sml b/cml/src/Unix/os-process.sml
index a0801ec..0a68b48 100644
--- a/cml/src/Unix/os-process.sml
+++ b/cml/src/Unix/os-process.sml
@@ -22,14 +22,17 @@ structure OS_Process : OS_PROCESS =
     val failure = P.failure
     val isSuccess = P.isSuccess
 
-(** NOTE: we probably need to disable timer signals here **)
+  (* the timer is stopped in an atomic region, since a thread that is preempted
+   * in between would leave the other threads without a timer.
+   *)
     fun system' cmd = (
+	  S.atomicBegin();
 	  S.stopTimer();
-	  case PP.fork()
+	  case (PP.fork() handle ex => (S.restartTimer(); S.atomicEnd(); raise ex))
 	   of NONE => (
 		PP.exec ("/bin/sh", ["sh", "-c", cmd])
 		PP.exit 0w127)
-	    | (SOME pid) => (S.restartTimer(); pid)
+	    | (SOME pid) => (S.restartTimer(); S.atomicEnd(); pid)
 	  (* end case *))
 
     fun systemEvt cmd = let
-- 
2.43.0


From faa2a0020bcb3ddf754af7b4b25133f2805f6b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:06 +0000
Subject: [PATCH 41/44] fix: canInput lost the data it had read when it needed
 more than one buffer

---
 base/system/Basis/Implementation/IO/bin-io-fn.sml  | 2 +-
 base/system/Basis/Implementation/IO/text-io-fn.sml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/IO/bin-io-fn.sml b/base/system/Basis/Implementation/IO/bin-io-fn.sml
index 9c3af50..3c8039b 100644
--- a/base/system/Basis/Implementation/IO/bin-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/bin-io-fn.sml
@@ -265,7 +265,7 @@ functor BinIOFn (
 			then SOME n
 			else nextBuf (buf, n - remain)
 		    end
-	      and nextBuf (IBUF{more, ...}, n) = (case !more
+	      and nextBuf (buf as IBUF{more, ...}, n) = (case !more
 		     of (MORE buf) => tryInput (buf, 0, n)
 		      | (EOS _) => SOME(amount - n)
 		      | TERMINATED => SOME(amount - n)
diff --git a/base/system/Basis/Implementation/IO/text-io-fn.sml b/base/system/Basis/Implementation/IO/text-io-fn.sml
index b4ac1d8..2b79ca2 100644
--- a/base/system/Basis/Implementation/IO/text-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/text-io-fn.sml
@@ -277,7 +277,7 @@ functor TextIOFn (
 			then SOME n
 			else nextBuf (buf, n - remain)
 		    end
-	      and nextBuf (IBUF{more, ...}, n) = (case !more
+	      and nextBuf (buf as IBUF{more, ...}, n) = (case !more
 		     of (MORE buf) => tryInput (buf, 0, n)
 		      | (EOS _) => SOME(amount - n)
 		      | TERMINATED => SOME(amount - n)
-- 
2.43.0


From b3115d9e8d4b2431b8e6bf5c452a0669ef85da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:06 +0000
Subject: [PATCH 42/44] fix: TextIO filePosIn left the file at another position
 when a read failed

---
 base/system/Basis/Implementation/IO/text-io-fn.sml | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/system/Basis/Implementation/IO/text-io-fn.sml b/base/system/Basis/Implementation/IO/text-io-fn.sml
index 2b79ca2..9728667 100644
--- a/base/system/Basis/Implementation/IO/text-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/text-io-fn.sml
@@ -383,14 +383,13 @@ functor TextIOFn (
 			    val tmpPos = getPos()
 			    fun readN 0 = ()
 			      | readN n = (case V.length(readVec n)
-				   of 0 => inputExn (
-					  info, "filePosIn", Fail "bogus position")
+				   of 0 => raise Fail "bogus position"
 				    | k => readN(n-k)
 				  (* end case *))
+			    val pos' = (setPos base; readN pos; getPos ())
+				  handle ex => (setPos tmpPos; inputExn (info, "filePosIn", ex))
 			    in
-			      setPos base;
-			      readN pos;
-			      getPos () before setPos tmpPos
+			      setPos tmpPos; pos'
 			    end
 			| _ => raise Fail "filePosIn: impossible"
 		      (* end case *)
-- 
2.43.0


From 4ede712e1cdff3805196383ddbaa00586e1c7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:01 +0000
Subject: [PATCH 43/44] fix: output streams passed elements on twice when a
 write failed in the middle of the buffer

---
 .../Basis/Implementation/IO/bin-io-fn.sml     | 26 +++++++++++---
 .../Basis/Implementation/IO/text-io-fn.sml    | 34 +++++++++++++------
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/base/system/Basis/Implementation/IO/bin-io-fn.sml b/base/system/Basis/Implementation/IO/bin-io-fn.sml
index 3c8039b..72b74c5 100644
--- a/base/system/Basis/Implementation/IO/bin-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/bin-io-fn.sml
@@ -445,11 +445,13 @@ functor BinIOFn (
 
 	fun output1 (strm as OSTRM{buf, pos, bufferMode, writeArr, ...}, elem) = (
 	      isClosedOut (strm, "output1");
+	    (* the buffer is full if an earlier attempt to write it failed *)
+	      if (!pos = A.length buf) then flushBuffer (strm, "output1") else ();
 	      case !bufferMode
 	       of IO.NO_BUF => (
 		    arrUpdate (buf, 0, elem);
 		    writeArr (AS.slice (buf, 0, SOME 1))
-		      handle ex => outputExn (strm, "output1", ex))
+		      handle ex => (pos := 0; outputExn (strm, "output1", ex)))
 		| _ => let
 		    val i = !pos
 		    val i' = i+1
@@ -486,9 +488,25 @@ functor BinIOFn (
 		    in
 		      lp
 		    end
+	      val buf = A.array(chunkSize, someElem)
+	      val pos = ref 0
+	    (* write the slice, which is the beginning of the buffer.  If that fails, then
+	     * the elements that have not been written stay in the buffer.
+	     *)
+	      fun writeBuf f sl = if (AS.length sl = 0)
+		    then ()
+		    else let
+		      val n = f sl
+			    handle ex => (
+			      AS.copy {src = sl, dst = buf, di = 0};
+			      pos := AS.length sl;
+			      raise ex)
+		      in
+			writeBuf f (AS.subslice (sl, n, NONE))
+		      end
 	      val writeArr' = (case writeArr
 		     of NONE => (fn _ => raise IO.BlockingNotSupported)
-		      | (SOME f) => iterate (f, AS.length, AS.subslice)
+		      | (SOME f) => writeBuf f
 		    (* end case *))
 	      val writeVec' = (case writeVec
 		     of NONE => (fn _ => raise IO.BlockingNotSupported)
@@ -501,8 +519,8 @@ functor BinIOFn (
 		      close = fn () => ()
 		    }
 	      val strm = OSTRM{
-		      buf = A.array(chunkSize, someElem),
-		      pos = ref 0,
+		      buf = buf,
+		      pos = pos,
 		      closed = ref false,
 		      bufferMode = ref mode,
 		      writer = wr,
diff --git a/base/system/Basis/Implementation/IO/text-io-fn.sml b/base/system/Basis/Implementation/IO/text-io-fn.sml
index 9728667..2891215 100644
--- a/base/system/Basis/Implementation/IO/text-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/text-io-fn.sml
@@ -515,9 +515,7 @@ functor TextIOFn (
 				    AS.copyVec { src=VS.slice(v,0,SOME avail),
 						 dst=buf, di=i }
 				val _ = #writeArr os (AS.full buf)
-				      handle ex => (
-					pos := bufLen;
-					outputExn (strm, "output", ex))
+				      handle ex => outputExn (strm, "output", ex)
 				val needsFlush = copyVec(v, avail, dataLen-avail, buf, 0)
 				in
 				  pos := dataLen-avail;
@@ -543,11 +541,13 @@ functor TextIOFn (
 
 	fun output1 (strm as OSTRM{buf, pos, bufferMode, writeArr, ...}, elem) = (
 	      isClosedOut (strm, "output1");
+	    (* the buffer is full if an earlier attempt to write it failed *)
+	      if (!pos = A.length buf) then flushBuffer (strm, "output1") else ();
 	      case !bufferMode
 	       of IO.NO_BUF => (
 		    arrUpdate (buf, 0, elem);
 		    writeArr (AS.slice (buf, 0, SOME 1))
-		      handle ex => outputExn (strm, "output1", ex))
+		      handle ex => (pos := 0; outputExn (strm, "output1", ex)))
 		| IO.LINE_BUF => let val i = !pos val i' = i+1
 		    in
 		      arrUpdate (buf, i, elem); pos := i';
@@ -588,9 +588,25 @@ functor TextIOFn (
 		  in
 		      lp sl
 		  end
+	      val buf = A.array(chunkSize, someElem)
+	      val pos = ref 0
+	    (* write the slice, which is the beginning of the buffer.  If that fails, then
+	     * the elements that have not been written stay in the buffer.
+	     *)
+	      fun writeBuf f sl = if (AS.length sl = 0)
+		    then ()
+		    else let
+		      val n = f sl
+			    handle ex => (
+			      AS.copy {src = sl, dst = buf, di = 0};
+			      pos := AS.length sl;
+			      raise ex)
+		      in
+			writeBuf f (AS.subslice (sl, n, NONE))
+		      end
 	      val writeArr' = (case writeArr
 		     of NONE => (fn _ => raise IO.BlockingNotSupported)
-		      | (SOME f) => iterate (f, AS.length, AS.subslice)
+		      | (SOME f) => writeBuf f
 		    (* end case *))
 	      val writeVec' = (case writeVec
 		     of NONE => (fn _ => raise IO.BlockingNotSupported)
@@ -603,8 +619,8 @@ functor TextIOFn (
 		      close = fn () => ()
 		    }
 	      val strm = OSTRM{
-		      buf = A.array(chunkSize, someElem),
-		      pos = ref 0,
+		      buf = buf,
+		      pos = pos,
 		      closed = ref false,
 		      bufferMode = ref mode,
 		      writer = wr,
@@ -681,9 +697,7 @@ functor TextIOFn (
 						   (v,dataStart,SOME avail),
 						 dst = buf, di = i }
 				val _ = #writeArr os (AS.full buf)
-				      handle ex => (
-					pos := bufLen;
-					outputExn (strm, "outputSubstr", ex))
+				      handle ex => outputExn (strm, "outputSubstr", ex)
 				val needsFlush =
 				    copyVec(v, dataStart+avail, dataLen-avail, buf, 0)
 				in
-- 
2.43.0


From 02784c9a0a54558ae786a59fa62ca6a02d6cfb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 44/44] fix: ml-lex scanners lost their place when the input
 function raised an exception

A scanner that had moved its buffer for a token and then got an exception
from a further call of the input function was left with yybufpos pointing
elsewhere: calling it again skipped or repeated input, or raised Subscript.
---
 ml-lex/lexgen.sml | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ml-lex/lexgen.sml b/ml-lex/lexgen.sml
index 33029d8..496a018 100644
--- a/ml-lex/lexgen.sml
+++ b/ml-lex/lexgen.sml
@@ -1324,11 +1324,15 @@ fun lexGen(infile) =
 	 say   "\t\t                  else action(l,NewAcceptingLeaves";
 	 if !UsesTrailingContext then
 	    sayln ",nil))" else sayln "))";
-	 sayln "\t\t  else (if i0=l then yyb := newchars";
-	 sayln "\t\t     else yyb := String.substring(!yyb,i0,l-i0)^newchars;";
-	 sayln "\t\t     yygone := !yygone+i0;";
+	 (* the character before the token stays in the buffer, and yybufpos is kept
+	  * in step with it, so that the lexer can be called again when a later
+	  * call of yyinput raises an exception.
+	  *)
+	 sayln "\t\t  else (yyb := String.substring(!yyb,i0-1,l-i0+1)^newchars;";
+	 sayln "\t\t     yygone := !yygone+i0-1;";
 	 sayln "\t\t     yybl := String.size (!yyb);";
-	 sayln "\t\t     scan (s,AcceptingLeaves,l-i0,0))";
+	 sayln "\t\t     yybufpos := 1;";
+	 sayln "\t\t     scan (s,AcceptingLeaves,l-i0+1,1))";
 	 sayln "\t    end";
 	 sayln "\t  else let val NewChar = Char.ord(Unsafe.CharVector.sub(!yyb,l))";
          if !CharSetSize=129
-- 
2.43.0

