"""Mutants used to measure the checks: (id, property, file, old, new); see tools/mutate.py."""
G = "base/runtime/gc/"
K = "base/runtime/kernel/"
D = "base/runtime/mach-dep/"
L = "base/runtime/c-libs/"
M = [
 ("C01-card-min", "C01", G + "card-map.h", "	if (__g < __cm->map[__i])				\\\n	    __cm->map[__i] = __g;				\\\n    }\n\n/* test a card to see if it is marked */\n#define isDIRTY(cm, indx, maxGen)",
  "	__cm->map[__i] = __g;					\\\n    }\n\n/* test a card to see if it is marked */\n#define isDIRTY(cm, indx, maxGen)"),
 ("C01-card-clean", "C01", G + "major-gc.c", "		    else if (i == maxCollectedGen)\n			cm->map[card] = CARD_CLEAN;\n		});\n#else", "		    else\n			cm->map[card] = CARD_CLEAN;\n		});\n#else"),
 ("C01-sweep-mark", "C01", G + "major-gc.c", "	cardMark = CARD(cm, cardStart);\n#endif", "	cardMark = thisGen - 1;\n#endif"),
 ("C01-maxsweep", "C01", G + "major-gc.c", "#elif (!defined(BIT_CARDS))\n		FOR_DIRTY_CARD (cm, maxCollectedGen, card, {", "#elif (!defined(BIT_CARDS))\n		FOR_DIRTY_CARD (cm, maxCollectedGen-1, card, {"),
 ("C01-bo-coalesce", "C01", G + "big-objects.c", "	for (i = lastPage, j = i+(dp->sizeB >> BIGOBJ_PAGE_SHIFT); i < j;  i++)", "	for (i = lastPage, j = i+1; i < j;  i++)"),
 ("C01-bo-left", "C01", G + "big-objects.c", "	desc->obj = dp->obj;\n	totSzB += dp->sizeB;\n	FREE (dp);\n    }\n\n    if ((lastPage", "	desc->obj = dp->obj;\n	FREE (dp);\n    }\n\n    if ((lastPage"),
 ("C01-bo-promote", "C01", G + "major-gc.c", "	    if ((i == maxCollectedGen) || (i == heap->numGens-1))\n		promoteState", "	    if (i == maxCollectedGen)\n		promoteState"),
 ("C01-bo-min", "C01", G + "major-gc.c", "		    if ((! BO_IS_FREE(dp)) && (dp->gen < min))", "		    if ((! BO_IS_FREE(dp)) && (dp->gen <= min || min == MAX_NUM_GENS || rp->nFree > 0))"),
 ("C01-bo-card", "C01", G + "minor-gc.c", "		    if (dstGen >= srcGen)\n			continue;", "		    if (dstGen >= srcGen-1)\n			continue;"),
 ("C01-arr-init", "C01", G + "ml-objects.c", "        int     gcLevel = (isBOXED(initVal) ? 0 : -1);", "        int     gcLevel = -1;"),
 ("C01-arr-root", "C01", G + "ml-objects.c", "                    InvokeGCWithRoots (msp, gcLevel, &root, NIL(ml_val_t *));\n                    initVal = root;\n                ACQUIRE_LOCK(MP_GCGenLock);\n                ap->reqSizeB = 0;\n#ifdef MP_SUPPORT\n              /* check again to insure that we have sufficient space */\n                gcLevel = -1;", "                    InvokeGCWithRoots (msp, gcLevel, &root, NIL(ml_val_t *));\n                ACQUIRE_LOCK(MP_GCGenLock);\n                ap->reqSizeB = 0;\n#ifdef MP_SUPPORT\n              /* check again to insure that we have sufficient space */\n                gcLevel = -1;"),
 ("C01-vec-sweep", "C01", G + "ml-objects.c", "            ap->nextw += len;\n            ap->sweep_nextw = ap->nextw;\n        END_CRITICAL_SECT(MP_GCGenLock)\n        CNTR_INCR(&msp->ml_heap->numAlloc1, szb);\n        COUNT_ALLOC(msp, szb);\n    }\n    else {\n        ML_AllocWrite (msp, 0, desc);\n        res = ML_Alloc (msp, len);\n    }\n\n    for (\n", "            ap->nextw += len;\n        END_CRITICAL_SECT(MP_GCGenLock)\n        CNTR_INCR(&msp->ml_heap->numAlloc1, szb);\n        COUNT_ALLOC(msp, szb);\n    }\n    else {\n        ML_AllocWrite (msp, 0, desc);\n        res = ML_Alloc (msp, len);\n    }\n\n    for (\n"),
 ("C01-flip-req", "C01", G + "flip.c", "	    minSz = prevOldSz[j] + thisMinSz + ap->reqSizeB;", "	    minSz = prevOldSz[j] + thisMinSz;"),
 ("C01-flip-young", "C01", G + "flip.c", "		thisMinSz = ((Addr_t)(ap->frspTop) - (Addr_t)(ap->oldTop));", "		thisMinSz = ((Addr_t)(ap->frspTop) - (Addr_t)(ap->oldTop)) / 2;"),
 ("C01-trim", "C01", G + "major-gc.c", "		minSzB += (USED_SPACE(ap) + ap->reqSizeB);", "		minSzB = (USED_SPACE(ap) + ap->reqSizeB);"),
 ("C01-dirty-size", "C01", G + "gc-util.c", "    gen->dirty->numCards = vecSz;", "    gen->dirty->numCards = vecSz & ~7;"),
 ("C01-dirty-memset", "C01", G + "gc-util.c", "#ifndef BIT_CARDS\n    memset (gen->dirty->map, CARD_CLEAN, allocSzB - (sizeof(card_map_t) - WORD_SZB));", "#ifndef BIT_CARDS\n    memset (gen->dirty->map, CARD_CLEAN, (ap->tospSizeB / CARD_SZB) / 2);"),
 ("C01-oldtop", "C01", G + "major-gc.c", "		    g->arena[j]->oldTop = g->arena[j]->tospBase;", "		    g->arena[j]->oldTop = g->arena[j]->nextw;"),
 ("C01-root-pc", "C01", G + "call-gc.c", "	*rootsPtr++ = &(msp->ml_linkReg);\n	*rootsPtr++ = &(msp->ml_pc);", "	*rootsPtr++ = &(msp->ml_linkReg);"),
 ("C01-root-linkreg", "C01", G + "call-gc.c", "#else /* !MP_SUPPORT */\n    *rootsPtr++ = &(msp->ml_linkReg);\n", "#else /* !MP_SUPPORT */\n"),
 ("C01-root-cs2", "C01", G + "call-gc.c", "    *rootsPtr++ = &(msp->ml_calleeSave[2]);\n#endif /* MP_SUPPORT */\n    *rootsPtr = NIL(ml_val_t *);\n\n    MinorGC (msp, roots);\n\n    heap = msp->ml_heap;\n\n  /* Check for major GC */\n    if (level == 0) {\n	gen_t	*gen1 = heap->gen[0];\n	Word_t	sz = msp->ml_allocArenaSzB;\n\n	for (i = 0;  i < NUM_ARENAS;  i++) {\n	    arena_t *arena = gen1->arena[i];\n	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz)) {\n		level = 1;\n		break;\n	    }\n	}\n    }\n\n    if (level > 0) {\n#ifdef MP_SUPPORT\n	vproc_state_t   *vsp;\n\n	for", "#endif /* MP_SUPPORT */\n    *rootsPtr = NIL(ml_val_t *);\n\n    MinorGC (msp, roots);\n\n    heap = msp->ml_heap;\n\n  /* Check for major GC */\n    if (level == 0) {\n	gen_t	*gen1 = heap->gen[0];\n	Word_t	sz = msp->ml_allocArenaSzB;\n\n	for (i = 0;  i < NUM_ARENAS;  i++) {\n	    arena_t *arena = gen1->arena[i];\n	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz)) {\n		level = 1;\n		break;\n	    }\n	}\n    }\n\n    if (level > 0) {\n#ifdef MP_SUPPORT\n	vproc_state_t   *vsp;\n\n	for"),
 ("C01-first-avail", "C01", G + "call-gc.c", "	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz)) {\n		level = 1;\n		break;\n	    }\n	}\n    }\n\n    if (level > 0) {\n#ifdef MP_SUPPORT\n	vproc_state_t   *vsp;\n	ml_state_t	*msp;\n", "	    if (isACTIVE(arena) && (AVAIL_SPACE(arena) < sz/4)) {\n		level = 1;\n		break;\n	    }\n	}\n    }\n\n    if (level > 0) {\n#ifdef MP_SUPPORT\n	vproc_state_t   *vsp;\n	ml_state_t	*msp;\n"),
 ("C01-unmap", "C01", G + "gc-util.c", "            MarkRegion (BIBOP, ap->frspBase, ap->frspSizeB, AID_UNMAPPED);\n            HeapMon_MarkRegion (heap, ap->frspBase", "            HeapMon_MarkRegion (heap, ap->frspBase"),
 ("C01-cache", "C01", G + "gc-util.c", "(MEMOBJ_SZB(gen->cacheObj) >= tot_sz)", "(MEMOBJ_SZB(gen->cacheObj) + BIBOP_PAGE_SZB >= tot_sz)"),
 ("C01-strlist-root", "C01", G + "ml-objects.c", "                InvokeGCWithRoots (msp, 1, &p, NIL(ml_val_t *));\n                ap->reqSizeB = 0;\n            }\n        }\n        s =", "                InvokeGC (msp, 1);\n                ap->reqSizeB = 0;\n            }\n        }\n        s ="),
 ("C01-sysconst", "C01", G + "ml-objects.c", "        availSpace -= reqSpace;\n", ""),
 ("C01-shrink", "C01", G + "ml-objects.c", "        msp->ml_allocPtr -= (oldNWords - nWords);", "        msp->ml_allocPtr -= (oldNWords - nWords) + (nWords == 3);"),
 ("C01-real64", "C01", G + "ml-objects.c", "    ml_val_t    desc = MAKE_DESC(nwords, DTAG_raw64);", "    ml_val_t    desc = MAKE_DESC((nwords > 600 ? nwords-1 : nwords), DTAG_raw64);"),
 ("C05-next-pending", "C05", D + "signal-util.c", "    vsp->vp_nextPendingSig = i;\n\n  /* record the signal and count */\n", "\n  /* record the signal and count */\n"),
 ("C05-count", "C05", D + "signal-util.c", "    vsp->vp_sigCounts[i].nHandled += delta;\n    vsp->vp_totalSigCount.nHandled += delta;\n\n#ifdef", "    vsp->vp_sigCounts[i].nHandled = vsp->vp_sigCounts[i].nReceived;\n    vsp->vp_totalSigCount.nHandled += delta;\n\n#ifdef"),
 ("C05-total", "C05", D + "signal-util.c", "    vsp->vp_sigCounts[i].nHandled += delta;\n    vsp->vp_totalSigCount.nHandled += delta;\n\n#ifdef", "    vsp->vp_sigCounts[i].nHandled += delta;\n    vsp->vp_totalSigCount.nHandled = vsp->vp_totalSigCount.nReceived;\n\n#ifdef"),
 ("C05-mask-wrap", "C05", D + "unix-signal.c", "	    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {\n		SIG_AddToMask(mask, SigInfo[i].id);\n	    }\n", "	    for (i = 1;  i < NUM_SYSTEM_SIGS;  i++) {\n		SIG_AddToMask(mask, SigInfo[i].id);\n	    }\n"),
 ("C05-inml", "C05", D + "unix-signal.c", "    vsp->vp_limitPtrMask = 0;\n\n    if (vsp->vp_inMLFlag && (! vsp->vp_handlerPending) && (! vsp->vp_inSigHandler)) {\n	vsp->vp_handlerPending = TRUE;\n#ifdef USE_ZERO_LIMIT_PTR_FN\n	SIG_SavePC(vsp->vp_state, scp);\n	SIG_SetPC(scp, ZeroLimitPtr);\n#else /* we can adjust the heap limit directly */\n	SIG_ZeroLimitPtr(scp);\n#endif\n    }\n\n} /* end of CSigHandler */\n\n#else", "    if (vsp->vp_inMLFlag && (! vsp->vp_handlerPending) && (! vsp->vp_inSigHandler)) {\n	vsp->vp_handlerPending = TRUE;\n#ifdef USE_ZERO_LIMIT_PTR_FN\n	SIG_SavePC(vsp->vp_state, scp);\n	SIG_SetPC(scp, ZeroLimitPtr);\n#else /* we can adjust the heap limit directly */\n	SIG_ZeroLimitPtr(scp);\n#endif\n    }\n\n} /* end of CSigHandler */\n\n#else"),
 ("C05-in-handler", "C05", D + "unix-signal.c", "    vsp->vp_limitPtrMask = 0;\n\n    if (vsp->vp_inMLFlag && (! vsp->vp_handlerPending) && (! vsp->vp_inSigHandler)) {\n	vsp->vp_handlerPending = TRUE;\n#ifdef USE_ZERO_LIMIT_PTR_FN\n	SIG_SavePC(vsp->vp_state, scp);\n	SIG_SetPC(scp, ZeroLimitPtr);\n#else /* we can adjust the heap limit directly */\n	SIG_ZeroLimitPtr(scp);\n#endif\n    }\n\n} /* end of CSigHandler */\n\n#else", "    vsp->vp_limitPtrMask = 0;\n\n    if (vsp->vp_inMLFlag && (! vsp->vp_handlerPending)) {\n	vsp->vp_handlerPending = TRUE;\n#ifdef USE_ZERO_LIMIT_PTR_FN\n	SIG_SavePC(vsp->vp_state, scp);\n	SIG_SetPC(scp, ZeroLimitPtr);\n#else /* we can adjust the heap limit directly */\n	SIG_ZeroLimitPtr(scp);\n#endif\n    }\n\n} /* end of CSigHandler */\n\n#else"),
 ("C05-default-ignore", "C05", D + "unix-signal.c", "	    if (handler == SIG_IGN)\n		return ML_SIG_IGNORE;\n	    else if (handler == SIG_DFL)\n		return ML_SIG_DEFAULT;", "	    if ((handler == SIG_IGN) || (handler == SIG_DFL))\n		return ML_SIG_IGNORE;"),
 ("C05-gc-threshold", "C05", D + "signal-util.c", "(nGen < vsp->vp_gcSigThreshold)", "(nGen <= vsp->vp_gcSigThreshold)"),
 ("C06-exncont", "C06", D + "signal-util.c", "    msp->ml_exnCont		= contClosure[6];\n", ""),
 ("C06-arg", "C06", D + "signal-util.c", "    ML_AllocWrite(msp,  5, msp->ml_linkReg);", "    ML_AllocWrite(msp,  5, msp->ml_pc);"),
 ("C06-cs2", "C06", D + "signal-util.c", "    msp->ml_calleeSave[2]	= contClosure[9];", "    msp->ml_calleeSave[2]	= contClosure[8];"),
 ("C06-alloc-desc", "C06", D + "signal-util.c", "MAKE_DESC(10, DTAG_record)", "MAKE_DESC(9, DTAG_record)"),
 ("C06-needgc", "C06", K + "run-ml.c", "                if (NeedGC (msp, ONE_K*WORD_SZB)) {\n                    InvokeGC (msp, 0);\n                }\n              /* invoke the ML signal handler */", "              /* invoke the ML signal handler */"),
 ("C06-handler-root", "C06", K + "run-ml.c", "                vsp->vp_inSigHandler    = TRUE;\n                vsp->vp_handlerPending  = FALSE;", "                vsp->vp_inSigHandler    = TRUE;"),
 ("C02-pair-null", "C02", G + "gc-util.c", "            else {\n                p[0] = DESC_null_weak;\n                p[1] = ML_unit;\n/* SayDebug (\"(pair)", "            else {\n                p[0] = DESC_weak;\n                p[1] = ML_unit;\n/* SayDebug (\"(pair)"),
 ("C02-list-tail", "C02", G + "gc-util.c", "    heap->weakList = NIL(ml_val_t *);\n\n} /* end of ScanWeakPtrs */", "\n} /* end of ScanWeakPtrs */"),
 ("C02-major-fwd", "C02", G + "major-gc.c", "			    gen->heap->weakList = new_obj++;\n			    *new_obj = MARK_PTR(vp);\n			}\n			break;\n		      case OBJC_pair", "			    new_obj++;\n			    *new_obj = MARK_PTR(vp);\n			}\n			break;\n		      case OBJC_pair"),
 ("C02-major-strong", "C02", G + "major-gc.c", "			if (isDESC(desc = vp[0])) {\n			  /* Reference to a pair that has", "			if (isDESC(desc = vp[0]) || (EXTRACT_GEN(aid) > 2)) {\n			  /* Reference to a pair that has"),
 ("C02-older", "C02", G + "minor-gc.c", "		if (aid == AID_NEW) {\n		    if (vp[-1] == DESC_forwarded) {", "		if (aid == AID_NEW) {\n		    if (vp[-1] != DESC_forwarded) {"),
 ("C02-nullcopy", "C02", G + "major-gc.c", "      case SPCL_null_weak:\n	*new_obj++ = desc;\n	*new_obj = *obj;\n	break;", "      case SPCL_null_weak:\n	*new_obj++ = MAKE_DESC(GET_LEN(desc) & ~1, DTAG_special);\n	*new_obj = *obj;\n	break;"),
 ("C02-array-obj", "C02", G + "gc-util.c", "          case OBJC_string:\n          case OBJC_array:\n            desc = obj[-1];\n            if (desc == DESC_forwarded) {\n                p[0] = DESC_weak;", "          case OBJC_string:\n          case OBJC_array:\n            desc = obj[-1];\n            if (desc == DESC_forwarded && obj[0] != ML_unit) {\n                p[0] = DESC_weak;"),
 ("C04-addroff", "C04", G + "import-heap.c", "                    if (((indx) == ARRAY_INDX) && (__gg < i)) {                 \\\n", "                    if (((indx) == ARRAY_INDX) && (__gg < i-1)) {               \\\n"),
 ("C04-cs2", "C04", G + "import-heap.c", "        msp->ml_calleeSave[2]   = image.calleeSave[2];\n", "        msp->ml_calleeSave[2]   = image.calleeSave[1];\n"),
 ("C04-varreg", "C04", G + "import-heap.c", "    msp->ml_varReg = RepairWord (\n        msp->ml_varReg, oldBIBOP, addrOffset, boRegionTbl, externs);\n", ""),
 ("C04-varreg2", "C04", G + "import-heap.c", "        msp->ml_varReg          = image.varReg;\n", "        msp->ml_varReg          = ML_unit;\n"),
 ("C04-repair-pair", "C04", G + "export-heap.c", "	RepairArena(RECORD_INDX);\n	RepairArena(PAIR_INDX);\n", "	RepairArena(RECORD_INDX);\n"),
 ("C04-patch-arr", "C04", G + "export-heap.c", "	PatchArena(ARRAY_INDX);\n", ""),
 ("C04-oldtop", "C04", G + "import-heap.c", "                ap->oldTop      = ap->tospBase;\n", "                ap->oldTop      = ap->nextw;\n"),
 ("C04-bogen", "C04", G + "import-heap.c", "    newObj->gen         = objHdr->gen;\n", "    newObj->gen         = 1;\n"),
 ("C04-bostate", "C04", G + "import-heap.c", "    newObj->state       = BO_YOUNG;\n", "    newObj->state       = BO_OLD;\n"),
 ("C04-bosize", "C04", G + "import-heap.c", "    newObj->sizeB       = objHdr->sizeB;\n", "    newObj->sizeB       = totSzB;\n"),
 ("C04-bofree", "C04", G + "import-heap.c", "                    AddBODesc (heap->freeBigObjs, freeObj);\n", "                    ;\n"),
 ("C04-nfree", "C04", G + "import-heap.c", "    region->nFree       -= npages;\n", "    region->nFree       -= (npages > 1) ? npages-1 : npages;\n"),
 ("C04-mingen", "C04", G + "import-heap.c", "                freeRegion->minGen = i;\n", "                freeRegion->minGen = hdr->numGens;\n"),
 ("C04-aid", "C04", G + "import-heap.c", "                    MEMOBJ_SZB(freeRegion->memObj), AID_BIGOBJ(i));\n", "                    MEMOBJ_SZB(freeRegion->memObj), AID_BIGOBJ(hdr->numGens));\n"),
 ("C04-sweep", "C04", G + "import-heap.c", "            if (isACTIVE(ap))\n                ap->sweep_nextw = ap->nextw;\n", "            ap->sweep_nextw = ap->tospBase;\n"),
 ("C04-errflg", "C04", G + "writer.c", "    if (fwrite(data, 1, nbytes, f) != nbytes) {\n", "    if (fwrite(data, 1, nbytes, f) == 0) {\n"),
 ("C04-wrerr", "C04", G + "export-heap.c", "		WR_Write(wr, (void *)(p->info.o.baseAddr), p->info.o.sizeB);\n		if (WR_Error(wr)) {\n		    FREE (arenaHdrs);\n		    return FAILURE;\n		}\n", "		WR_Write(wr, (void *)(p->info.o.baseAddr), p->info.o.sizeB);\n"),
 ("C04-readblk", "C04", G + "heap-in-util.c", "	    Error (\"unable to read %d bytes from image\\n\", len);\n	    return FAILURE;\n", "	    Error (\"unable to read %d bytes from image\\n\", len);\n	    break;\n"),
 ("C04-readshort", "C04", G + "heap-in-util.c", "    while (len > 0) {\n	sts = fread (bp, 1, len, file);\n", "    if (len > 0) {\n	sts = fread (bp, 1, len, file);\n"),
 ("C04-nogc", "C04", G + "export-heap.c", "    InvokeGC (msp, 0);  /* minor collection */\n    InvokeGC (msp, MAX_NGENS);\n", "    InvokeGC (msp, 0);  /* minor collection */\n"),
 ("C04-export-sts", "C04", L + "smlnj-runtime/export-heap.c", "    if (sts == SUCCESS)\n	return ML_false;\n", "    if (sts == SUCCESS || ferror(file))\n	return ML_false;\n"),
 ("C04-pairpad", "C04", G + "import-heap.c", "                sz += 2*WORD_SZB;\n", "                sz += 0;\n"),
 ("C04-prevsz", "C04", G + "import-heap.c", "            sz = q->info.o.sizeB + prevSzB[j];\n", "            sz = q->info.o.sizeB;\n"),
 ("C04-boseek", "C04", G + "export-heap.c", "	    p->info.o.roundedSzB    = ROUNDUP(p->info.o.sizeB, pagesize);\n", "	    p->info.o.roundedSzB    = p->info.o.sizeB & ~7;\n"),
 # --- C20
 ("C20-recvbuf-off", "C20", L + "smlnj-sockets/recvbuf.c", "char	*start = STR_MLtoC(buf) + REC_SELINT(arg, 2);", "char	*start = STR_MLtoC(buf);"),
 ("C20-sendbuf-off", "C20", L + "smlnj-sockets/sendbuf.c", "STR_MLtoC(buf) + REC_SELINT(arg, 2)", "STR_MLtoC(buf) + (REC_SELINT(arg, 2) & 0xffff)"),
 ("C20-sendbufto-flag", "C20", L + "smlnj-sockets/sendbufto.c", "if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_DONTROUTE;", "if (REC_SEL(arg, 5) == ML_true) flgs = MSG_DONTROUTE;"),
 ("C20-recvbuffrom-peek", "C20", L + "smlnj-sockets/recvbuffrom.c", "if (REC_SEL(arg, 5) == ML_true) flag |= MSG_PEEK;", "else if (REC_SEL(arg, 5) == ML_true) flag |= MSG_PEEK;"),
 ("C20-accept-len", "C20", L + "smlnj-sockets/accept.c", "SEQHDR_ALLOC(msp, addr, DESC_word8vec, data, addrLen);", "SEQHDR_ALLOC(msp, addr, DESC_word8vec, data, (addrLen > 16) ? 16 : addrLen);"),
 ('C20-peer-len', 'C20', 'base/runtime/c-libs/smlnj-sockets/getpeername.c', '    socklen_t\t    addrLen = MAX_SOCK_ADDR_SZB;', '    socklen_t\t    addrLen = sizeof(struct sockaddr);'),
 ("C20-sockname-len", "C20", L + "smlnj-sockets/getsockname.c", "socklen_t	addrLen = MAX_SOCK_ADDR_SZB;", "socklen_t	addrLen = 28;"),
 ("C20-linger-get", "C20", L + "smlnj-sockets/ctlLINGER.c", "else if (optVal.l_onoff == 0)", "else if (optVal.l_onoff == 0 || optVal.l_linger == 0)"),
 ("C20-flag-get", "C20", L + "smlnj-sockets/util-sockopt.c", "return (flg ? ML_true : ML_false);", "return ((flg == 1) ? ML_true : ML_false);"),
 ("C20-servport", "C20", L + "smlnj-sockets/util-mkservent.c", "ntohs(sentry->s_port)", "(short)ntohs(sentry->s_port)"),
 ("C20-port", "C20", L + "smlnj-sockets/from-inetaddr.c", "ntohs(", "(short)ntohs("),
 ("C20-poll-err", "C20", L + "posix-os/poll.c", "	    if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))\n", "	    else if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))\n"),
 ("C20-poll-max", "C20", L + "posix-os/poll.c", "	if (fd > maxFD) maxFD = fd;", "	maxFD = fd;"),
 ("C20-poll-tmo", "C20", L + "posix-os/poll.c", "	tv.tv_usec	= REC_SELINT(timeout, 1);", "	tv.tv_usec	= REC_SELINT(timeout, 1) / 1000 * 1000;"),
 ('C20-poll-zero', 'C20', 'base/runtime/c-libs/posix-os/poll.c', '\t\tFD_ZERO(wfds);\n\t    }\n\t    FD_SET (fd, wfds);', '\t\tFD_ZERO(wfds);\n\t    }\n\t    if (fd < 256) FD_SET (fd, wfds);'),
 ("C20-readbuf-off", "C20", L + "posix-io/readbuf.c", "STR_MLtoC(buf) + REC_SELINT(arg, 3);", "STR_MLtoC(buf) + (nbytes ? REC_SELINT(arg, 3) & ~7 : 0);"),
 ("C20-writebuf-off", "C20", L + "posix-io/writebuf.c", "STR_MLtoC(start) + REC_SELINT(arg, 3);", "STR_MLtoC(start) + ((nbytes > 4096) ? 0 : REC_SELINT(arg, 3));"),
 ("C20-lock-len", "C20", L + "posix-io/fcntl_l.c", "INT64_ALLOC(msp, length, flock.l_len)", "INT64_ALLOC(msp, length, (int)flock.l_len)"),
 ("C20-lock-whence", "C20", L + "posix-io/fcntl_l.c", "    ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));", "    ML_AllocWrite (msp, 2, REC_SEL(flock_rep, 1));"),
 ("C20-lseek32", "C20", L + "posix-io/lseek.c", "(off_t)INT64_MLtoC(box_offset)", "(off_t)(unsigned int)INT64_MLtoC(box_offset)"),
 ("C20-dup-min", "C20", L + "posix-io/fcntl_d.c", "F_DUPFD", "F_DUPFD_CLOEXEC"),
 ("C20-sfl", "C20", L + "posix-io/fcntl_sfl.c", "F_SETFL", "F_SETFD"),
 ("C20-unixaddr", "C20", L + "smlnj-sockets/from-unixaddr.c", "return ML_CString(msp, addr->sun_path);", "return ML_CString(msp, addr->sun_path + (addr->sun_path[0] == '/' && addr->sun_path[1] == '/'));"),
 ("C20-servproto", "C20", L + "smlnj-sockets/getservbyname.c", "proto = STR_MLtoC(OPTION_get(mlProto));", "proto = NIL(char *);"),
 ("C20-protonum", "C20", L + "smlnj-sockets/getprotbyname.c", "INT_CtoML(pentry->p_proto)", "INT_CtoML(pentry->p_proto & 0x7f)"),
 ("C20-nread", "C20", L + "smlnj-sockets/getNREAD.c", "INT_CtoML(n)", "INT_CtoML((short)n)"),
 ("C20-hostalias", "C20", L + "smlnj-sockets/util-mkhostent.c", "hentry->h_aliases", "hentry->h_aliases + (hentry->h_aliases[0] && hentry->h_aliases[1])"),
 # --- C22
 ("C22-termsig", "C22", L + "posix-process/waitpid.c", "val = WTERMSIG(status);", "val = status & 0xff;"),
 ("C22-stopsig", "C22", L + "posix-process/waitpid.c", "val = WSTOPSIG(status);", "val = WSTOPSIG(status) & 0x1f;"),
 ("C22-exitsts", "C22", L + "posix-process/waitpid.c", "val = WEXITSTATUS(status);", "val = WEXITSTATUS(status) & 0x7f;"),
 ("C22-order", "C22", L + "posix-process/waitpid.c", "    else if (WIFSIGNALED(status)) {", "    else if (! WIFSTOPPED(status) || WSTOPSIG(status) == 5) {"),
 ("C22-env", "C22", L + "posix-process/exece.c", "    envp = cp;\n", "    envp = (envlst == LIST_nil) ? environ : cp;\n"),
 ("C22-argv0", "C22", L + "posix-process/execp.c", "    for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {\n        *cp++ = STR_MLtoC(LIST_hd(p));", "    for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {\n        if (cp == argv || *STR_MLtoC(LIST_hd(p))) *cp++ = STR_MLtoC(LIST_hd(p));"),
 ("C22-execvp", "C22", L + "posix-process/exec.c", "execv(STR_MLtoC(path), argv)", "execvp(STR_MLtoC(path), argv)"),
 ("C22-kill", "C22", L + "posix-process/kill.c", "kill(REC_SELINT(arg, 0),REC_SELINT(arg, 1))", "kill(REC_SELINT(arg, 0) < -1 ? -REC_SELINT(arg, 0) : REC_SELINT(arg, 0),REC_SELINT(arg, 1))"),
 # --- C23
 ("C23-stat-uid", "C23", L + "posix-filesys/stat.c", "(Word_t)(buf->st_uid)", "(Word_t)(int)(buf->st_uid)"),
 ("C23-stat-ino", "C23", L + "posix-filesys/stat.c", "SYSWORD_ALLOC (msp, ino, (Word_t)(buf->st_ino));", "SYSWORD_ALLOC (msp, ino, (Word_t)(Unsigned32_t)(buf->st_ino));"),
 ("C23-stat-mode", "C23", L + "posix-filesys/stat.c", "S_IRWXO | S_ISUID | S_ISGID)", "S_IRWXO | S_ISUID)"),
 ("C23-stat-nsec", "C23", L + "posix-filesys/stat.c", "    mTim = timespec_to_ns (&buf->st_mtim);\n    cTim = timespec_to_ns (&buf->st_ctim);\n#endif", "    mTim = timespec_to_ns (&buf->st_mtim);\n    cTim = NS_PER_SEC * (Unsigned64_t)buf->st_ctime;\n#endif"),
 ("C23-lstat", "C23", L + "posix-filesys/stat.c", "    sts = lstat(path, &buf);", "    sts = (path[strlen(path)-1] == '/') ? stat(path, &buf) : lstat(path, &buf);"),
 ("C23-utime", "C23", L + "posix-filesys/utime.c", "	us = modtime / 1000;			/* convert to microseconds */\n	times[1].tv_usec = us % 1000000;", "	times[1].tv_usec = us % 1000000;\n	us = modtime / 1000;			/* convert to microseconds */"),
 ("C23-getcwd", "C23", L + "posix-filesys/getcwd.c", "    while ((sts = getcwd(buf, buflen)) == NIL(char *)) {\n        FREE (buf);\n        if (errno != ERANGE)", "    while ((sts = getcwd(buf, buflen)) == NIL(char *)) {\n        FREE (buf);\n        if (buflen > 4*MAXPATHLEN)"),
 ("C23-readdir", "C23", L + "posix-filesys/readdir.c", "((cp[1] == '.') && (cp[2] == '\\0'))", "(cp[1] == '.')"),
 ("C23-readdir-errno", "C23", L + "posix-filesys/readdir.c", "	errno = 0;\n	dirent", "	dirent"),
 ("C23-readlink", "C23", L + "posix-filesys/readlink.c", "    len = readlink(path, buf, MAXPATHLEN);", "    len = readlink(path, buf, 1024);"),
 ("C23-times", "C23", L + "posix-procenv/times.c", "REC_ALLOC5(msp, v, e, u, s, cu, cs);", "REC_ALLOC5(msp, v, e, u, s, cs, cu);"),
 ("C23-tcset-speed", "C23", L + "posix-tty/tcsetattr.c", "    tmp = REC_SEL(termio_rep, 6);", "    tmp = REC_SEL(termio_rep, 5);"),
 ("C23-tcset-cc", "C23", L + "posix-tty/tcsetattr.c", "REC_SEL(termio_rep, 4)), NCCS);", "REC_SEL(termio_rep, 4)), NCCS-1);"),
 ("C23-tcget-cc", "C23", L + "posix-tty/tcgetattr.c", "data.c_cc, NCCS);", "data.c_cc, NCCS-1);"),
 ("C23-pwgid", "C23", L + "posix-sysdb/getpwuid.c", "(Word_t)(info->pw_gid)", "(Word_t)(info->pw_uid)"),
 ('C23-grmem', 'C23', 'base/runtime/c-libs/posix-sysdb/getgrgid.c', '(SysWord_t)(info->gr_gid)', '(SysWord_t)(int)(info->gr_gid)'),
 ("C23-strftime-dst", "C23", L + "smlnj-date/strftime.c", "tm.tm_yday	= REC_SELINT(date, 7);", "tm.tm_yday	= REC_SELINT(date, 7) - 1;"),
 ("C23-strftime-wday", "C23", L + "smlnj-date/strftime.c", "tm.tm_wday	= REC_SELINT(date, 6);", "tm.tm_wday	= REC_SELINT(date, 6) % 6;"),
 ("C23-mktime-dst", "C23", L + "smlnj-date/mktime.c", "    tm.tm_isdst	= REC_SELINT(arg, 8);\n\n    t = mktime", "    tm.tm_isdst	= 0;\n\n    t = mktime"),
 ("C23-offset-dst", "C23", L + "smlnj-date/localoffset.c", "    tmbuf.tm_isdst = isDST;", "    tmbuf.tm_isdst = isDST & 0;"),
 ("C23-chown", "C23", L + "posix-filesys/chown.c", "gid_t           gid = REC_SELWORD(arg, 2);", "gid_t           gid = (unsigned short)REC_SELWORD(arg, 2);"),
 ("C23-uname", "C23", L + "posix-procenv/uname.c", "s = ML_CString(msp, name.nodename);", "s = ML_CString(msp, name.sysname);"),
 ("C23-pathconf", "C23", L + "posix-filesys/pathconf.c", "    while (((val = fpathconf (fd, attr->val)) == -1) && (errno == EINTR)) {", "    while (((val = fpathconf (fd, attr->val)) == -1) && (errno != 0)) {\n        if (errno != EINTR) break;"),
 ("C23-sysconf", "C23", L + "posix-procenv/sysconf.c", "    if (val >= 0) {", "    if (val > 0) {"),
 ('C23-environ', 'C23', 'base/runtime/c-libs/posix-procenv/environ.c', 'ML_CStringList (msp, environ)', 'ML_CStringList (msp, environ[0] ? environ+1 : environ)'),
 ('C23-getenv', 'C23', 'base/runtime/c-libs/posix-procenv/getenv.c', 'if (sts == NIL(char *))', 'if (sts == NIL(char *) || *sts == 0)'),
 ("C23-setpgid", "C23", L + "posix-procenv/setpgid.c", "setpgid(REC_SELINT(arg, 0),REC_SELINT(arg, 1))", "setpgid(REC_SELINT(arg, 0),REC_SELINT(arg, 0))"),
 ("C23-winsz", "C23", L + "posix-tty/getwinsz.c", "INT_CtoML(wsz.ws_row), INT_CtoML(wsz.ws_col)", "INT_CtoML((short)wsz.ws_row), INT_CtoML(wsz.ws_col)"),
 ('C23-cstring-pad', 'C23', 'base/runtime/gc/ml-objects.c', '        PTR_MLtoC(Word_t, res)[n-1] = 0;', ';'),
 ("C23-tmpname", "C23", L + "posix-filesys/access.c", "(sts == 0)", "(sts != -1 || errno == EROFS)"),
 ("C03-min-prev", "C03", G + "flip.c", "	    minSize[j] = minSz;", "	    minSize[j] = thisMinSz + ap->reqSizeB;"),
 ("C03-min-req", "C03", G + "flip.c", "	    minSize[j] = minSz;", "	    minSize[j] = minSz - ap->reqSizeB;"),
 ("C03-min-none", "C03", G + "flip.c", "	    if (NewGeneration(g) == FAILURE)\n		Die", "	    if ((NewGeneration(g) == FAILURE) && (i > 0))\n		Die"),
 ("C03-min-zero", "C03", G + "flip.c", "                    minSize[j] = 0;\n", ""),
 ("C03-retry", "C03", G + "flip.c", "	    for (j = 0;  j < NUM_ARENAS;  j++) {\n		g->arena[j]->tospSizeB = RND_MEMOBJ_SZB(minSize[j]);", "	    for (j = 0;  j < NUM_ARENAS;  j++) {\n		g->arena[j]->tospSizeB = minSize[j] & ~(BIBOP_PAGE_SZB-1);"),
 ("C03-cache", "C03", G + "gc-util.c", "    if ((gen->cacheObj != NIL(mem_obj_t *)) && (MEMOBJ_SZB(gen->cacheObj) >= tot_sz)) {", "    if ((gen->cacheObj != NIL(mem_obj_t *)) && (MEMOBJ_SZB(gen->cacheObj) >= tot_sz/2)) {"),
 ("C03-bo-die", "C03", G + "big-objects.c", "    if ((memObj = MEM_AllocMemObj (memObjSzB)) == NIL(mem_obj_t *)) {\n	Die (\"unable to allocate memory object for bigobject region\");\n    }", "    if ((memObj = MEM_AllocMemObj (memObjSzB)) == NIL(mem_obj_t *)) {\n	Error (\"unable to allocate memory object for bigobject region\");\n	memObj = heap->bigRegions->memObj;\n    }"),
 ("C03-map", "C03", "base/runtime/memory/mem-mmap.c", "    if (addr == -1) {", "    if (addr == -1 && errno == ENOMEM) {"),
 ("C03-memobj", "C03", "base/runtime/memory/mem-common.ins", "    if (MapMemory (obj, alloc_szb) == FAILURE) {\n	FREE_MEMOBJ (obj);\n	return NIL(mem_obj_t *);\n    }", "    if (MapMemory (obj, alloc_szb) == FAILURE) {\n	FREE_MEMOBJ (obj);\n	if (szb > BIBOP_PAGE_SZB) return NIL(mem_obj_t *);\n    }"),
 ("C03-exit", "C03", K + "error.c", "    Exit (1);", "    Exit (0);"),
 ("C03-import", "C03", G + "import-heap.c", "        if (NewGeneration(gen) == FAILURE) {\n", "        if (NewGeneration(gen) == FAILURE && i == 0) {\n"),
 ("C03-l2", "C03", G + "gc-util.c", "                l2Tbl = NEW_OBJ(l2_bibop_t);", "                l2Tbl = (l2_bibop_t *)MALLOC(sizeof(l2_bibop_t));"),
 ("C07-itv-usec", "C07", L + "smlnj-runtime/setitimer.c", "= t % 1000000;", "= (t % 1000000) & ~0x3f;"),
 ("C07-itv-sec", "C07", L + "smlnj-runtime/setitimer.c", "	new_itv.it_interval.tv_sec	=\n	new_itv.it_value.tv_sec		= t / 1000000;", "	new_itv.it_interval.tv_sec	= 0;\n	new_itv.it_value.tv_sec		= t / 1000000;"),
 ("C07-itv-off", "C07", L + "smlnj-runtime/setitimer.c", "	new_itv.it_value.tv_usec	= 0;", "	new_itv.it_value.tv_usec	= 0;\n	getitimer (ITIMER_REAL, &new_itv); new_itv.it_interval.tv_sec = new_itv.it_interval.tv_usec = 0;"),
 ("C07-sleep-ns", "C07", L + "posix-process/sleep.c", "    sleepTime.tv_nsec = (long)(t % NS_PER_SEC);", "    sleepTime.tv_nsec = (long)(t % NS_PER_SEC) / 1000;"),
 ("C07-sleep-rem", "C07", L + "posix-process/sleep.c", "	    + (Unsigned64_t)remainingTime.tv_nsec;", "	    + (Unsigned64_t)sleepTime.tv_nsec;"),
 ("C07-sleep-int", "C07", L + "posix-process/sleep.c", "	t = NS_PER_SEC * (Unsigned64_t)remainingTime.tv_sec\n", "	t = NS_PER_SEC * (Unsigned64_t)(remainingTime.tv_sec + (sleepTime.tv_sec > 0))\n"),
 ("C07-alarm", "C07", L + "posix-process/alarm.c", "NS_PER_SEC * (Unsigned64_t)t);", "NS_PER_SEC * (Unsigned64_t)(t ? t-1 : 0));"),
 ("C07-latch", "C07", K + "unix-timers.c", "	if ((usrT->seconds == lastU.seconds) && (usrT->uSeconds < lastU.uSeconds))\n	    usrT->uSeconds = lastU.uSeconds;", "	if (usrT->uSeconds < lastU.uSeconds)\n	    usrT->uSeconds = lastU.uSeconds;"),
 ("C07-gctime", "C07", K + "timers.c", "    gt->seconds = sec;\n    gt->uSeconds = usec;", "    gt->seconds = sec;\n    gt->uSeconds = usec;\n    *gt0 = t1;\n    if (sec == 0) gt->uSeconds = usec / 2;"),
 ("C07-gcborrow", "C07", K + "timers.c", "    usec = gt->uSeconds + usec;\n    if (usec < 0) {\n	sec--; usec += 1000000;\n    }", "    usec = gt->uSeconds + usec;\n    if (usec < 0) {\n	usec += 1000000;\n    }"),
 ("C07-tod", "C07", L + "smlnj-time/timeofday.c", "    return ML_AllocNanoseconds(msp, t.tv_sec, t.tv_usec);", "    return ML_AllocNanoseconds(msp, t.tv_sec, t.tv_usec & ~0xfff);"),
]
import mutants_sml
M += mutants_sml.M
