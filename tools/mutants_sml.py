"""mutants of the SML sources (CML, Basis IO); appended to mutants.M"""
C = "cml/src/core-cml/"
M = [
 ("C10-reorder", "C10", C + "channel.sml", "rear := item :: cleanAll(! rear))", "rear := item :: cleanRev(! rear, []))"),
 ("C10-poll-tid", "C10", C + "channel.sml", "SOME(callcc (fn recvK => \n\t\tlet\n\t\tval myId = S.getCurThread()\n\t\tin\n\t\t  setCurThread transId;", "SOME(callcc (fn recvK => \n\t\tlet\n\t\tval myId = S.getCurThread()\n\t\tin\n\t\t  transId := R.CANCEL;"),
 ("C10-nocancel", "C10,C11", C + "channel.sml", "\t\t  S.enqueueAndSwitchCurThread(sendK, getIdFromTrans rid);\n\t\t  priority := 1;\n                  throw rkont msg));", "\t\t  S.enqueueAndSwitchCurThread(sendK, (case !rid of R.TRANS t => t));\n\t\t  priority := 1;\n                  throw rkont msg));"),
 ("C10-clean-rear", "C10", C + "channel.sml", "\t  and cleanRear [] = NoItem\n\t    | cleanRear r = (\n\t\trear := [];", "\t  and cleanRear [] = NoItem\n\t    | cleanRear r = ("),
 ("C10-switch", "C10,C13", C + "scheduler.sml", "\t\t    enqueue(tid, k');\n\t\t    enqueue(getCurThread(), curK);", "\t\t    enqueue(tid, k');"),
 ("C11-nested-nack", "C11", C + "event.sml", "(bl', allFlgs' @ allFlgs, (cvar, allFlgs') :: flgSets')", "(bl', allFlgs, (cvar, allFlgs') :: flgSets')"),
 ("C11-handler-guard", "C11", C + "event.sml", "GUARD(fn () => wrapHandler(g(), hfn))", "GUARD g"),
 ("C11-choose-lost", "C11", C + "event.sml", "\tand forceL" if False else "    | gather (CHOOSE evts :: r, evts') = gather (r, evts @ evts')", "    | gather (CHOOSE evts :: r, evts') = gather (r, evts @ (case evts' of [] => [] | x :: _ => [x]))"),
 ("C11-select-grp", "C11", C + "event.sml", "\t    | forceBL (evt::r, bevs') = (case (force' evt)\n\t\t       of (BASE_GRP bevs) => forceBL (r, bevs @ bevs')\n\t\t\t| (GRP grp) => forceL (r, grp @ [BASE_GRP bevs'])\n\t\t\t| grp => forceL (r, [grp, BASE_GRP bevs'])\n\t\t      (* end case *))\n\t  and forceL ([], [grp]) = grp", "\t    | forceBL (evt::r, bevs') = (case (force' evt)\n\t\t       of (BASE_GRP bevs) => forceBL (r, bevs @ bevs')\n\t\t\t| (GRP grp) => forceL (r, grp)\n\t\t\t| grp => forceL (r, [grp, BASE_GRP bevs'])\n\t\t      (* end case *))\n\t  and forceL ([], [grp]) = grp"),
 ("C11-cvar-cleanup", "C11", C + "event.sml", "\t\t      cleanUp();\n\t\t      (tid, kont) :: (add r))", "\t\t      (tid, kont) :: (add r))"),
 ("C11-nack-early", "C11", C + "event.sml", "\t\t  S.enqueueTmpThread (fn () => (\n\t\t    S.atomicBegin(); chkCVars (); S.atomicEnd()));\n\t\t  doFn()", "\t\t  chkCVars ();\n\t\t  doFn()"),
 ("C11-blocked-flag", "C11", C + "event.sml", "transId := R.CANCEL; flg := true; chkCVars())", "transId := R.CANCEL; chkCVars(); flg := true)"),
 ("C11-wrap-block", "C11", C + "event.sml", "BLOCKED(wrap blockFn)", "BLOCKED blockFn"),
 ("C12-mswap", "C12", C + "sync-var.sml", "\t\t(* relay the new value to any other blocked threads *)\n\t\t  relayMsg (readQ, newV);", "\t\t  relayMsg (readQ, v);"),
 ("C12-mswapevt", "C12", C + "sync-var.sml", "\t\t  cleanUp();\n\t\t  value := SOME newV;\n\t\t  relayMsg (readQ, newV);", "\t\t  cleanUp();\n\t\t  relayMsg (readQ, newV);"),
 ("C12-igetevt", "C12", C + "sync-var.sml", "\t\t  cleanUp();\n\t\t  relayMsg (readQ, msg); msg", "\t\t  cleanUp();\n\t\t  S.atomicEnd(); msg"),
 ("C12-mgetevt", "C12", C + "sync-var.sml", "\t\t  cleanUp();\n\t\t  relayMsg (readQ, v);\n\t\t  v", "\t\t  cleanUp();\n\t\t  S.atomicEnd();\n\t\t  v"),
 ("C12-mtakeevt", "C12", C + "sync-var.sml", "\t\t  cleanUp();\n\t\t  value := NONE;\n\t\t  S.atomicEnd();\n\t\t  v", "\t\t  cleanUp();\n\t\t  S.atomicEnd();\n\t\t  value := NONE;\n\t\t  v"),
 ("C12-mbox-order", "C12", C + "mailbox.sml", "dequeue{front=List.rev rear, rear=[]}", "dequeue{front=(case rear of [a,b,c] => [c,a,b] | _ => List.rev rear), rear=[]}"),
 ("C12-mbox-wait", "C12", C + "mailbox.sml", "Item(id, k, EMPTY{front=rest, rear=rear})", "Item(id, k, EMPTY{front=rest, rear=[]})"),
 ("C12-mbox-poll", "C12", C + "mailbox.sml", "(EMPTY q) => (S.atomicEnd(); NONE)", "(EMPTY q) => (state := EMPTY{front=[], rear=[]}; S.atomicEnd(); NONE)"),
 ("C12-barrier-resign", "C12", C + "barrier.sml", "\t\tif (!nWaiting > 0) andalso (!nWaiting = !nEnrolled)", "\t\tif (!nWaiting > 1) andalso (!nWaiting = !nEnrolled)"),
 ("C12-barrier-exn", "C12", C + "barrier.sml", "\t    nWaiting := 0;\n\t    waiting := [];\n\t    result", "\t    nWaiting := 0;\n\t    case result of VALUE _ => waiting := [] | _ => ();\n\t    result"),
 ("C12-put", "C12", C + "sync-var.sml", "    fun mPut (CELL{priority, readQ, value}, x) = (\n\t  S.atomicBegin();\n\t  case !value", "    fun mPut (CELL{priority, readQ, value}, x) = (\n\t  case !value of SOME _ => raise Put | NONE => S.atomicBegin();\n\t  case NONE"),
 ("C13-timeq", "C13", C + "timeout.sml", "\t    | ins ((_, _, ref R.CANCEL, _) :: r) = ins r", "\t    | ins ((_, _, ref R.CANCEL, _) :: r) = (t, f, id, k) :: r"),
 ("C13-promote", "C13", C + "scheduler.sml", "\t\tpromote ();\n", ""),
 ("C13-clock", "C13", C + "scheduler.sml", "\t  clock := NONE;\n\t  case !atomicState", "\t  case !atomicState"),
 ("C13-pending", "C13", C + "scheduler.sml", "\t    | Atomic => (atomicState := SignalPending; k)", "\t    | Atomic => k"),
 ("C13-timecancel", "C13,C11", C + "timeout.sml", "\t\t    f();  (* cleanup function *)\n", ""),
 ("C13-anywait", "C13", C + "timeout.sml", "else SOME(Time.-(t, now))", "else SOME(Time.-(#1 (List.last q), now))"),
 ("C14-join-exn", "C14", C + "thread.sml", "      (f x) handle ex => doHandler(id, ex);\n\t      notifyAndDispatch id));", "      ((f x) handle ex => (doHandler(id, ex); S.dispatch()));\n\t      notifyAndDispatch id));"),
 ("C14-shutdown", "C14", "cml/src/glue/new-run-cml-fn.sml", "\t    runningFlg := false;\n\t    SMLofNJ.Internals.prHook := savePrintFn;", "\t    runningFlg := false;\n\t    if sts = OS.Process.success then SMLofNJ.Internals.prHook := savePrintFn else ();"),
 ("C14-timeq", "C14", C + "timeout.sml", "fun reset () = timeQ := []", "fun reset () = ()"),
 ("C14-serverorder", "C14", C + "cleanup.sml", "\t    app shut (!serverList)", "\t    app shut (rev (!serverList))"),
 ("C14-remove", "C14", C + "cleanup.sml", "SOME(hook', r') => SOME(hook', hook::r')", "SOME(hook', r') => SOME(hook', r')"),
 ("C16-copy", "C16", "cml/cml-lib/multicast.sml", "fun copy (Port(_, stateV)) = mkPort(V.mGet stateV)", "fun copy (Port(_, stateV)) = let val cv = V.mGet stateV in case V.iGetPoll cv of SOME (MCState (_, n)) => (case V.iGetPoll n of SOME _ => mkPort n | NONE => mkPort cv) | NONE => mkPort cv end"),
 ("C16-swap", "C16", "cml/cml-lib/multicast.sml", "fun recvEvt (Port(ch, stateV)) = CML.wrap(CML.recvEvt ch, recvMsg stateV)", "fun recvEvt (Port(ch, stateV)) = CML.wrap(CML.recvEvt ch, fn (v, _) => v)"),
 ('C19-sub2', 'C19', 'ml-lpt/lib/ulex-buffer.sml', '\t\t\t   subtract (new, S (buf, 0, false))],', '\t\t\t   Substring.substring (ndata, 0, npos)],'),
 ('C19-base', 'C19', 'ml-lpt/lib/ulex-buffer.sml', 'AntlrStreamPos.forward (basePos, String.size data),', 'AntlrStreamPos.forward (basePos, Int.max (String.size data, 1) - (if String.size data = 0 then 1 else 0) + (if String.size data = 1024 then 1 else 0)),'),
 ('C19-cbyte', 'C19', 'ml-lpt/lib/ulex-buffer.sml', "\t\t\t\tSOME (c, S (buf, pos+1, false))\n\t\t\t      end\n\t\t\t    else (case advance(data, input, basePos, more)\n\t\t\t       of NO => NONE\n\t\t\t\t| YES buf' => getByte (S (buf', 0, false))", "\t\t\t\tSOME (c, S (buf, pos+1, false))\n\t\t\t      end\n\t\t\t    else (case advance(data, input, basePos, more)\n\t\t\t       of NO => NONE\n\t\t\t\t| YES buf' => getByte (S (buf', if pos > 1 then 0 else 0, false)) before (if pos > 1024 then more := NO else ())"),
 ('C19-eofsticky', 'C19', 'ml-lpt/lib/ulex-buffer.sml', 'of "" => (more := NO; NO)', 'of "" => NO'),
 ('C19-reader', 'C19', 'ml-lpt/ml-ulex/BackEnds/SML/template-ml-ulex.sml', "\t\t\t| SOME(c, strm') => iter (strm', n+1, c::accum))", "\t\t\t| SOME(c, strm') => if n = 1024 then (String.implode (rev accum), strm') else iter (strm', n+1, c::accum))"),
 ('C19-memo', 'C19', 'ml-lpt/ml-ulex/BackEnds/SML/template-ml-ulex.sml', "\t       if ss = ss' then", '\t       if true then'),
 ('C19-skipss', 'C19', 'ml-lpt/ml-ulex/BackEnds/SML/template-ml-ulex.sml', 'skip() = (yystartPos := yygetPos(); ', 'skip() = (yystartPos := (if ULexBuffer.eof (!yystrm) then !yystartPos else yygetPos()); '),
 ('C19-marknl', 'C19', 'ml-lpt/lib/antlr-stream-pos.sml', '\t    if pos < newPos then\n\t      sm :=', '\t    if pos <= newPos then\n\t      sm :='),
 ('C19-mlsub', 'C19', 'ml-lpt/ml-ulex/BackEnds/SML/template-ml-lex.sml', '\t\t\t      then TSIO.inputN (strm, newPos - oldPos)', '\t\t\t      then let val (s, r) = TSIO.input strm in if size s < newPos - oldPos then TSIO.inputN (strm, Int.min (newPos - oldPos, 4096)) else (String.substring (s, 0, newPos - oldPos), r) end'),
 ('C19-mlline', 'C19', 'ml-lpt/ml-ulex/BackEnds/SML/template-ml-lex.sml', '\t\t\t\t\t (if c = #"\\n" then 1 else 0),', '\t\t\t\t\t (if c = #"\\n" andalso Option.getOpt (TSIO.canInput (strm\', 1), 1) >= 0 andalso pos <> 4097 then 1 else 0),'),
 ('C19-lexdone', 'C19', 'ml-lex/lexgen.sml', 'if (String.size newchars)=0";', 'if (String.size newchars)=0 orelse l-i0 > 4096";'),
 ('C19-lexbufpos', 'C19', 'ml-lex/lexgen.sml', '\t sayln "\\t\\t     yybufpos := 1;";\n', ''),
 ('C19-lexsmall', 'C19', 'ml-lex/lexgen.sml', 'then (yydone := true;";', 'then (yydone := (l=i0);";'),
 ('C19-lexleaves', 'C19', 'ml-lex/lexgen.sml', 'scan (s,AcceptingLeaves,l-i0+1,1))', 'scan (s,NewAcceptingLeaves,l-i0+1,1))'),
 ('C19-rejfun', 'C19', 'ml-lpt/ml-ulex/BackEnds/SML/sml-fun-output.sml', "\t\tval lastMatch' = if hasREJECT (Vector.sub (actionVec, i))", "\t\tval lastMatch' = if false andalso hasREJECT (Vector.sub (actionVec, i))"),
]
