----------------------------- MODULE InterpTrace -----------------------------
(* Conformance of interpreter engines: a case is a grammar with a function   *)
(* table and a history of evaluations on one engine. The grammar text is     *)
(* tokenized (Lexer), read (TplText) and its rules run (Peg) step by step;   *)
(* marks act on the engine state (Interp). After each evaluation outcome,    *)
(* calls seen by the host, the stack and the interpreter are compared.       *)
EXTENDS Interp, Ticks, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
LOGMAX == 120
Tk == [ReadGrammar |-> 1, CreateEngine |-> 2, StartEvaluation |-> 3, MatchOn |-> 4, Suppress |-> 5, MuteMark |-> 6,
       UnmuteMark |-> 7, TraceMark |-> 8, CallWithReceiver |-> 9, CallWithOperands |-> 10, EnterCode |-> 11, LeaveCode |-> 12,
       UnwindCode |-> 13, FinishEvaluation |-> 14]
ASSUME TickStart(Tk)
Report == TickReport("InterpTrace", Tk)

VARIABLES ci, oi, ph, rd, E, bad, judged
vars == <<ci, oi, ph, rd, E, bad, judged>>
C == Cases[ci]
Op == C.ops[oi]
Ob == C.obs.ops[oi]
Lost == C.obs.r \in {"hang", "dead"}

Init == /\ ci \in DOMAIN Cases
        /\ oi = 0 /\ ph = "text" /\ rd = ReadStart /\ E = EngineStart /\ bad = {} /\ judged = FALSE

ReadGrammar ==
  /\ ph = "text"
  /\ Tick(Tk.ReadGrammar)
  /\ rd' = LET t == Lexed(C.obs.x, GrammarMode, <<>>) IN IF t[1] THEN ReadAll(t[2], ReadStart) ELSE Bad(ReadStart)
  /\ ph' = "new"
  /\ UNCHANGED <<ci, oi, E, bad, judged>>

CreateEngine ==
  /\ ph = "new"
  /\ Tick(Tk.CreateEngine)
  /\ LET ok == rd.st = "done" /\ MarksOK(C.fns, rd.marks) IN
     /\ bad' = IF Lost THEN {"new", "out", "calls", "stack", "ip"} ELSE IF ok # (C.obs.r = "ok") THEN {"new"} ELSE {}
     /\ ph' = IF Lost \/ ~ok \/ bad' # {} \/ C.ops = <<>> THEN "end" ELSE "start"
     /\ oi' = IF ph' = "start" THEN 1 ELSE 0
  /\ UNCHANGED <<ci, rd, E, judged>>

\* --- judging one evaluation --------------------------------------------------------------
StackShown == [j \in DOMAIN E.stk |-> Show1(E.stk[j])]
Judged(r, n, msg, place) ==
  bad' = bad \cup (IF Ob.r # r \/ Ob.n # n THEN {"out"} ELSE {})
             \cup (IF Ob.r = r /\ r \in {"rt", "raw"} /\ msg # "*" /\ Ob.msg # msg THEN {"msg"} ELSE {})
             \cup (IF Ob.r = r /\ r = "rt" /\ place # "?" /\ Ob.place # place THEN {"place"} ELSE {})
             \cup (IF Ob.log # E.log THEN {"calls"} ELSE {})
             \cup (IF Ob.stk # StackShown THEN {"stack"} ELSE {})
             \cup (IF Ob.ip # 1 THEN {"ip"} ELSE {})
NextOp == /\ oi' = IF oi < Len(C.ops) THEN oi + 1 ELSE oi
          /\ ph' = IF oi < Len(C.ops) THEN "start" ELSE "end"
\* a refused text: nothing is run
NotRun(r) == /\ Judged(r, 0, "", "")
             /\ NextOp
             /\ E' = [E EXCEPT !.txt = Append(@, [k |-> <<>>, x |-> Ob.x, file |-> ""])]
             /\ UNCHANGED <<ci, rd, judged>>
Sub == Op.op = "sub"
StartEvaluation ==
  /\ ph = "start"
  /\ Tick(Tk.StartEvaluation)
  /\ LET t == Lexed(Ob.x, ModeOf(C.mode), rd.kws)
         root == Get(rd.rules, IF Sub THEN Op.name ELSE "doc").n
     IN IF Sub /\ ~Has(rd.rules, Op.name) THEN E' = [E EXCEPT !.log = <<>>] /\ ph' = "nogrammar" /\ UNCHANGED <<ci, oi, rd, bad, judged>>
        ELSE IF ~t[1] THEN E' = [E EXCEPT !.log = <<>>] /\ ph' = "bad" /\ UNCHANGED <<ci, oi, rd, bad, judged>>
        ELSE /\ E' = Begin1(E, root, t[2], Ob.x, IF Op.op \in {"match", "exact"} THEN Op.file ELSE "")
             /\ ph' = "run"
             /\ UNCHANGED <<ci, oi, rd, bad, judged>>
Refuse1 == ph \in {"nogrammar", "bad"} /\ NotRun(ph)

\* --- steps of an evaluation ----------------------------------------------------------------
M == Top1(E).m
TooLong == Len(E.log) > LOGMAX
Quiet == ph = "run" /\ E.ev = <<>> /\ E.err = <<>> /\ ~TooLong
Acting == ph = "run" /\ E.ev # <<>> /\ E.err = <<>> /\ ~TooLong
Mark == rd.marks[E.ev[1].mark]
Fn == BindingOf(C.fns, Mark)
F == C.fns[Fn]
Go(e) == E' = e /\ UNCHANGED <<ci, oi, ph, rd, bad, judged>>
MatchOn == Quiet /\ ~Terminal(M) /\ Tick(Tk.MatchOn) /\ Go(MatchStep1(rd.g, E))
Suppress == Acting /\ Fn # 0 /\ Suppressed(E, Mark) /\ Tick(Tk.Suppress) /\ Go(Done1(E))
MuteMark == Acting /\ Fn = 0 /\ Mark = "_mute" /\ Tick(Tk.MuteMark) /\ Go(Done1([E EXCEPT !.mute = @ + 1]))
UnmuteMark == Acting /\ Fn = 0 /\ Mark = "_unmute" /\ Tick(Tk.UnmuteMark) /\ Go(Done1([E EXCEPT !.mute = @ - 1]))
TraceMark == Acting /\ Fn = 0 /\ Mark = "_tr" /\ Tick(Tk.TraceMark) /\ Go(Done1(E))
Calling == Acting /\ Fn # 0 /\ ~Suppressed(E, Mark)
Runs(f) == f.do = "run" /\ f.recv # "none"
CallWithReceiver == Calling /\ F.recv # "none" /\ F.do # "run" /\ Tick(Tk.CallWithReceiver) /\ Go(Called(E, rd, Mark, F))
EnterCode == Calling /\ F.recv # "none" /\ F.do = "run" /\ Tick(Tk.EnterCode) /\ Go(Called(E, rd, Mark, F))
CallWithOperands == Calling /\ F.recv = "none" /\ Tick(Tk.CallWithOperands) /\ Go(CalledOnStack(E, rd, Mark, F, C.perr, C.callfn))
Nested == Len(E.fr) > 1
LeaveCode == Quiet /\ Nested /\ Terminal(M) /\ Tick(Tk.LeaveCode) /\ Go(Leave(E))
UnwindCode == ph = "run" /\ E.err # <<>> /\ Nested /\ ~TooLong /\ Tick(Tk.UnwindCode) /\ Go(Unwind(E))
FinishEvaluation ==
  /\ ph = "run"
  /\ TooLong \/ (~Nested /\ ((Quiet /\ Terminal(M)) \/ E.err # <<>>))
  /\ Tick(Tk.FinishEvaluation)
  /\ LET left == Len(TextOf(E, Len(E.txt)).k) - M.c IN
     IF TooLong THEN bad' = bad \cup (IF Ob.r # "long" THEN {"out"} ELSE {})
     ELSE IF E.err # <<>> THEN Judged(E.err[1].cls, 0, E.err[1].msg, E.err[1].place)
     ELSE IF M.md = "abort" THEN Judged("abort", 0, "", "")
     ELSE IF ~M.ok THEN Judged("fail", 0, "", "")
     ELSE IF Op.op = "match" THEN Judged("ok", left, "", "")
     ELSE IF left > 0 THEN Judged("fail", 0, "", "")
     ELSE Judged("ok", 0, "", "")
  /\ IF TooLong THEN ph' = "end" /\ oi' = oi ELSE NextOp
  /\ E' = [E EXCEPT !.fr = <<>>, !.ev = <<>>, !.err = <<>>]
  /\ UNCHANGED <<ci, rd, judged>>

Judge ==
  /\ ph = "end" /\ ~judged
  /\ judged' = TRUE
  /\ bad # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> bad, log |-> E.log, stk |-> StackShown, st |-> rd.st]))
  /\ UNCHANGED <<ci, oi, ph, rd, E, bad>>

Next == \/ ReadGrammar \/ CreateEngine \/ StartEvaluation \/ Refuse1 \/ MatchOn \/ Suppress \/ MuteMark \/ UnmuteMark \/ TraceMark
        \/ CallWithReceiver \/ CallWithOperands \/ EnterCode \/ LeaveCode \/ UnwindCode \/ FinishEvaluation \/ Judge
Spec == Init /\ [][Next]_vars

EngineInvariant == ph = "run" => EngineOK(E) /\ OwnInterpreter(E)
MatcherOK == ph = "run" /\ E.fr # <<>> => PegTypeOK(rd.g, Kinds1(E), M)
=============================================================================
