----------------------------- MODULE ScriptTrace ----------------------------
(* Conformance of scripted interpreters: as InterpTrace, with the engine of  *)
(* Script.tla. The class is written by the driver as a script; the grammar   *)
(* text is read, its marks looked up in the scripted table, and evaluations  *)
(* by the host or by the script itself are run step by step.                 *)
EXTENDS Script, Ticks, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
LOGMAX == 120
Tk == [ReadGrammar |-> 1, CreateEngine |-> 2, StartEvaluation |-> 3, MatchOn |-> 4, Suppress |-> 5, MuteMark |-> 6,
       UnmuteMark |-> 7, TraceMark |-> 8, CallMethod |-> 9, CallWithOperands |-> 10, EnterCode |-> 11, LeaveCode |-> 12,
       UnwindCode |-> 13, FinishEvaluation |-> 14, RefuseClass |-> 15, EvaluateInScript |-> 16]
ASSUME TickStart(Tk)
Report == TickReport("ScriptTrace", Tk)

VARIABLES ci, oi, ph, rd, E, bad, judged
vars == <<ci, oi, ph, rd, E, bad, judged>>
C == Cases[ci]
Op == C.ops[oi]
Ob == C.obs.ops[oi]
Lost == C.obs.r \in {"hang", "dead"}

Init == /\ ci \in DOMAIN Cases
        /\ oi = 0 /\ ph = "text" /\ rd = ReadStart /\ E = EngineStart /\ bad = {} /\ judged = FALSE

ReadGrammar ==
  /\ ph = "text"
  /\ Tick(Tk.ReadGrammar)
  /\ rd' = LET t == Lexed(C.obs.x, GrammarMode, <<>>) IN IF t[1] THEN ReadAll(t[2], ReadStart) ELSE Bad(ReadStart)
  /\ ph' = "new"
  /\ UNCHANGED <<ci, oi, E, bad, judged>>

\* what is wrong with a class, its table or its grammar is an error of the constructor
CreateEngine ==
  /\ ph = "new"
  /\ LET ok == C.bad = "" /\ rd.st = "done" /\ ScrMarksOK(C.fns, rd.marks) IN
     /\ IF ok THEN Tick(Tk.CreateEngine) ELSE Tick(Tk.RefuseClass)
     /\ bad' = IF Lost THEN {"new", "out", "calls", "stack", "ip"}
               ELSE IF C.obs.r # (IF ok THEN "ok" ELSE "rej") THEN {"new"} ELSE {}
     /\ ph' = IF Lost \/ ~ok \/ bad' # {} \/ C.ops = <<>> THEN "end" ELSE "start"
     /\ oi' = IF ph' = "start" THEN 1 ELSE 0
  /\ UNCHANGED <<ci, rd, E, judged>>

\* --- judging one evaluation --------------------------------------------------------------
StackShown == [j \in DOMAIN E.stk |-> Show1(E.stk[j])]
Judged(r, msg) ==
  bad' = bad \cup (IF Ob.r # r THEN {"out"} ELSE {})
             \cup (IF Ob.r = r /\ r \in {"rt", "raw"} /\ msg # "*" /\ Ob.msg # msg THEN {"msg"} ELSE {})
             \cup (IF Ob.log # E.log THEN {"calls"} ELSE {})
             \cup (IF Ob.stk # StackShown THEN {"stack"} ELSE {})
             \cup (IF Ob.ip # 1 THEN {"ip"} ELSE {})
NextOp == /\ oi' = IF oi < Len(C.ops) THEN oi + 1 ELSE oi
          /\ ph' = IF oi < Len(C.ops) THEN "start" ELSE "end"
StartEvaluation ==
  /\ ph = "start"
  /\ IF Op.by = "script" THEN Tick(Tk.EvaluateInScript) ELSE Tick(Tk.StartEvaluation)
  /\ LET t == Lexed(Ob.x, ModeOf(C.mode), rd.kws)
         root == Get(rd.rules, "doc").n
     IN IF ~t[1] THEN E' = [E EXCEPT !.log = <<>>] /\ ph' = "bad" /\ UNCHANGED <<ci, oi, rd, bad, judged>>
        ELSE /\ E' = Begin1(E, root, t[2], Ob.x, IF Op.op = "exec" THEN Op.file ELSE "")
             /\ ph' = "run"
             /\ UNCHANGED <<ci, oi, rd, bad, judged>>
\* a text that is none: nothing is run
Refuse1 ==
  /\ ph = "bad"
  /\ Judged("bad", "")
  /\ NextOp
  /\ E' = [E EXCEPT !.txt = Append(@, [k |-> <<>>, x |-> Ob.x, file |-> ""])]
  /\ UNCHANGED <<ci, rd, judged>>

\* --- steps of an evaluation ----------------------------------------------------------------
M == Top1(E).m
TooLong == Len(E.log) > LOGMAX
Quiet == ph = "run" /\ E.ev = <<>> /\ E.err = <<>> /\ ~TooLong
Acting == ph = "run" /\ E.ev # <<>> /\ E.err = <<>> /\ ~TooLong
Mark == rd.marks[E.ev[1].mark]
Fn == BindingOf(C.fns, Mark)
F == C.fns[Fn]
Go(e) == E' = e /\ UNCHANGED <<ci, oi, ph, rd, bad, judged>>
MatchOn == Quiet /\ ~Terminal(M) /\ Tick(Tk.MatchOn) /\ Go(MatchStep1(rd.g, E))
Suppress == Acting /\ Fn # 0 /\ Suppressed(E, Mark) /\ Tick(Tk.Suppress) /\ Go(Done1(E))
MuteMark == Acting /\ Fn = 0 /\ Mark = "_mute" /\ Tick(Tk.MuteMark) /\ Go(Done1([E EXCEPT !.mute = @ + 1]))
UnmuteMark == Acting /\ Fn = 0 /\ Mark = "_unmute" /\ Tick(Tk.UnmuteMark) /\ Go(Done1([E EXCEPT !.mute = @ - 1]))
TraceMark == Acting /\ Fn = 0 /\ Mark = "_tr" /\ Tick(Tk.TraceMark) /\ Go(Done1(E))
Calling == Acting /\ Fn # 0 /\ ~Suppressed(E, Mark)
CallMethod == Calling /\ F.recv # "none" /\ F.do # "run" /\ Tick(Tk.CallMethod) /\ Go(ScrCalled(E, rd, Mark, F))
EnterCode == Calling /\ F.recv # "none" /\ F.do = "run" /\ Tick(Tk.EnterCode) /\ Go(ScrCalled(E, rd, Mark, F))
CallWithOperands == Calling /\ F.recv = "none" /\ Tick(Tk.CallWithOperands) /\ Go(ScrOnStack(E, rd, Mark, F))
Nested == Len(E.fr) > 1
LeaveCode == Quiet /\ Nested /\ Terminal(M) /\ Tick(Tk.LeaveCode) /\ Go(ScrLeave(E))
UnwindCode == ph = "run" /\ E.err # <<>> /\ Nested /\ ~TooLong /\ Tick(Tk.UnwindCode) /\ Go(Unwind(E))
FinishEvaluation ==
  /\ ph = "run"
  /\ TooLong \/ (~Nested /\ ((Quiet /\ Terminal(M)) \/ E.err # <<>>))
  /\ Tick(Tk.FinishEvaluation)
  /\ IF TooLong THEN bad' = bad \cup (IF Ob.r # "long" THEN {"out"} ELSE {})
     ELSE IF E.err # <<>> THEN Judged(ScrOutcome(E.err[1].cls), E.err[1].msg)
     ELSE IF M.md = "abort" \/ ~M.ok \/ M.c < Len(TextOf(E, Len(E.txt)).k) THEN Judged("fail", "")
     ELSE Judged("ok", "")
  /\ IF TooLong THEN ph' = "end" /\ oi' = oi ELSE NextOp
  /\ E' = [E EXCEPT !.fr = <<>>, !.ev = <<>>, !.err = <<>>]
  /\ UNCHANGED <<ci, rd, judged>>

Judge ==
  /\ ph = "end" /\ ~judged
  /\ judged' = TRUE
  /\ bad # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> bad, log |-> E.log, stk |-> StackShown, st |-> rd.st]))
  /\ UNCHANGED <<ci, oi, ph, rd, E, bad>>

Next == \/ ReadGrammar \/ CreateEngine \/ StartEvaluation \/ Refuse1 \/ MatchOn \/ Suppress \/ MuteMark \/ UnmuteMark \/ TraceMark
        \/ CallMethod \/ CallWithOperands \/ EnterCode \/ LeaveCode \/ UnwindCode \/ FinishEvaluation \/ Judge
Spec == Init /\ [][Next]_vars

EngineInvariant == ph = "run" => EngineOK(E) /\ OwnInterpreter(E)
MatcherOK == ph = "run" /\ E.fr # <<>> => PegTypeOK(rd.g, Kinds1(E), M)
=============================================================================
