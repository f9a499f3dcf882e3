----------------------------- MODULE QlangTrace -----------------------------
(* Conformance of script engines: a case is a table of nodes and a history   *)
(* of evaluations (and variables set by the host) on one or two engines. The *)
(* written words of every program must be those of its nodes; then the       *)
(* machine of Qlang runs it, and what the host saw, the outcome, the result  *)
(* and all variables are compared after each evaluation.                     *)
EXTENDS Qlang, Ticks, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Tk == [ReadProgram |-> 1, SetVariable |-> 2, Start |-> 3, RunOn |-> 4, Succeed |-> 5, Fail |-> 6, PanicOut |-> 7, Exit |-> 8, LeftOpen |-> 9]
ASSUME TickStart(Tk)
Report == TickReport("QlangTrace", Tk)

VARIABLES ci, oi, ph, ms, bad, judged
vars == <<ci, oi, ph, ms, bad, judged>>
C == Cases[ci]
N == C.ast
Op == C.ops[oi]
Ob == C.obs.ops[oi]
Dead == C.obs.r \in {"hang", "dead"}
m == ms[Op.g]
Init == /\ ci \in DOMAIN Cases
        /\ oi = 1 /\ ph = "read" /\ ms = <<Machine, Machine>> /\ bad = {} /\ judged = FALSE

\* the printed words are those of the program, and the parentheses are where they must be
Written == /\ WellFormed(N)
           /\ LET W == Words(N) IN \A j \in DOMAIN C.ops : C.ops[j].op = "eval" => W[C.ops[j].doc] = C.ops[j].w
ReadProgram ==
  /\ ph = "read"
  /\ Tick(Tk.ReadProgram)
  /\ Assert(Written, <<"the case is not what it says", C.id>>)
  /\ ph' = IF Dead \/ C.obs.r # "ok" \/ C.ops = <<>> THEN "end" ELSE "next"
  /\ bad' = IF Dead \/ C.obs.r # "ok" THEN {"out"} ELSE {}
  /\ UNCHANGED <<ci, oi, ms, judged>>
On == /\ oi' = IF oi < Len(C.ops) THEN oi + 1 ELSE oi
      /\ ph' = IF oi < Len(C.ops) /\ bad' = {} THEN "next" ELSE "end"
SetVariable ==
  /\ ph = "next" /\ Op.op = "set"
  /\ Tick(Tk.SetVariable)
  /\ ms' = [ms EXCEPT ![Op.g] = Write(@, 1, Op.name, Op.v)]
  /\ bad' = bad
  /\ On
  /\ UNCHANGED <<ci, judged>>
Start ==
  /\ ph = "next" /\ Op.op = "eval"
  /\ Tick(Tk.Start)
  /\ ms' = [ms EXCEPT ![Op.g] = IF Op.lex THEN Unread(@) ELSE Begin1(@, Op.doc)]
  /\ ph' = "run"
  /\ UNCHANGED <<ci, oi, bad, judged>>
BURST == 60
Burst == TLCEval([j \in 1 .. BURST |-> j])
RunOn ==
  /\ ph = "run" /\ Running(m)
  /\ Tick(Tk.RunOn)
  /\ ms' = [ms EXCEPT ![Op.g] = FoldLeft(LAMBDA a, j : IF Running(a) THEN TLCEval(QStep(N, a)) ELSE a, m, Burst)]
  /\ UNCHANGED <<ci, oi, ph, bad, judged>>
Judged(extra) ==
  /\ bad' = bad \cup extra
                \cup (IF Ob.r # m.st THEN {"out"} ELSE {})
                \cup (IF Ob.log # m.log THEN {"log"} ELSE {})
                \cup (IF Ob.r # "exit" /\ Ob.vars # ShownVars(m) THEN {"vars"} ELSE {})
  /\ On
  /\ UNCHANGED <<ci, ms, judged>>
\* the last value of the program is its result, and there is no other
Succeed == ph = "run" /\ m.st = "ok" /\ Tick(Tk.Succeed)
           /\ Judged(IF Ob.r = "ok" /\ m.v.t # "?" /\ (Ob.v # Shown(m, m.v, DEEP) \/ Ob.two) THEN {"ret"} ELSE {})
Fail == ph = "run" /\ m.st = "err" /\ Tick(Tk.Fail) /\ Judged(IF Ob.r = "err" /\ Ob.v # m.v THEN {"msg"} ELSE {})
PanicOut == ph = "run" /\ m.st = "raw" /\ Tick(Tk.PanicOut) /\ Judged(IF Ob.r = "raw" /\ Ob.v # Shown(m, m.v, DEEP) THEN {"msg"} ELSE {})
Exit == ph = "run" /\ m.st = "exit" /\ Tick(Tk.Exit) /\ Judged(IF Ob.r = "exit" /\ Ob.v.i # m.v.i % 256 THEN {"msg"} ELSE {})
LeftOpen == ph = "run" /\ m.st = "unclear" /\ Tick(Tk.LeftOpen) /\ ph' = "end" /\ UNCHANGED <<ci, oi, ms, bad, judged>>

Judge ==
  /\ ph = "end" /\ ~judged
  /\ judged' = TRUE
  /\ bad # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> bad, op |-> oi, st |-> m.st, log |-> m.log, v |-> m.v, vars |-> ShownVars(m)]))
  /\ UNCHANGED <<ci, oi, ph, ms, bad>>

Next == ReadProgram \/ SetVariable \/ Start \/ RunOn \/ Succeed \/ Fail \/ PanicOut \/ Exit \/ LeftOpen \/ Judge
Spec == Init /\ [][Next]_vars

MachinesOK == \A j \in DOMAIN ms : QlangOK(ms[j])
\* deferred code is gone when an evaluation is over
NothingLeft == (ph = "run" /\ m.st \in {"ok", "err", "raw"}) => m.k = <<>> /\ m.envs[1].defs = <<>> /\ m.envs[1].rec = <<>>
==============================================================================
