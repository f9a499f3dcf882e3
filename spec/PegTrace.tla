------------------------------ MODULE PegTrace ------------------------------
(* Conformance of recorded matches: every case (grammar table, tokens and   *)
(* what the real matcher did) is one behaviour of the machine of Peg.tla;   *)
(* at its end the predicted outcome, events, error and message are compared *)
(* with the recorded ones.                                                  *)
EXTENDS Peg, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
LOGMAX == 150

VARIABLES ci, m, judged
vars == <<ci, m, judged>>

C == Cases[ci]
G == C.g
Kinds == [c \in DOMAIN Cases |-> [i \in DOMAIN Cases[c].obs.toks |-> Cases[c].obs.toks[i].k]]
T == Kinds[ci]

Init == /\ ci \in DOMAIN Cases
        /\ m = PegStart(Cases[ci].root, 0)
        /\ judged = FALSE

TooLong == Len(m.log) > LOGMAX
Halted == Terminal(m) \/ TooLong

At(ops) == ~Halted /\ PegOp(G, m) \in ops
Go == m' = PegStep(G, T, m) /\ UNCHANGED <<ci, judged>>
MatchToken == At({"tok"}) /\ Go
MatchTrue == At({"true"}) /\ Go
MatchEof == At({"eof"}) /\ Go
EnterSequence == At({"and"}) /\ Go
SequencePart == At({"ret-and"}) /\ Go
EnterChoice == At({"or"}) /\ Go
ChoiceAlternative == At({"ret-or"}) /\ Go
EnterRepetition == At({"rep0", "rep1"}) /\ Go
RepetitionElement == At({"ret-rep0", "ret-rep1"}) /\ Go
EnterOption == At({"rep01"}) /\ Go
OptionResult == At({"ret-rep01"}) /\ Go
EnterList == At({"list", "list0"}) /\ Go
ListPart == At({"ret-list", "ret-list0"}) /\ Go
EnterLookahead == At({"not", "peek"}) /\ Go
LookaheadResult == At({"ret-not", "ret-peek"}) /\ Go
EnterRule == At({"var", "named"}) /\ Go
RuleResult == At({"ret-var", "ret-named"}) /\ Go
EnterAction == At({"act"}) /\ Go
RunAction == At({"ret-act"}) /\ Go
BeginTransaction == At({"trans"}) /\ Go
EndTransaction == At({"ret-trans"}) /\ Go
Finish == At({"finish"}) /\ Go

\* --- expected observations ---------------------------------------------------
Exp == IF TooLong THEN "long" ELSE IF m.md = "abort" THEN "abort" ELSE IF m.ok THEN "ok" ELSE "fail"

RECURSIVE ErrObs(_)
ErrObs(e) ==
  IF e.n = -1 THEN [g |-> "", p |-> -1, x |-> -1, inner |-> <<>>]
  ELSE IF e.n = 0 THEN [g |-> "", p |-> 0, x |-> 0, inner |-> <<>>]
  ELSE [g |-> Show(G, e.n, 0), p |-> e.p, x |-> e.x, inner |-> [j \in DOMAIN e.inner |-> ErrObs(e.inner[j])]]

Offset(i) == IF i < Len(T) THEN C.obs.toks[i + 1].o ELSE Len(C.obs.src)
Max(a, b) == IF a > b THEN a ELSE b
\* end of the n-th line from offset o on
LinesEnd(o, n) == LET nl == SelectSeq(C.obs.nls, LAMBDA x : x >= o) IN
                  IF Len(nl) < n THEN Len(C.obs.src) ELSE nl[n] + 1
\* a line begins after each newline that is followed by text (the end of the text after a final
\* newline is on the last line, as in go/token)
LineOf(o) == 1 + Len(SelectSeq(C.obs.nls, LAMBDA x : x < o /\ x + 1 < Len(C.obs.src)))
SrcText(e) ==
  LET s == Offset(e.p)
      errpos == IF e.p + e.x < Len(T) THEN Offset(e.p + e.x + 1) ELSE Len(C.obs.src)
  IN SubSeq(C.obs.src, s + 1, Max(LinesEnd(s, 9), errpos))
RECURSIVE Message(_)
Message(e) ==
  IF e.n = 0 THEN "variable is not assigned"
  ELSE "line " \o ToString(LineOf(Offset(e.p + e.x))) \o ": match failed: `" \o SrcText(e)
       \o "` doesn't match `" \o Show(G, e.n, 0) \o "`"
       \o (IF e.inner = <<>> THEN "" ELSE "\n" \o Message(e.inner[1]))

\* events; an action on no tokens has no visible position
ActPos(ev) == IF ev.n = 0 THEN -1 ELSE ev.p
LogObs == [j \in DOMAIN m.log |-> IF m.log[j].e = "act" THEN [m.log[j] EXCEPT !.p = ActPos(m.log[j])] ELSE m.log[j]]
Acts(l) == SelectSeq(l, LAMBDA x : x.e = "act")
Trs(l) == SelectSeq(l, LAMBDA x : x.e # "act")

HasTrans == \E i \in DOMAIN G : G[i].op = "trans"
HasCut == \E i \in DOMAIN G : G[i].op = "and" /\ \E j \in DOMAIN G[i].ch : G[i].ch[j] = 0

Aspects ==
  IF Exp = "long"
  THEN IF C.obs.r # "long" THEN {"outcome", "acts", "trans", "cut"} ELSE {}
  ELSE
  LET o == C.obs
      n == IF m.ok /\ Exp = "ok" THEN m.c ELSE 0
      outcome == o.r # Exp \/ o.n # n
      lost == o.r \in {"hang", "dead"}          \* the process ended: no events were recorded
      log == IF lost THEN <<>> ELSE o.log
      acts == lost \/ Acts(log) # Acts(LogObs)
      trs == lost \/ Trs(log) # Trs(LogObs)
      all == lost \/ log # LogObs
  IN (IF outcome THEN {"outcome"} ELSE {})
     \cup (IF acts THEN {"acts"} ELSE {})
     \cup (IF trs \/ (all /\ ~acts) THEN {"trans"} ELSE {})
     \cup (IF HasTrans /\ outcome THEN {"wrapped"} ELSE {})
     \cup (IF HasCut /\ (outcome \/ all) THEN {"cut"} ELSE {})
     \cup (IF Exp \in {"fail", "abort"} /\ o.r \in {"fail", "abort"}
           THEN (IF o.err # ErrObs(m.e) THEN {"err"} ELSE {}) \cup (IF o.msg # Message(m.e) THEN {"msg"} ELSE {})
           ELSE IF Exp \in {"fail", "abort"} /\ outcome THEN {"err"} ELSE {})

Judge ==
  /\ Halted /\ ~judged
  /\ judged' = TRUE
  /\ LET a == Aspects IN
     a # {} => PrintT("@@M " \o ToJson(
        [id |-> C.id, aspects |-> a, r |-> Exp, n |-> m.c, log |-> LogObs,
         err |-> IF Exp \in {"fail", "abort"} THEN ErrObs(m.e) ELSE <<>>,
         msg |-> IF Exp \in {"fail", "abort"} THEN Message(m.e) ELSE ""]))
  /\ UNCHANGED <<ci, m>>

Next == \/ MatchToken \/ MatchTrue \/ MatchEof \/ EnterSequence \/ SequencePart \/ EnterChoice \/ ChoiceAlternative
        \/ EnterRepetition \/ RepetitionElement \/ EnterOption \/ OptionResult \/ EnterList \/ ListPart
        \/ EnterLookahead \/ LookaheadResult \/ EnterRule \/ RuleResult \/ EnterAction \/ RunAction
        \/ BeginTransaction \/ EndTransaction \/ Finish \/ Judge

Spec == Init /\ [][Next]_vars

\* --- invariants of the model, checked in every state ---------------------------
TypeOK == PegTypeOK(G, T, m)
ConsumedInSource == InSource(T, m)
BlameInSource == m.md \in {"ret", "done", "abort"} /\ ~m.ok => ErrInSource(T, m.e)
Nested == Halted => TransNest(m) \/ TooLong
ActionsInSource == Halted => ActsInSource(T, m)
=============================================================================
