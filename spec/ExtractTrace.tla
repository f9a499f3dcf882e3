---------------------------- MODULE ExtractTrace -----------------------------
(* Conformance of extractors: a case is a grammar text and a history of      *)
(* extractions on one extractor. The grammar is tokenized (Lexer), read      *)
(* (TplText) and run (Peg) step by step, marks act on the document (Extract);*)
(* outcome and document are compared after each extraction.                  *)
EXTENDS Extract, Texts, Peg, Ticks, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Tk == [ReadGrammar |-> 1, Create |-> 2, StartExtraction |-> 3, RefuseText |-> 4, MatchOn |-> 5, CollectLeaf |-> 6, CannotConvert |-> 7,
       NothingMatched |-> 8, OpenNode |-> 9, CloseNode |-> 10, AbandonNode |-> 11, Finish |-> 12]
ASSUME TickStart(Tk)
Report == TickReport("ExtractTrace", Tk)

VARIABLES ci, oi, ph, rd, K, T, m, D, bad, judged
vars == <<ci, oi, ph, rd, K, T, m, D, bad, judged>>
\* ph: "text" "new" "start" "run" "end"; K, T: tokens of the input and their kinds; rd: reader, later the grammar
C == Cases[ci]
Op == C.ops[oi]
Ob == C.obs.ops[oi]
Lost == C.obs.r \in {"hang", "dead"}
NoM == PegStart(1, 0)
Init == /\ ci \in DOMAIN Cases
        /\ oi = 0 /\ ph = "text" /\ rd = ReadStart /\ K = <<>> /\ T = <<>> /\ m = NoM /\ D = DocStart /\ bad = {} /\ judged = FALSE

\* node marks are transactions
WithNodes(r) == [r EXCEPT !.g = [j \in DOMAIN @ |-> IF @[j].op = "act" /\ MarkOf(r.marks[@[j].k]).typ = "Node" THEN [@[j] EXCEPT !.op = "trans"] ELSE @[j]]]
ReadGrammar ==
  /\ ph = "text"
  /\ Tick(Tk.ReadGrammar)
  /\ rd' = LET t == Lexed(C.obs.x, GrammarMode, <<>>) IN IF t[1] THEN WithNodes(ReadAll(t[2], ReadStart)) ELSE Bad(ReadStart)
  /\ ph' = "new"
  /\ UNCHANGED <<ci, oi, K, T, m, D, bad, judged>>
Create ==
  /\ ph = "new"
  /\ Tick(Tk.Create)
  /\ LET ok == rd.st = "done" /\ \A j \in DOMAIN rd.marks : MarkOf(rd.marks[j]).ok IN
     /\ bad' = IF Lost THEN {"new", "out", "doc"} ELSE IF ok # (C.obs.r = "ok") THEN {"new"} ELSE {}
     /\ ph' = IF Lost \/ ~ok \/ bad' # {} \/ C.ops = <<>> THEN "end" ELSE "start"
     /\ oi' = IF ph' = "start" THEN 1 ELSE 0
  /\ UNCHANGED <<ci, rd, K, T, m, D, judged>>

\* a failed extraction gives no document
Judged(r, n) ==
  /\ bad' = bad \cup (IF Ob.r # r \/ Ob.n # n THEN {"out"} ELSE {})
                \cup (IF r = "ok" /\ Ob.r = "ok" /\ ~Like(Ob.doc, Doc(D)) THEN {"doc"} ELSE {})
                \cup (IF r # "ok" /\ Op.op \in {"extract", "safe", "parse", "safeparse"} /\ Ob.got THEN {"doc"} ELSE {})
                \cup (IF ~C.obs.kept THEN {"kept"} ELSE {})
  /\ oi' = IF oi < Len(C.ops) THEN oi + 1 ELSE oi
  /\ ph' = IF oi < Len(C.ops) THEN "start" ELSE "end"

Sub == Op.op = "sub"
Accepted == Lexed(Ob.x, ModeOf(C.mode), rd.kws)
StartExtraction ==
  /\ ph = "start"
  /\ Tick(Tk.StartExtraction)
  /\ LET t == Accepted IN
     IF ~t[1] \/ (Sub /\ ~Has(rd.rules, Op.name)) THEN ph' = "refused" /\ UNCHANGED <<K, T, m, D>>
     ELSE /\ K' = t[2] /\ T' = [j \in DOMAIN K' |-> K'[j].k]
          /\ m' = PegStart(Get(rd.rules, IF Sub THEN Op.name ELSE "doc").n, 0)
          /\ D' = DocStart
          /\ ph' = "run"
  /\ UNCHANGED <<ci, oi, rd, bad, judged>>
RefuseText == ph = "refused" /\ Tick(Tk.RefuseText) /\ Judged("fail", 0) /\ UNCHANGED <<ci, rd, K, T, m, D, judged>>

Running == ph = "run" /\ D.err = ""
Quiet == Running /\ m.log = <<>>
Ev == m.log[1]
On(e) == Running /\ m.log # <<>> /\ Ev.e = e
Mk == MarkOf(rd.marks[Ev.i])
Does(d, t) == D' = d /\ m' = [m EXCEPT !.log = <<>>] /\ Tick(t) /\ UNCHANGED <<ci, oi, ph, rd, K, T, bad, judged>>
\* the matcher goes on, at most BURST steps, until a mark sees something
BURST == 40
Burst == TLCEval([j \in 1 .. BURST |-> j])
PegOn == FoldLeft(LAMBDA a, j : IF Terminal(a) \/ a.log # <<>> THEN a ELSE TLCEval(PegStep(rd.g, T, a)), m, Burst)
MatchOn == Quiet /\ ~Terminal(m) /\ m' = PegOn /\ Tick(Tk.MatchOn) /\ UNCHANGED <<ci, oi, ph, rd, K, T, D, bad, judged>>
\* a leaf takes the first token its rule has matched
Lit == K[Ev.p + 1].lit
Val == IF C.conv THEN Custom(Mk.typ, Lit) ELSE Converted(C.obs.tbl, Mk.typ, Lit)
CollectLeaf == On("act") /\ Ev.n > 0 /\ Val # <<>> /\ Does(Leaf(D, Mk, Val[1]), Tk.CollectLeaf)
CannotConvert == On("act") /\ Ev.n > 0 /\ Val = <<>> /\ Does(FailAs(D, IF C.conv /\ Mk.typ = "Raw" THEN "raw" ELSE "fail"), Tk.CannotConvert)
NothingMatched == On("act") /\ Ev.n = 0 /\ Does(FailAs(D, "fail"), Tk.NothingMatched)
OpenNode == On("begin") /\ Does(OpenNode1(D, Mk), Tk.OpenNode)
CloseNode == On("end") /\ ~Ev.f /\ Does(CloseNode1(D), Tk.CloseNode)
AbandonNode == On("end") /\ Ev.f /\ Does(AbandonNode1(D), Tk.AbandonNode)
Finish ==
  /\ ph = "run" /\ (D.err # "" \/ (Quiet /\ Terminal(m)))
  /\ Tick(Tk.Finish)
  /\ LET left == Len(T) - m.c IN
     IF D.err # "" THEN Judged(D.err, 0)
     ELSE IF m.md = "abort" \/ ~m.ok THEN Judged("fail", 0)
     ELSE IF Op.op = "match" THEN Judged("ok", left)
     ELSE IF left > 0 THEN Judged("fail", 0)
     ELSE Judged("ok", 0)
  /\ m' = NoM /\ K' = <<>> /\ T' = <<>>
  /\ UNCHANGED <<ci, rd, D, judged>>

Judge ==
  /\ ph = "end" /\ ~judged
  /\ judged' = TRUE
  /\ bad # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> bad, op |-> oi, st |-> rd.st, marks |-> rd.marks, doc |-> Doc(D)]))
  /\ UNCHANGED <<ci, oi, ph, rd, K, T, m, D, bad>>

Next == \/ ReadGrammar \/ Create \/ StartExtraction \/ RefuseText \/ MatchOn \/ CollectLeaf \/ CannotConvert \/ NothingMatched
        \/ OpenNode \/ CloseNode \/ AbandonNode \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars

DocumentOK == DocOK(D)
\* when the match is over without an abort, no node is left open
AllClosed == (ph = "run" /\ Quiet /\ m.md = "done") => D.tr = <<>>
MatcherOK == ph = "run" => PegTypeOK(rd.g, T, m)
==============================================================================
