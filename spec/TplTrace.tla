------------------------------ MODULE TplTrace ------------------------------
(* Conformance of grammar compilation and of compiled matchers. A case is a  *)
(* history: units compiled one after another, each from a grammar text (or   *)
(* from grammar objects, printed and compiled again), each followed by calls *)
(* of its entry points. The specification tokenizes the text (Lexer), reads  *)
(* it (TplText) and runs the resulting grammar (Peg) on the tokens of each   *)
(* input; every call is judged on its own text alone.                        *)
EXTENDS Texts, Peg, Ticks, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
Tk == [TokenizeGrammar |-> 1, RuleName |-> 2, ReadAtom |-> 3, ReadPrefix |-> 4, OpenGroup |-> 5, CloseGroup
       |-> 6, ReadCut |-> 7, ReadList |-> 8, ReadMark |-> 9, NextAlternative |-> 10, AssignRule |-> 11,
       StrayToken |-> 12, EndOfGrammar |-> 13, Compile |-> 14, StartCall |-> 15, MatchStep |-> 16, Finish |->
       17]
ASSUME TickStart(Tk)
Report == TickReport("TplTrace", Tk)

FromObjects(ast) == [ReadStart EXCEPT !.st = "done", !.g = ast.g, !.kws = ast.kw,
                                         !.rules = <<[nm |-> "doc", n |-> ast.root]>>]

VARIABLES ci, ui, oi, ph, K, All, From, T, rd, m, bad, judged
vars == <<ci, ui, oi, ph, K, All, From, T, rd, m, bad, judged>>
\* All: all tokens of the input; From: where the tokens that are matched begin
\* ph: "text" the grammar text is to be tokenized, "read" it is being read, "call" an entry point is
\* called, "run" the matcher runs, "end"
\* K: tokens of the grammar text, later of the input; T: kinds of the input; rd: reader or compiled grammar
NoM == PegStart(1, 0)

C == Cases[ci]
U == C.units[ui]
O == C.obs.u[ui]
Op == U.ops[oi]
Ob == O.ops[oi]
FromText == U.ast.g = <<>>

Lost == C.obs.r \in {"hang", "dead"}

Init == /\ ci \in DOMAIN Cases
        /\ ui \in 1 .. Len(Cases[ci].obs.u)
        /\ oi = 0 /\ ph = "text" /\ K = <<>> /\ All = <<>> /\ From = 0 /\ T = <<>> /\ m = NoM /\ bad = {} /\ judged = FALSE
        /\ rd = ReadStart

\* --- reading the grammar text ----------------------------------------------------
TokenizeGrammar ==
  /\ ph = "text"
  /\ Tick(Tk.TokenizeGrammar)
  /\ ph' = "read"
  /\ LET t == IF FromText THEN Lexed(O.x, GrammarMode, <<>>) ELSE <<TRUE, <<>>>> IN
     /\ K' = t[2]
     /\ rd' = IF ~FromText THEN FromObjects(U.ast)
              ELSE IF t[1] THEN rd ELSE [rd EXCEPT !.st = "bad"]
  /\ UNCHANGED <<ci, ui, oi, All, From, T, m, bad, judged>>
On(kinds) == ph = "read" /\ Reading(rd) /\ ReadKind(K, rd) \in kinds
Read(tick) == rd' = ReadStep(K, rd) /\ Tick(tick) /\ UNCHANGED <<ci, ui, oi, ph, K, All, From, T, m, bad, judged>>
RuleName == On({"rule"}) /\ Read(Tk.RuleName)
ReadAtom == On({"atom"}) /\ Read(Tk.ReadAtom)
ReadPrefix == On({"prefix"}) /\ Read(Tk.ReadPrefix)
OpenGroup == On({"open"}) /\ Read(Tk.OpenGroup)
CloseGroup == On({"close"}) /\ Read(Tk.CloseGroup)
ReadCut == On({"cut"}) /\ Read(Tk.ReadCut)
ReadList == On({"list", "list0"}) /\ Read(Tk.ReadList)
ReadMark == On({"mark"}) /\ Read(Tk.ReadMark)
NextAlternative == On({"or"}) /\ Read(Tk.NextAlternative)
AssignRule == On({"assign"}) /\ Read(Tk.AssignRule)
StrayToken == On({"stray"}) /\ Read(Tk.StrayToken)
EndOfGrammar == On({"end"}) /\ Read(Tk.EndOfGrammar)

\* generated code marks the rules in any order
SameMarks == IF O.static THEN \A s \in {O.marks[j] : j \in DOMAIN O.marks} \cup {rd.marks[j] : j \in DOMAIN rd.marks} :
                                Len(SelectSeq(O.marks, LAMBDA x : x = s)) = Len(SelectSeq(rd.marks, LAMBDA x : x = s))
             ELSE O.marks = rd.marks
Compile ==
  /\ ph = "read" /\ ~Reading(rd)
  /\ Tick(Tk.Compile)
  /\ bad' = IF Lost THEN {"verdict", "marks", "out", "acts", "init"}
            ELSE (IF (rd.st = "done") # (O.r = "ok") \/ O.r = "nobuild" THEN {"verdict"} ELSE {})
              \cup (IF rd.st = "done" /\ O.r = "ok"
                    THEN (IF FromText /\ ~U.re /\ ~SameMarks THEN {"marks"} ELSE {})
                         \cup (IF O.re = "rej" THEN {"reprint"} ELSE {})
                         \cup (IF ~O.fixed THEN {"fixed"} ELSE {})
                    ELSE {})
  /\ ph' = IF Lost \/ rd.st # "done" \/ O.r # "ok" \/ O.re = "rej" \/ U.ops = <<>> THEN "end" ELSE "call"
  /\ oi' = IF ph' = "call" THEN 1 ELSE 0
  /\ K' = <<>>
  /\ UNCHANGED <<ci, ui, All, From, T, rd, m, judged>>

\* --- a call of an entry point --------------------------------------------------------
NextOp == /\ oi' = IF oi < Len(U.ops) THEN oi + 1 ELSE oi
          /\ ph' = IF oi < Len(U.ops) THEN "call" ELSE "end"
          /\ m' = NoM
InitLog(l) == Len(SelectSeq(l, LAMBDA e : e.e = "init"))
ActLog(l) == SelectSeq(l, LAMBDA e : e.e # "init")
\* generated code is judged by the names of the marks
Acted(l, marks) == IF O.static THEN [j \in DOMAIN l |-> <<marks[l[j].i], l[j].o, l[j].n, l[j].l>>] ELSE l
\* --- what a failed call reports ----------------------------------------------------------
\* an error is observed as the printed form of the blamed rule, the offset of its source, the number of
\* tokens of that source, the index of the failing token in it, and its cause
NoBlame == [g |-> "", o |-> -1, n |-> 0, x |-> 0, inner |-> <<>>]
\* the tokens given to the matcher are those at a .. b of the text; what follows them ends the last one
OffsetAll(i) == IF i < Len(All) THEN All[i + 1].s ELSE Len(Ob.x.src)
EofNode(g) == Append(g, [op |-> "eof", k |-> 0, ch |-> <<>>, nm |-> ""])
Blame == IF m.ok THEN [n |-> Len(rd.g) + 1, p |-> m.c, x |-> 0, inner |-> <<>>] ELSE m.e
RECURSIVE ErrObs(_, _)
ErrObs(G, e) ==
  IF e.n = 0 THEN NoBlame
  ELSE [g |-> Show(G, e.n, 0), o |-> OffsetAll(From + e.p), n |-> Len(T) - e.p, x |-> e.x,
        inner |-> [j \in DOMAIN e.inner |-> ErrObs(G, e.inner[j])]]
Newlines == LET js == SelectSeq([j \in DOMAIN Ob.x.c |-> j], LAMBDA j : Ob.x.c[j] = 10) IN [k \in DOMAIN js |-> Ob.x.o[js[k]]]
Bigger(a, b) == IF a > b THEN a ELSE b
\* the text from offset s to t, at most its first nine lines
NineLines(nls, s, t) == LET nl == SelectSeq(nls, LAMBDA x : x >= s /\ x < t) IN IF Len(nl) < 9 THEN t ELSE nl[9] + 1
LineAt(nls, o) == 1 + Len(SelectSeq(nls, LAMBDA x : x < o /\ x + 1 < Len(Ob.x.src)))
SrcText(nls, e) ==
  LET s == OffsetAll(From + e.p)
      end == OffsetAll(From + Len(T))
      errpos == IF e.p + e.x < Len(T) THEN OffsetAll(From + e.p + e.x + 1) ELSE end
  IN SubSeq(Ob.x.src, s + 1, Bigger(NineLines(nls, s, end), errpos))
RECURSIVE Message(_, _, _)
Message(G, nls, e) ==
  IF e.n = 0 THEN "variable is not assigned"
  ELSE "line " \o ToString(LineAt(nls, OffsetAll(From + e.p + e.x))) \o ": match failed: `" \o SrcText(nls, e)
       \o "` doesn't match `" \o Show(G, e.n, 0) \o "`"
       \o (IF e.inner = <<>> THEN "" ELSE "\n" \o Message(G, nls, e.inner[1]))
\* texts that are written again print differently (marks, names)
Blames(r) == IF U.re \/ ~FromText \/ r \notin {"fail", "abort"} THEN {}
             ELSE LET G == EofNode(rd.g) IN
                  (IF Ob.r # r \/ Ob.err # ErrObs(G, Blame) THEN {"err"} ELSE {})
                  \cup (IF Ob.r # r \/ Ob.msg # Message(G, Newlines, Blame) THEN {"msg"} ELSE {})

\* outcome r, n and the events
Judged(r, n, at, acts, init) ==
  bad' = bad \cup (IF Ob.r # r \/ Ob.n # n THEN {"out"} ELSE {})
             \cup (IF at >= 0 /\ Ob.r = r /\ Ob.at # at THEN {"at"} ELSE {})
             \cup (IF ~U.re /\ FromText /\ Acted(ActLog(Ob.log), O.marks) # Acted(acts, rd.marks) THEN {"acts"} ELSE {})
             \cup (IF init > 0 /\ ~O.noinit /\ (InitLog(Ob.log) # init \/ Ob.log[1].e # "init") THEN {"init"} ELSE {})
             \cup (IF O.noinit /\ InitLog(Ob.log) # 0 THEN {"init"} ELSE {})
             \cup Blames(r)
             \* results of earlier calls are the caller's
             \cup (IF ~O.kept THEN {"kept"} ELSE {})
\* whether the initializer runs for a text that is refused is left open
Refused(r) == Judged(r, 0, -1, <<>>, 0) /\ NextOp /\ UNCHANGED <<ci, ui, K, All, From, T, rd, judged>>
Sub == Op.op \in {"sub", "subtok"}
Known == ~Sub \/ Has(rd.rules, Op.name)
Root == IF Sub THEN Get(rd.rules, Op.name).n ELSE Get(rd.rules, "doc").n
Cut(op, t) == IF op.op # "subtok" THEN t ELSE SubSeq(t, op.a + 1, IF op.b < Len(t) THEN op.b ELSE Len(t))
StartCall ==
  /\ ph = "call"
  /\ Tick(Tk.StartCall)
  /\ LET t == Lexed(Ob.x, ModeOf(U.mode), rd.kws) IN
     IF ~t[1] /\ (Known \/ Op.op = "subtok") THEN Refused("bad")
     ELSE IF ~Known THEN Refused("nogrammar")
     ELSE /\ K' = Cut(Op, t[2])
          /\ All' = t[2]
          /\ From' = IF Op.op = "subtok" THEN Len(t[2]) - Bigger(0, Len(t[2]) - Op.a) ELSE 0
          /\ T' = [j \in DOMAIN K' |-> K'[j].k]
          /\ ph' = "run" /\ m' = PegStart(Root, 0)
          /\ UNCHANGED <<ci, ui, oi, rd, bad, judged>>

Boom == Op.boom > 0 /\ Len(m.log) >= Op.boom
Halted == Terminal(m) \/ Boom
MatchStep == /\ ph = "run" /\ ~Halted
  /\ Tick(Tk.MatchStep)
         /\ m' = PegStep(rd.g, T, m)
         /\ UNCHANGED <<ci, ui, oi, ph, K, All, From, T, rd, bad, judged>>
OffsetOf(i) == IF i < Len(K) THEN K[i + 1].s ELSE -1
Acts == [j \in DOMAIN m.log |-> [e |-> "act", i |-> m.log[j].i, o |-> IF m.log[j].n = 0 THEN -1 ELSE OffsetOf(m.log[j].p),
                                 n |-> m.log[j].n, l |-> m.log[j].l]]
Left == Len(T) - m.c
Finish ==
  /\ ph = "run" /\ Halted
  /\ Tick(Tk.Finish)
  /\ IF Boom THEN Judged("boom", 0, -1, Acts, 1)
     ELSE IF m.md = "abort" THEN Judged("abort", 0, -1, Acts, 1)
     ELSE IF ~m.ok THEN Judged("fail", 0, -1, Acts, 1)
     ELSE IF Op.op = "match" THEN Judged("ok", Left, OffsetOf(m.c), Acts, 1)
     ELSE IF Left > 0 THEN Judged("fail", 0, OffsetOf(m.c), Acts, 1)
     ELSE Judged("ok", 0, -1, Acts, 1)
  /\ NextOp
  /\ UNCHANGED <<ci, ui, K, All, From, T, rd, judged>>

Judge ==
  /\ ph = "end" /\ ~judged
  /\ judged' = TRUE
  /\ bad # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> bad, unit |-> ui, verdict |-> rd.st, marks |-> rd.marks]))
  /\ UNCHANGED <<ci, ui, oi, ph, K, All, From, T, rd, m, bad>>

Next == \/ TokenizeGrammar \/ RuleName \/ ReadAtom \/ ReadPrefix \/ OpenGroup \/ CloseGroup \/ ReadCut \/ ReadList \/ ReadMark
        \/ NextAlternative \/ AssignRule \/ StrayToken \/ EndOfGrammar \/ Compile
        \/ StartCall \/ MatchStep \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars

\* --- invariants of the model ------------------------------------------------------------
ReaderOK == ph = "read" => ReadOK(K, rd)
MatcherOK == ph = "run" => PegTypeOK(rd.g, T, m) /\ InSource(T, m)
=============================================================================
