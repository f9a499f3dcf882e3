------------------------------ MODULE LexTrace ------------------------------
(* Conformance of recorded tokenizations. A case holds several texts given   *)
(* one after another to the same scanner or matcher; each text must come out *)
(* as the machine of Lexer.tla says for that text alone.                     *)
EXTENDS Lexer, Json, IOUtils, TLC, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, ti, m, nt, ns, bad, judged
vars == <<ci, ti, m, nt, ns, bad, judged>>
\* nt, ns: written tokens and inserted semicolons seen so far

C == Cases[ci]
X == C.obs.texts[ti]
Mode == [cm |-> C.mode \in {1, 3}, sm |-> C.mode \in {2, 3}]

Slice(s, e) == SubSeq(X.src, s + 1, e)
KW(XX, i, j) ==
  LET w == Slice(Off(XX, i), Off(XX, j))
      ks == {n \in DOMAIN C.kw : C.kw[n] = w}
  IN IF ks = {} THEN IDENT ELSE USER - 1 + CHOOSE n \in ks : TRUE

Init == /\ ci \in DOMAIN Cases
        /\ ti \in DOMAIN Cases[ci].obs.texts
        /\ m = LexStart(Cases[ci].obs.texts[ti])
        /\ nt = 0 /\ ns = 0 /\ bad = {} /\ judged = FALSE

RECURSIVE NoCR(_)
NoCR(s) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = "\r" THEN "" ELSE SubSeq(s, 1, 1)) \o NoCR(SubSeq(s, 2, Len(s)))
Literal(t) == CASE t.lit = "none" -> ""
                [] t.lit = "nl" -> "\n"
                [] t.lit = "src" -> Slice(t.s, t.e)
                [] t.lit = "strip" -> NoCR(Slice(t.s, t.e))

\* differences between a written token and the recorded one
Differs(t, o, infos) ==
  IF o.k # t.k \/ o.o # t.s THEN {"tok"}
  ELSE (IF o.lit # Literal(t) THEN {"lit"} ELSE {})
       \cup (IF o.e = t.e THEN {}
             ELSE IF t.lit = "strip" /\ o.e = t.s + Len(Literal(t)) THEN {"endcr"} ELSE {"end"})
       \cup (IF <<o.file, o.line>> # Position(X, X.nls, infos, X.name, X.dir, t.s) THEN {"line"} ELSE {})

Accept(mm) ==
  IF mm.out = <<>> \/ mm.st # "run" THEN <<nt, ns, bad>>
  ELSE LET t == mm.out[1] IN
       IF t.lit = "nl"
       THEN <<nt, ns + 1,
              bad \cup (IF ns + 1 > Len(X.semis) \/ X.semis[ns + 1] # [o |-> t.s, n |-> nt] THEN {"semi"} ELSE {})>>
       ELSE <<nt + 1, ns,
              bad \cup (IF nt + 1 > Len(X.toks) THEN {"tok"} ELSE Differs(t, X.toks[nt + 1], mm.infos))
                  \cup (IF t.k = SEMI /\ (nt + 1 > Len(X.toks) \/ X.toks[nt + 1].k # SEMI) THEN {"semi"} ELSE {})>>

On(kinds) == m.st = "run" /\ m.w \in kinds
Go == /\ m' = LexStep(X, Mode, KW, m)
      /\ LET a == Accept(m') IN nt' = a[1] /\ ns' = a[2] /\ bad' = a[3]
      /\ UNCHANGED <<ci, ti, judged>>
SkipBlank == On({"blank"}) /\ Go
SkipNewline == On({"newline"}) /\ Go
SemicolonAtNewline == On({"newline-semi"}) /\ Go
SemicolonAtEnd == On({"eof-semi"}) /\ Go
SemicolonBeforeComment == On({"comment-semi"}) /\ Go
SharpComment == On({"sharp-comment"}) /\ Go
LineComment == On({"line-comment"}) /\ Go
BlockComment == On({"block-comment"}) /\ Go
Identifier == On({"ident"}) /\ Go
NumberLiteral == On({"number"}) /\ Go
StringLiteral == On({"string"}) /\ Go
RawStringLiteral == On({"raw-string"}) /\ Go
RuneLiteral == On({"rune"}) /\ Go
Operator == On({"operator"}) /\ Go
ForbiddenCharacter == On({"forbidden"}) /\ Go
IllegalCharacter == On({"illegal"}) /\ Go
EndOfText == On({"eof"}) /\ Go

Lost == C.obs.r \in {"hang", "dead"}
Aspects ==
  IF Lost THEN {"verdict", "term"}
  ELSE IF X.r \in {"runaway", "panic"} THEN {"verdict", "term"}
  ELSE IF m.st = "bad"
       THEN (IF X.r # "bad" THEN {"verdict"} ELSE {})
            \cup (IF X.acts > 0 THEN {"acts"} ELSE {})
  ELSE IF X.r # "ok" THEN {"verdict", "tok"}
  ELSE bad \cup (IF nt < Len(X.toks) THEN {"tok"} ELSE {})
           \cup (IF nt < Len(X.toks) /\ Cardinality({n \in nt + 1 .. Len(X.toks) : X.toks[n].k = SEMI}) > 0 THEN {"semi"} ELSE {})
           \cup (IF ns < Len(X.semis) THEN {"semi"} ELSE {})
           \cup (IF X.eof # X.size THEN {"tok"} ELSE {})
           \cup (IF X.acts # -1 /\ X.acts # nt + ns THEN {"acts"} ELSE {})

Judge ==
  /\ m.st # "run" /\ ~judged
  /\ judged' = TRUE
  /\ LET a == Aspects IN
     a # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> a, text |-> ti, verdict |-> m.st, tokens |-> nt, semis |-> ns]))
  /\ UNCHANGED <<ci, ti, m, nt, ns, bad>>

Next == \/ SkipBlank \/ SkipNewline \/ SemicolonAtNewline \/ SemicolonAtEnd \/ SemicolonBeforeComment
        \/ SharpComment \/ LineComment \/ BlockComment \/ Identifier \/ NumberLiteral \/ StringLiteral
        \/ RawStringLiteral \/ RuneLiteral \/ Operator \/ ForbiddenCharacter \/ IllegalCharacter \/ EndOfText \/ Judge
Spec == Init /\ [][Next]_vars

TypeOK == m.i \in 1 .. Len(X.c) + 1 /\ m.st \in {"run", "bad", "done"}
TokenInText == m.out # <<>> => LET t == m.out[1] IN t.s >= 0 /\ t.s <= t.e /\ t.e <= X.size
InsertedOnlyWhenOn == ns > 0 => Mode.sm
=============================================================================
