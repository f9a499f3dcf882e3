-------------------------------- MODULE TplMC --------------------------------
(* Grammar texts, explored token by token. A state is a word over a          *)
(* vocabulary, put into a frame (VOCAB selects one of the vocabularies       *)
(* below, PICK the tokens used, MAXLEN the longest word); a word is extended *)
(* as long as the reader of TplText.tla has not refused it. In every state:  *)
(* the verdict is compared with the documented grammar of grammar texts,     *)
(* itself written as a grammar and given its big-step meaning (PegSem); an   *)
(* accepted grammar is written back and read again, which must give the same *)
(* grammar; and verdict, marks and the outcomes on all inputs of up to two   *)
(* tokens are printed for replay in the real compiler.                       *)
EXTENDS TplText, PegSem, Ticks, IOUtils

Tk == [Extend |-> 1, Accepted |-> 2, Refused |-> 3]
ASSUME TickStart(Tk)
Report == TickReport("TplMC", Tk)

O(k, s) == [k |-> k, lit |-> "", txt |-> s]
W(k, s) == [k |-> k, lit |-> s, txt |-> s]
BodyTokens == TLCEval(<<W(IDENT, "IDENT"), W(STR, "\"k\""), W(CHAR, "'+'"), O(40, "("), O(41, ")"), O(124, "|"), O(42, "*"), O(37, "%"),
  O(33, "!"), O(47, "/"), W(IDENT, "m"), O(63, "?"), O(126, "~"), O(136, "%="), O(43, "+"), O(64, "@"), W(INT, "1"), W(IDENT, "a"),
  W(IDENT, "EOF"), W(INT, "0"), W(STR, "\"++\""), W(IDENT, "true"), W(CHAR, "'x'"), W(IDENT, "FOO"), W(FLOAT, "1.0"), O(44, ",")>>)
TextTokens == TLCEval(<<W(IDENT, "doc"), O(61, "="), W(SEMI, ";"), W(IDENT, "a"), W(IDENT, "IDENT"), W(INT, "1"), O(47, "/"), W(STR, "\"k\""),
  W(IDENT, "true"), O(33, "!")>>)
IsBody == IOEnv.VOCAB = "body"
Vocab == TLCEval(IF IsBody THEN BodyTokens ELSE TextTokens)
Pick == TLCEval({j \in DOMAIN Vocab : j <= Len(IOEnv.PICK) /\ SubSeq(IOEnv.PICK, j, j) = "1"})
MaxLen == TLCEval(atoi(IOEnv.MAXLEN))
Pre == TLCEval(IF IsBody THEN <<W(IDENT, "doc"), O(61, "=")>> ELSE <<>>)
Post == TLCEval(IF IsBody THEN <<W(SEMI, ";"), W(IDENT, "a"), O(61, "="), W(IDENT, "IDENT"), W(STR, "\"k\""), W(SEMI, ";")>> ELSE <<>>)

VARIABLES w, r, rep
vars == <<w, r, rep>>
Word(x) == [j \in DOMAIN x |-> Vocab[x[j]]]
Before(x) == Pre \o Word(x)
\* the tokenizer adds a semicolon at the end of a text
EndSemi(K) == IF K # <<>> /\ K[Len(K)].k \in {IDENT, INT, STR} THEN Append(K, W(SEMI, "")) ELSE K
Whole(x) == EndSemi((Pre \o Word(x)) \o Post)

\* read on, leaving a token that needs its successor
RECURSIVE Advance(_, _)
Advance(K, s) ==
  IF ~Reading(s) \/ s.i > Len(K) THEN s
  ELSE IF s.i = Len(K) /\ (s.fr = <<>> \/ K[s.i].k = 47) THEN s
  ELSE Advance(K, TLCEval(ReadStep(K, s)))

\* --- the documented grammar of grammar texts -----------------------------------------
M(op, k, ch) == [op |-> op, k |-> k, ch |-> ch, nm |-> ""]
T1(k) == M("tok", k, <<>>)
Meta == TLCEval(<<
  M("and", 0, <<2, 35>>),          \* 1  text = +rule EOF
  M("rep1", 0, <<3>>),             \* 2
  M("and", 0, <<4, 5, 6, 7>>),     \* 3  rule = IDENT '=' grammar ';'
  T1(IDENT), T1(61), M("named", 0, <<8>>), T1(SEMI),
  M("list", 0, <<9, 10>>),         \* 8  grammar = sequence % '|'
  M("rep1", 0, <<11>>), T1(124),   \* 9  sequence = +(term | '!')
  M("or", 0, <<12, 13>>),          \* 11
  M("and", 0, <<14, 15>>), T1(33), \* 12 term = factor *(...)
  M("named", 0, <<16>>), M("rep0", 0, <<17>>),
  M("or", 0, <<18, 19, 20, 21, 22, 23>>),          \* 16 factor
  M("or", 0, <<29, 30, 31>>),      \* 17 '%' factor | "%=" factor | '/' IDENT
  T1(IDENT), T1(CHAR), T1(STR), T1(INT),
  M("and", 0, <<24, 6, 25>>),      \* 22 '(' grammar ')'
  M("and", 0, <<26, 14>>),         \* 23 prefix factor
  T1(40), T1(41),
  M("or", 0, <<27, 28, 32, 33, 34>>), T1(42), T1(43),
  M("and", 0, <<36, 14>>), M("and", 0, <<37, 14>>), M("and", 0, <<38, 4>>),   \* 29-31
  T1(63), T1(126), T1(64), M("eof", 0, <<>>), T1(37), T1(136), T1(47) >>)
Kinds(K) == [j \in DOMAIN K |-> K[j].k]
\* ... and what it does not say
Heads(K) == {j \in DOMAIN K : K[j].k = IDENT /\ j < Len(K) /\ K[j + 1].k = 61}
Marks(K) == {j \in DOMAIN K : K[j].k = IDENT /\ j > 1 /\ K[j - 1].k = 47}
Atoms(K) == (DOMAIN K \ Heads(K)) \ Marks(K)
Capital(s) == SubSeq(s, 1, 1) \in Upper
Valid(K) ==
  /\ \A a, b \in Heads(K) : a # b => K[a].lit # K[b].lit
  /\ \E a \in Heads(K) : K[a].lit = "doc"
  /\ \A j \in Atoms(K) :
       CASE K[j].k = INT -> K[j].lit = "1"
         [] K[j].k \in {CHAR} -> KindsOf(K[j].lit) # {}
         [] K[j].k = IDENT /\ Capital(K[j].lit) -> KindsOf(K[j].lit) # {}
         [] K[j].k = IDENT -> K[j].lit = "true" \/ \E a \in Heads(K) : K[a].lit = K[j].lit
         [] OTHER -> TRUE
MetaAccepts(K) == Sem(Meta, Kinds(K), 1, 0).r = "ok" /\ Valid(K)

\* --- writing a grammar as tokens ------------------------------------------------------
RECURSIVE Write(_, _, _), WriteAll(_, _, _, _, _)
Paren(yes, s) == IF yes THEN <<O(40, "(")>> \o s \o <<O(41, ")")>> ELSE s
KindToken(k) == LET s == KindLit[k] IN
  W(IF SubSeq(s, 1, 1) = "'" THEN CHAR ELSE IF SubSeq(s, 1, 1) = "\"" THEN STR ELSE IDENT, s)
Write(g, n, lvl) ==
  IF n = 0 THEN <<O(33, "!")>> ELSE
  LET x == g[n]
      un(k, s) == <<O(k, s)>> \o Write(g, x.ch[1], 4)
  IN CASE x.op = "tok" -> <<IF x.k < USER THEN KindToken(x.k) ELSE W(STR, x.nm)>>
       [] x.op = "true" -> <<W(INT, "1")>>
       [] x.op = "eof" -> <<W(IDENT, "EOF")>>
       [] x.op = "and" -> Paren(lvl > 2, WriteAll(g, x.ch, 1, <<>>, 3))
       [] x.op = "or" -> Paren(lvl > 1, WriteAll(g, x.ch, 1, <<O(124, "|")>>, 1))
       [] x.op = "rep0" -> un(42, "*") [] x.op = "rep1" -> un(43, "+") [] x.op = "rep01" -> un(63, "?")
       [] x.op = "not" -> un(126, "~") [] x.op = "peek" -> un(64, "@")
       [] x.op \in {"list", "list0"} ->
            Paren(lvl > 3, (Write(g, x.ch[1], 3) \o <<IF x.op = "list" THEN O(37, "%") ELSE O(136, "%=")>>) \o Write(g, x.ch[2], 4))
       [] x.op \in {"var", "named"} -> <<W(IDENT, x.nm)>>
       [] x.op = "act" -> Write(g, x.ch[1], lvl)
WriteAll(g, ch, i, sep, lvl) ==
  IF i > Len(ch) THEN <<>>
  ELSE (IF i > 1 THEN sep ELSE <<>>) \o Write(g, ch[i], lvl) \o WriteAll(g, ch, i + 1, sep, lvl)
RECURSIVE WriteRules(_, _)
WriteRules(s, j) ==
  IF j > Len(s.rules) THEN <<>>
  ELSE (<<W(IDENT, s.rules[j].nm), O(61, "=")>> \o Write(s.g, s.rules[j].n, 0)) \o (<<W(SEMI, ";")>> \o WriteRules(s, j + 1))

\* a grammar up to node numbers, marks and nested choices
RECURSIVE Tree(_, _), Alts(_, _, _)
Alts(g, ch, j) == IF j > Len(ch) THEN <<>>
                  ELSE LET t == Tree(g, ch[j]) IN
                       (IF t[1] = "or" THEN t[4] ELSE <<t>>) \o Alts(g, ch, j + 1)
Tree(g, n) ==
  IF n = 0 THEN <<"cut", 0, "", <<>>>>
  ELSE LET x == g[n] IN
       CASE x.op = "act" -> Tree(g, x.ch[1])
         [] x.op \in {"var", "named"} -> <<"rule", 0, x.nm, <<>>>>
         [] x.op = "or" -> <<"or", 0, "", Alts(g, x.ch, 1)>>
         [] OTHER -> <<x.op, x.k, x.nm, [j \in DOMAIN x.ch |-> Tree(g, x.ch[j])]>>
Rules(s) == {<<s.rules[j].nm, Tree(s.g, s.rules[j].n)>> : j \in DOMAIN s.rules}

\* --- outcomes -------------------------------------------------------------------------
InputText == <<"x", "k", "+">>
Inputs == TLCEval(UNION {[1 .. n -> 1 .. 3] : n \in 0 .. 2})
KindIn(s, j) == IF j = 3 THEN 43 ELSE IF j = 1 THEN IDENT
                ELSE IF Index(s.kws, "k") = 0 THEN IDENT ELSE USER + Index(s.kws, "k") - 1
Outcome(s, in) ==
  LET T == [j \in DOMAIN in |-> KindIn(s, in[j])]
      a == Sem(s.g, T, Get(s.rules, "doc").n, 0)
  IN [in |-> in, r |-> a.r, n |-> IF a.r = "ok" THEN Len(T) - a.c ELSE 0,
      acts |-> [j \in DOMAIN a.ev |-> [e |-> "act", i |-> a.ev[j].i, o |-> IF a.ev[j].n = 0 THEN -1 ELSE 2 * a.ev[j].p,
                                       n |-> a.ev[j].n, l |-> a.ev[j].l]]]

\* --- the machine ----------------------------------------------------------------------
Init == w = <<>> /\ r = Advance(Pre, ReadStart) /\ rep = FALSE
Extend == /\ rep /\ Len(w) < MaxLen /\ Reading(r)
          /\ \E j \in Pick : w' = Append(w, j)
          /\ r' = Advance(Before(w'), r)
          /\ rep' = FALSE
          /\ Tick(Tk.Extend)
Show == /\ ~rep /\ rep' = TRUE
        /\ LET K == Whole(w)
               s == TLCEval(ReadAll(K, r))
               ok == s.st = "done"
           IN /\ Assert(ok = MetaAccepts(K), <<"verdict differs from the documented grammar", w>>)
              /\ ok => LET K2 == TLCEval(WriteRules(s, 1))
                           s2 == TLCEval(ReadAll(K2, ReadStart))
                       IN /\ Assert(s2.st = "done" /\ Rules(s2) = Rules(s), <<"a written grammar reads differently", w>>)
                          /\ Assert(WriteRules(s2, 1) = K2, <<"writing is no fixed point", w>>)
              /\ PrintT("@@R " \o ToJson([t |-> [j \in DOMAIN K |-> K[j].txt], ok |-> ok, marks |-> IF ok THEN s.marks ELSE <<>>,
                                          out |-> IF ok /\ IsBody THEN {Outcome(s, in) : in \in Inputs} ELSE {}]))
              /\ IF ok THEN Tick(Tk.Accepted) ELSE Tick(Tk.Refused)
        /\ UNCHANGED <<w, r>>
Next == Extend \/ Show
Spec == Init /\ [][Next]_vars
ReaderOK == ReadOK(Before(w), r)
=============================================================================
