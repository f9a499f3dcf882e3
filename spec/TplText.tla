------------------------------ MODULE TplText -------------------------------
(* The grammar language: reading a grammar text, token by token.             *)
(*                                                                           *)
(*   text    = +( name '=' grammar ';' )                                     *)
(*   grammar = sequence % '|'                                                *)
(*   sequence= +( term | '!' )                                               *)
(*   term    = factor *( '%' factor | "%=" factor | '/' mark )               *)
(*   factor  = name | kind | operator | keyword | 1 | '(' grammar ')'        *)
(*             | ('*' | '+' | '?' | '~' | '@') factor                        *)
(*                                                                           *)
(* A token is [k, lit]. The reader state r:                                  *)
(*   i     next token                                                        *)
(*   st    "run" | "bad" | "done"                                            *)
(*   g     grammar table built so far (format of Peg.tla)                    *)
(*   fr    open groups, innermost last: [pre prefixes still to apply, alts,  *)
(*         parts, cur term being read (0: none), pend "" | "list" | "list0"] *)
(*   rules [nm, n]: rules defined so far, with the node of their body        *)
(*   vars  [nm, n, set]: names used before a definition                      *)
(*   kws   keywords in order of discovery                                    *)
(*   marks mark names in textual order; mark j is action j                   *)
(*   name  of the rule being read                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Tokens

Group == [pre |-> <<>>, alts |-> <<>>, parts |-> <<>>, cur |-> 0, pend |-> ""]
ReadStart == [i |-> 1, st |-> "run", g |-> <<>>, fr |-> <<>>, rules |-> <<>>, vars |-> <<>>, kws |-> <<>>,
              marks |-> <<>>, name |-> ""]

GNode(op, k, ch, nm) == [op |-> op, k |-> k, ch |-> ch, nm |-> nm]
Bad(r) == [r EXCEPT !.st = "bad"]
Reading(r) == r.st = "run"

Has(seq, nm) == \E j \in DOMAIN seq : seq[j].nm = nm
Get(seq, nm) == seq[CHOOSE j \in DOMAIN seq : seq[j].nm = nm]
Index(seq, x) == IF \E j \in DOMAIN seq : seq[j] = x THEN CHOOSE j \in DOMAIN seq : seq[j] = x ELSE 0

Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
First(s) == SubSeq(s, 1, 1)
KindsOf(lit) == {k \in DOMAIN KindLit : KindLit[k] = lit /\ k # ILLEGAL}

\* an atom: <<r with node added, node>>, or <<bad r, 0>>
Add(r, nd) == <<[r EXCEPT !.g = Append(@, nd)], Len(r.g) + 1>>
Refuse(r) == <<Bad(r), 0>>
KindAtom(r, lit) ==
  LET ks == KindsOf(lit) IN
  IF ks = {} THEN Refuse(r)
  ELSE LET k == CHOOSE k \in ks : TRUE IN
       IF k = EOFK THEN Add(r, GNode("eof", 0, <<>>, "")) ELSE Add(r, GNode("tok", k, <<>>, ""))
NameAtom(r, nm) ==
  IF Has(r.rules, nm) THEN Add(r, GNode("named", 0, <<Get(r.rules, nm).n>>, nm))
  ELSE IF Has(r.vars, nm) THEN <<r, Get(r.vars, nm).n>>
  ELSE IF nm = "true" THEN Add(r, GNode("true", 0, <<>>, ""))
  ELSE LET a == Add(r, GNode("var", 0, <<0>>, nm)) IN
       <<[a[1] EXCEPT !.vars = Append(@, [nm |-> nm, n |-> a[2], set |-> FALSE])], a[2]>>
WordAtom(r, lit) ==                                  \* an operator or a keyword, in quotes
  IF KindsOf(lit) # {} THEN KindAtom(r, lit)
  ELSE IF First(lit) # "\"" THEN Refuse(r)
  ELSE LET w == SubSeq(lit, 2, Len(lit) - 1)
           r2 == IF Index(r.kws, w) = 0 THEN [r EXCEPT !.kws = Append(@, w)] ELSE r
       IN Add(r2, GNode("tok", USER + Index(r2.kws, w) - 1, <<>>, lit))
AtomKinds == {IDENT, CHAR, STR, INT}
Atom(r, t) ==
  CASE t.k = IDENT -> IF First(t.lit) \in Upper THEN KindAtom(r, t.lit) ELSE NameAtom(r, t.lit)
    [] t.k = CHAR -> KindAtom(r, t.lit)
    [] t.k = STR -> WordAtom(r, t.lit)
    [] t.k = INT -> IF t.lit = "1" THEN Add(r, GNode("true", 0, <<>>, "")) ELSE Refuse(r)

PrefixOp == [k \in {42, 43, 63, 126, 64} |->
  CASE k = 42 -> "rep0" [] k = 43 -> "rep1" [] k = 63 -> "rep01" [] k = 126 -> "not" [] k = 64 -> "peek"]

TopG(r) == r.fr[Len(r.fr)]
SetTopG(r, f) == [r EXCEPT !.fr[Len(r.fr)] = f]

\* a factor has been read: apply the prefixes and the pending list operator
RECURSIVE Prefixed(_, _, _)
Prefixed(r, pre, n) ==
  IF pre = <<>> THEN <<r, n>>
  ELSE LET a == Add(r, GNode(pre[Len(pre)], 0, <<n>>, "")) IN Prefixed(a[1], SubSeq(pre, 1, Len(pre) - 1), a[2])
GotFactor(r, n0) ==
  LET f == TopG(r)
      a == Prefixed(r, f.pre, n0)
  IN IF f.pend = "" THEN SetTopG(a[1], [f EXCEPT !.pre = <<>>, !.cur = a[2]])
     ELSE LET b == Add(a[1], GNode(f.pend, 0, <<f.cur, a[2]>>, "")) IN
          SetTopG(b[1], [f EXCEPT !.pre = <<>>, !.cur = b[2], !.pend = ""])

\* between factors
Closed(f) == f.pre = <<>> /\ f.pend = ""
\* the current term joins the sequence
EndTerm(f) == IF f.cur = 0 THEN f ELSE [f EXCEPT !.parts = Append(@, f.cur), !.cur = 0]
\* <<r, f>>: the sequence becomes an alternative
EndSeq(r, f0) ==
  LET f == EndTerm(f0) IN
  IF Len(f.parts) = 1 /\ f.parts[1] # 0
  THEN <<r, [f EXCEPT !.alts = Append(@, f.parts[1]), !.parts = <<>>]>>
  ELSE LET a == Add(r, GNode("and", 0, f.parts, "")) IN <<a[1], [f EXCEPT !.alts = Append(@, a[2]), !.parts = <<>>]>>
\* <<r, node>>: the choice is complete
EndChoice(r, f0) ==
  LET s == EndSeq(r, f0) IN
  IF Len(s[2].alts) = 1 THEN <<s[1], s[2].alts[1]>> ELSE Add(s[1], GNode("or", 0, s[2].alts, ""))

Define(r, nm, n) ==
  IF Has(r.vars, nm) THEN
    (LET v == Get(r.vars, nm) IN
     IF v.set THEN Bad(r)
     ELSE [r EXCEPT !.vars = [j \in DOMAIN @ |-> IF @[j].nm = nm THEN [@[j] EXCEPT !.set = TRUE] ELSE @[j]],
                    !.g[v.n].ch = <<n>>,
                    !.rules = Append(SelectSeq(@, LAMBDA x : x.nm # nm), [nm |-> nm, n |-> n])])
  ELSE IF Has(r.rules, nm) THEN Bad(r)
  ELSE [r EXCEPT !.rules = Append(@, [nm |-> nm, n |-> n])]

\* what the next token does (for named actions)
ReadKind(K, r) ==
  IF r.i > Len(K) THEN (IF r.fr = <<>> THEN "end" ELSE "stray")
  ELSE LET t == K[r.i] IN
  IF r.fr = <<>> THEN (IF t.k = IDENT /\ r.i < Len(K) /\ K[r.i + 1].k = 61 THEN "rule" ELSE "stray")
  ELSE LET f == TopG(r)
           closed == Closed(f)
           nonempty == f.cur # 0 \/ f.parts # <<>>
  IN CASE t.k \in AtomKinds -> "atom"
       [] t.k \in DOMAIN PrefixOp -> "prefix"
       [] t.k = 40 -> "open"
       [] t.k = 33 /\ closed -> "cut"
       [] t.k = 37 /\ closed /\ f.cur # 0 -> "list"
       [] t.k = 136 /\ closed /\ f.cur # 0 -> "list0"
       [] t.k = 47 /\ closed /\ f.cur # 0 /\ r.i < Len(K) /\ K[r.i + 1].k = IDENT -> "mark"
       [] t.k = 124 /\ closed /\ nonempty -> "or"
       [] t.k = 41 /\ closed /\ nonempty /\ Len(r.fr) > 1 -> "close"
       [] t.k = SEMI /\ closed /\ nonempty /\ Len(r.fr) = 1 -> "assign"
       [] OTHER -> "stray"

\* an operand begins: if a term stands complete, it is one more part of the sequence
Begin(r) == LET f == TopG(r) IN IF Closed(f) THEN SetTopG(r, EndTerm(f)) ELSE r

ReadStep(K, r) ==
  LET what == ReadKind(K, r)
      t == K[r.i]
      go == [r EXCEPT !.i = @ + 1]
      f == TopG(r)
  IN CASE what = "stray" -> Bad(r)
       [] what = "end" ->
            IF Has(r.rules, "doc") /\ \A j \in DOMAIN r.vars : r.vars[j].set
            THEN [r EXCEPT !.st = "done"] ELSE Bad(r)
       [] what = "rule" -> [r EXCEPT !.i = @ + 2, !.name = t.lit, !.fr = <<Group>>]
       [] what = "atom" -> LET a == Atom(Begin(go), t) IN IF a[2] = 0 THEN a[1] ELSE GotFactor(a[1], a[2])
       [] what = "prefix" -> LET b == Begin(go) IN SetTopG(b, [TopG(b) EXCEPT !.pre = Append(@, PrefixOp[t.k])])
       [] what = "open" -> LET b == Begin(go) IN [b EXCEPT !.fr = Append(@, Group)]
       [] what = "cut" -> SetTopG(go, [EndTerm(f) EXCEPT !.parts = Append(@, 0)])
       [] what \in {"list", "list0"} -> SetTopG(go, [f EXCEPT !.pend = what])
       [] what = "mark" ->
            LET nm == K[r.i + 1].lit
                a == Add(r, GNode("act", Len(r.marks) + 1, <<f.cur>>, nm))
            IN [SetTopG(a[1], [f EXCEPT !.cur = a[2]]) EXCEPT !.i = @ + 2, !.marks = Append(@, nm)]
       [] what = "or" -> LET s == EndSeq(go, f) IN SetTopG(s[1], s[2])
       [] what = "close" -> LET c == EndChoice(go, f) IN GotFactor([c[1] EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)], c[2])
       [] what = "assign" -> LET c == EndChoice(go, f) IN Define([c[1] EXCEPT !.fr = <<>>], r.name, c[2])

\* a fold, as the cost of a recursion grows with its depth
ReadAll(K, r) == FoldLeft(LAMBDA a, j : IF Reading(a) THEN TLCEval(ReadStep(K, a)) ELSE a, r, [j \in 1 .. Len(K) + 1 |-> j])

\* --- invariants of every reader state -----------------------------------------------
ReadOK(K, r) ==
  /\ r.i \in 1 .. Len(K) + 1
  /\ \A n \in DOMAIN r.g : \A j \in DOMAIN r.g[n].ch : r.g[n].ch[j] \in 0 .. Len(r.g)
  \* only a sequence holds cuts, only an unassigned rule has no body
  /\ \A n \in DOMAIN r.g : (\E j \in DOMAIN r.g[n].ch : r.g[n].ch[j] = 0) =>
        r.g[n].op = "and" \/ (r.g[n].op = "var" /\ \E v \in DOMAIN r.vars : r.vars[v].n = n /\ ~r.vars[v].set)
  \* one action per mark, numbered in textual order
  /\ \A j \in DOMAIN r.marks : \E n \in DOMAIN r.g : r.g[n].op = "act" /\ r.g[n].k = j /\ r.g[n].nm = r.marks[j]
  /\ \A a, b \in DOMAIN r.kws : a # b => r.kws[a] # r.kws[b]
  /\ r.st = "done" => Has(r.rules, "doc") /\ \A n \in DOMAIN r.g : r.g[n].op = "var" => r.g[n].ch # <<0>>
=============================================================================
