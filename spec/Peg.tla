------------------------------- MODULE Peg --------------------------------
(* The matcher of tpl/grammar.go as a small-step machine.                   *)
(*                                                                          *)
(* A grammar is a table (sequence) of nodes                                 *)
(*   [op, k, ch, nm]                                                        *)
(* op : "tok" "true" "eof" "and" "or" "rep0" "rep1" "rep01" "list" "list0"  *)
(*      "not" "peek" "var" "named" "act" "trans"                            *)
(* k  : token kind ("tok"), callback id ("act", "trans")                    *)
(* ch : child nodes; in "and", child 0 is the cut '!'; in "var"/"named",    *)
(*      child 0 is an unassigned rule                                       *)
(* nm : printed name ("var", "named") or literal ("tok")                    *)
(*                                                                          *)
(* A machine state m is a record                                            *)
(*   st  : stack of frames [n, p, i, c, k, f, b]                            *)
(*           n node, p start position (tokens already consumed before it),  *)
(*           i parts done, c tokens consumed so far, k elements counted,    *)
(*           f cut passed, b <<furthest, unique?, error>> of a choice       *)
(*   md  : "call" | "ret" | "done" | "abort"                                *)
(*   n,p : node and position to match (md = "call")                         *)
(*   ok, c, len, e : outcome (md = "ret" or terminal)                       *)
(*   log : events seen by the host                                          *)
(*   tv  : last transaction value handed out                                *)
(* Errors: [n, p, x, inner]: node, index of the first token of its source,  *)
(* index of the failing token relative to p, and <<cause>> or <<>>;         *)
(* n = 0 stands for "variable is not assigned".                             *)
EXTENDS Integers, Sequences, TLC, Tokens

Err(n, p, x, inner) == [n |-> n, p |-> p, x |-> x, inner |-> inner]
NoErr == [n |-> -1, p |-> 0, x |-> 0, inner |-> <<>>]
Unassigned == [n |-> 0, p |-> 0, x |-> 0, inner |-> <<>>]

Frame(n, p) == [n |-> n, p |-> p, i |-> 0, c |-> 0, k |-> 0, f |-> FALSE, b |-> <<0, FALSE, NoErr>>, v |-> 0]

PegStart(root, p) ==
  [st |-> <<>>, md |-> "call", n |-> root, p |-> p, ok |-> TRUE, c |-> 0, len |-> -1, e |-> NoErr,
   log |-> <<>>, tv |-> 0]

Terminal(m) == m.md \in {"done", "abort"}

\* --- moves -----------------------------------------------------------------
Ret(m, ok, c, len, e) == [m EXCEPT !.md = "ret", !.ok = ok, !.c = c, !.len = len, !.e = e]
Match(m, c, len) == Ret(m, TRUE, c, len, NoErr)
Fail(m, c, e) == Ret(m, FALSE, c, -1, e)
Call(m, n, p) == [m EXCEPT !.md = "call", !.n = n, !.p = p]
Push(m, fr) == [m EXCEPT !.st = Append(@, fr)]
Top(m) == m.st[Len(m.st)]
Pop(m) == [m EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
SetTop(m, fr) == [m EXCEPT !.st[Len(m.st)] = fr]
Abort(m, e) == [m EXCEPT !.md = "abort", !.ok = FALSE, !.e = e, !.c = 0, !.len = -1]
Log(m, ev) == [m EXCEPT !.log = Append(@, ev)]

\* --- sequence: advance over cuts to the next part, or finish ----------------
RECURSIVE AndNext(_, _, _)
AndNext(G, m, fr) ==          \* fr: the frame of the sequence, on top of the stack
  LET ch == G[fr.n].ch IN
  IF fr.i = Len(ch) THEN Match(Pop(m), fr.c, Len(ch))
  ELSE IF ch[fr.i + 1] = 0 THEN AndNext(G, m, [fr EXCEPT !.i = @ + 1, !.f = TRUE])
  ELSE Call(SetTop(m, [fr EXCEPT !.i = @ + 1]), ch[fr.i + 1], fr.p + fr.c)

\* --- a node is called --------------------------------------------------------
PegCall(G, T, m) ==
  LET n == m.n
      p == m.p
      g == G[n]
      fr == Frame(n, p)
      here == Err(n, p, 0, <<>>)
  IN CASE g.op = "tok"   -> IF p < Len(T) /\ Accepts(g.k, T[p + 1]) THEN Match(m, 1, -1) ELSE Fail(m, 0, here)
       [] g.op = "true"  -> Match(m, 0, -1)
       [] g.op = "eof"   -> IF p = Len(T) THEN Match(m, 0, -1) ELSE Fail(m, 0, here)
       [] g.op = "and"   -> AndNext(G, Push(m, fr), fr)
       [] g.op = "or"    -> IF Len(g.ch) = 0 THEN Fail(m, 0, here)
                            ELSE Call(Push(m, [fr EXCEPT !.i = 1]), g.ch[1], p)
       [] g.op \in {"var", "named"} ->
                            IF g.ch[1] = 0 THEN Fail(m, 0, Unassigned) ELSE Call(Push(m, fr), g.ch[1], p)
       [] g.op = "trans" -> LET v == m.tv + 1 IN
                            Call(Log([Push(m, [fr EXCEPT !.v = v]) EXCEPT !.tv = v],
                                     [e |-> "begin", i |-> g.k, v |-> v]), g.ch[1], p)
       [] OTHER          -> Call(Push(m, fr), g.ch[1], p)

\* --- the part called by the frame on top has returned ------------------------
PegRet(G, T, m) ==
  IF m.st = <<>> THEN [m EXCEPT !.md = "done"]
  ELSE
  LET fr == Top(m)
      g == G[fr.n]
      here == Err(fr.n, fr.p, 0, <<>>)
      up == Pop(m)
  IN CASE g.op = "and" ->
            IF m.ok THEN AndNext(G, m, [fr EXCEPT !.c = @ + m.c])
            ELSE IF fr.f THEN Abort(m, Err(fr.n, fr.p, fr.c + m.c, <<m.e>>))
            ELSE Fail(up, fr.c + m.c, m.e)
       [] g.op = "or" ->
            IF m.ok THEN Match(up, m.c, Len(g.ch))
            ELSE LET b == IF m.c > fr.b[1] THEN <<m.c, TRUE, m.e>>
                          ELSE IF m.c = fr.b[1] THEN <<fr.b[1], FALSE, NoErr>>
                          ELSE fr.b
                 IN IF fr.i = Len(g.ch)
                    THEN Fail(up, b[1], IF b[2] THEN b[3] ELSE here)
                    ELSE Call(SetTop(m, [fr EXCEPT !.i = @ + 1, !.b = b]), g.ch[fr.i + 1], fr.p)
       [] g.op = "rep0" ->
            IF ~m.ok THEN Match(up, fr.c, fr.k)
            ELSE IF m.c = 0 THEN Match(up, fr.c, fr.k + 1)
            ELSE LET f2 == [fr EXCEPT !.c = @ + m.c, !.k = @ + 1] IN Call(SetTop(m, f2), g.ch[1], fr.p + f2.c)
       [] g.op = "rep1" ->          \* G followed by *G
            IF ~m.ok THEN (IF fr.k = 0 THEN Fail(up, m.c, m.e) ELSE Match(up, fr.c, fr.k))
            ELSE IF m.c = 0 /\ fr.k > 0 THEN Match(up, fr.c, fr.k + 1)
            ELSE LET f2 == [fr EXCEPT !.c = @ + m.c, !.k = @ + 1] IN Call(SetTop(m, f2), g.ch[1], fr.p + f2.c)
       [] g.op = "rep01" ->
            IF m.ok THEN Match(up, m.c, 1) ELSE Match(up, 0, 0)
       [] g.op \in {"list", "list0"} ->      \* i = 0: first element; 1: separator; 2: further element
            LET next(f2) == Call(SetTop(m, f2), g.ch[2], fr.p + f2.c) IN
            (CASE fr.i = 0 -> IF m.ok THEN next([fr EXCEPT !.i = 1, !.c = m.c, !.k = 1])
                             ELSE IF g.op = "list0" THEN Match(up, 0, 0)
                             ELSE Fail(up, m.c, m.e)
              [] fr.i = 1 -> IF m.ok THEN Call(SetTop(m, [fr EXCEPT !.i = 2, !.v = m.c]), g.ch[1], fr.p + fr.c + m.c)
                             ELSE Match(up, fr.c, fr.k)
              [] fr.i = 2 -> IF ~m.ok THEN Match(up, fr.c, fr.k)
                             ELSE IF fr.v + m.c = 0 THEN Match(up, fr.c, fr.k + 1)
                             ELSE next([fr EXCEPT !.i = 1, !.c = @ + fr.v + m.c, !.k = @ + 1]))
       [] g.op = "not" -> IF m.ok THEN Fail(up, 0, here) ELSE Match(up, 0, -1)
       [] g.op = "peek" -> IF m.ok THEN Match(up, 0, -1) ELSE Fail(up, 0, here)
       [] g.op \in {"var", "named"} -> IF m.ok THEN Match(up, m.c, -1) ELSE up
       [] g.op = "act" -> IF m.ok THEN Log(up, [e |-> "act", i |-> g.k, p |-> fr.p, n |-> m.c, l |-> m.len]) ELSE up
       [] g.op = "trans" -> Log(up, [e |-> "end", i |-> g.k, v |-> fr.v, f |-> ~m.ok])

PegStep(G, T, m) == IF m.md = "call" THEN PegCall(G, T, m) ELSE PegRet(G, T, m)

\* the operation performed by the next step (for named actions and coverage)
PegOp(G, m) ==
  IF Terminal(m) THEN "halt"
  ELSE IF m.md = "call" THEN G[m.n].op
  ELSE IF m.st = <<>> THEN "finish" ELSE "ret-" \o G[Top(m).n].op

\* --- printed form of a grammar (Marshal) --------------------------------------
RECURSIVE Show(_, _, _), ShowAll(_, _, _, _, _)
\* binding strength of the context: 0 top, 1 choice, 2 sequence, 3 list, 4 prefix
Paren(need, s) == IF need THEN "(" \o s \o ")" ELSE s
Show(G, n, lvl) ==
  IF n = 0 THEN "!" ELSE
  LET g == G[n] IN
  CASE g.op = "tok" -> IF g.k < USER THEN KindLit[g.k] ELSE g.nm
    [] g.op = "true" -> "1"
    [] g.op = "eof" -> "EOF"
    [] g.op = "and" -> Paren(lvl > 2, ShowAll(G, g.ch, 1, " ", 3))
    [] g.op = "or" -> Paren(lvl > 1, ShowAll(G, g.ch, 1, " | ", 1))
    [] g.op = "rep0" -> "*" \o Show(G, g.ch[1], 4)
    [] g.op = "rep1" -> LET s == Show(G, g.ch[1], 4) IN
                        IF Len(s) > 0 /\ SubSeq(s, 1, 1) = "+" THEN "+ " \o s ELSE "+" \o s
    [] g.op = "rep01" -> "?" \o Show(G, g.ch[1], 4)
    [] g.op = "not" -> "~" \o Show(G, g.ch[1], 4)
    [] g.op = "peek" -> "@" \o Show(G, g.ch[1], 4)
    [] g.op \in {"list", "list0"} ->
         Paren(lvl > 3, Show(G, g.ch[1], 3) \o (IF g.op = "list" THEN " % " ELSE " %= ") \o Show(G, g.ch[2], 4))
    [] g.op \in {"var", "named"} -> g.nm
    [] g.op \in {"act", "trans"} -> Show(G, g.ch[1], lvl)
ShowAll(G, ch, i, sep, lvl) ==
  IF i > Len(ch) THEN ""
  ELSE (IF i > 1 THEN sep ELSE "") \o Show(G, ch[i], lvl) \o ShowAll(G, ch, i + 1, sep, lvl)

\* --- invariants of every machine state -----------------------------------------
PegTypeOK(G, T, m) ==
  /\ m.md \in {"call", "ret", "done", "abort"}
  /\ m.n \in DOMAIN G
  /\ m.p \in 0 .. Len(T)
  /\ \A j \in DOMAIN m.st : LET f == m.st[j] IN f.p \in 0 .. Len(T) /\ f.p + f.c <= Len(T)

\* nothing beyond the source is consumed or blamed; a match never consumes more than is left
InSource(T, m) ==
  m.md \in {"ret", "done"} =>
    /\ m.c >= 0
    /\ (m.st # <<>> /\ m.ok) => Top(m).p + Top(m).c + m.c <= Len(T)

RECURSIVE ErrInSource(_, _)
ErrInSource(T, e) ==
  e.n <= 0 \/ (e.p \in 0 .. Len(T) /\ e.x >= 0 /\ e.p + e.x <= Len(T) /\ \A j \in DOMAIN e.inner : ErrInSource(T, e.inner[j]))

\* events: an action reports a part of the source, transactions nest
RECURSIVE Nesting(_, _, _)
Nesting(log, i, open) ==      \* the transaction values still open after event i
  IF i > Len(log) THEN open
  ELSE IF log[i].e = "begin" THEN Nesting(log, i + 1, Append(open, log[i].v))
  ELSE IF log[i].e = "end"
       THEN IF open # <<>> /\ open[Len(open)] = log[i].v
            THEN Nesting(log, i + 1, SubSeq(open, 1, Len(open) - 1)) ELSE <<-1>>
  ELSE Nesting(log, i + 1, open)
TransNest(m) == LET o == Nesting(m.log, 1, <<>>) IN
  /\ o # <<-1>>
  /\ m.md = "done" => o = <<>>
ActsInSource(T, m) ==
  \A j \in DOMAIN m.log : m.log[j].e = "act" => m.log[j].p >= 0 /\ m.log[j].n >= 0 /\ m.log[j].p + m.log[j].n <= Len(T)
===========================================================================
