------------------------------- MODULE PegSem -------------------------------
(* Big-step meaning of grammars, written independently of the machine in     *)
(* Peg.tla: Sem(G, T, n, p) is what node n does at position p of T, as       *)
(*   [r |-> "ok" | "fail" | "abort", c |-> tokens consumed,                  *)
(*    l |-> elements counted, ev |-> events]                                 *)
(* The model checker compares both on every small grammar and input.         *)
EXTENDS Integers, Sequences, Tokens

R(r, c, l, ev) == [r |-> r, c |-> c, l |-> l, ev |-> ev]

RECURSIVE Sem(_, _, _, _), SeqSem(_, _, _, _, _, _, _), ChoiceSem(_, _, _, _, _, _), RepSem(_, _, _, _, _, _), ListSem(_, _, _, _, _, _)

\* parts i.. of a sequence, c tokens consumed before, cut passed or not
SeqSem(G, T, ch, i, p, c, cut) ==
  IF i > Len(ch) THEN R("ok", c, Len(ch), <<>>)
  ELSE IF ch[i] = 0 THEN SeqSem(G, T, ch, i + 1, p, c, TRUE)
  ELSE LET a == Sem(G, T, ch[i], p + c) IN
       IF a.r = "abort" THEN R("abort", 0, -1, a.ev)
       ELSE IF a.r = "fail" THEN R(IF cut THEN "abort" ELSE "fail", 0, -1, a.ev)
       ELSE LET b == SeqSem(G, T, ch, i + 1, p, c + a.c, cut) IN [b EXCEPT !.ev = a.ev \o b.ev]

ChoiceSem(G, T, ch, i, p, n) ==
  IF i > Len(ch) THEN R("fail", 0, -1, <<>>)
  ELSE LET a == Sem(G, T, ch[i], p) IN
       IF a.r = "ok" THEN [a EXCEPT !.l = n]
       ELSE IF a.r = "abort" THEN R("abort", 0, -1, a.ev)
       ELSE LET b == ChoiceSem(G, T, ch, i + 1, p, n) IN [b EXCEPT !.ev = a.ev \o b.ev]

\* as many x as match; an empty element counts and is the last one
RepSem(G, T, x, p, c, k) ==
  LET a == Sem(G, T, x, p + c) IN
  IF a.r = "abort" THEN R("abort", 0, -1, a.ev)
  ELSE IF a.r = "fail" THEN R("ok", c, k, a.ev)
  ELSE IF a.c = 0 THEN R("ok", c, k + 1, a.ev)
  ELSE LET b == RepSem(G, T, x, p, c + a.c, k + 1) IN [b EXCEPT !.ev = a.ev \o b.ev]

\* further ", x" pairs; a trailing separator is not part of the list
ListSem(G, T, nd, p, c, k) ==
  LET s == Sem(G, T, nd.ch[2], p + c) IN
  IF s.r = "abort" THEN R("abort", 0, -1, s.ev)
  ELSE IF s.r = "fail" THEN R("ok", c, k, s.ev)
  ELSE LET x == Sem(G, T, nd.ch[1], p + c + s.c) IN
       IF x.r = "abort" THEN R("abort", 0, -1, s.ev \o x.ev)
       ELSE IF x.r = "fail" THEN R("ok", c, k, s.ev \o x.ev)
       ELSE IF s.c + x.c = 0 THEN R("ok", c, k + 1, s.ev \o x.ev)
       ELSE LET b == ListSem(G, T, nd, p, c + s.c + x.c, k + 1) IN [b EXCEPT !.ev = s.ev \o x.ev \o b.ev]

Sem(G, T, n, p) ==
  LET g == G[n]
      sub == Sem(G, T, g.ch[1], p)
      look(want) == IF sub.r = "abort" THEN R("abort", 0, -1, sub.ev)
                    ELSE R(IF sub.r = want THEN "ok" ELSE "fail", 0, -1, sub.ev)
  IN CASE g.op = "tok" -> IF p < Len(T) /\ Accepts(g.k, T[p + 1]) THEN R("ok", 1, -1, <<>>) ELSE R("fail", 0, -1, <<>>)
       [] g.op = "true" -> R("ok", 0, -1, <<>>)
       [] g.op = "eof" -> R(IF p = Len(T) THEN "ok" ELSE "fail", 0, -1, <<>>)
       [] g.op = "and" -> SeqSem(G, T, g.ch, 1, p, 0, FALSE)
       [] g.op = "or" -> ChoiceSem(G, T, g.ch, 1, p, Len(g.ch))
       [] g.op = "rep0" -> RepSem(G, T, g.ch[1], p, 0, 0)
       [] g.op = "rep1" -> IF sub.r # "ok" THEN sub
                           ELSE LET b == RepSem(G, T, g.ch[1], p, sub.c, 1) IN [b EXCEPT !.ev = sub.ev \o b.ev]
       [] g.op = "rep01" -> IF sub.r = "abort" THEN sub
                            ELSE IF sub.r = "ok" THEN R("ok", sub.c, 1, sub.ev) ELSE R("ok", 0, 0, sub.ev)
       [] g.op \in {"list", "list0"} ->
            IF sub.r = "abort" THEN sub
            ELSE IF sub.r = "fail" THEN (IF g.op = "list" THEN sub ELSE R("ok", 0, 0, sub.ev))
            ELSE LET b == ListSem(G, T, g, p, sub.c, 1) IN [b EXCEPT !.ev = sub.ev \o b.ev]
       [] g.op = "not" -> look("fail")
       [] g.op = "peek" -> look("ok")
       [] g.op \in {"var", "named"} -> IF g.ch[1] = 0 THEN R("fail", 0, -1, <<>>) ELSE [sub EXCEPT !.l = -1]
       [] g.op = "act" -> IF sub.r = "ok"
                          THEN R("ok", sub.c, sub.l, Append(sub.ev, [e |-> "act", i |-> g.k, p |-> p, n |-> sub.c, l |-> sub.l]))
                          ELSE sub
       [] g.op = "trans" ->
            LET ev == <<[e |-> "begin", i |-> g.k]>> \o sub.ev IN
            IF sub.r = "abort" THEN [sub EXCEPT !.ev = ev]
            ELSE R(sub.r, sub.c, sub.l, Append(ev, [e |-> "end", i |-> g.k, f |-> sub.r = "fail"]))
=============================================================================
