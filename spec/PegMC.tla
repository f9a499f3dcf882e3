------------------------------- MODULE PegMC --------------------------------
(* Every grammar of bounded depth over a small alphabet, on every input of  *)
(* up to MaxIn tokens: the machine of Peg.tla is explored, its invariants   *)
(* are checked, it is compared with the big-step meaning of PegSem.tla, it  *)
(* must terminate, and its predictions are printed for replay in the code.  *)
(*                                                                          *)
(* Grammars are numbered: index 0 .. Count(D)-1 denotes a tree of depth D   *)
(* by mixed radix. Lo, Stride, Num select the numbers of this run (all of   *)
(* them with Stride = 1 and Num = Count(D)).                                *)
EXTENDS Peg, PegSem, Json, IOUtils

D == atoi(IOEnv.DEPTH)
MaxIn == atoi(IOEnv.MAXIN)
Lo == atoi(IOEnv.LO)
Stride == atoi(IOEnv.STRIDE)
Num == atoi(IOEnv.NUM)
DoPrint == IOEnv.PRINT = "1"

Leaves == <<[op |-> "tok", k |-> IDENT], [op |-> "tok", k |-> INT], [op |-> "true", k |-> 0], [op |-> "eof", k |-> 0]>>
Unary == <<"rep0", "rep1", "rep01", "not", "peek", "act", "trans">>
Binary == <<"and", "cut", "or", "list", "list0">>

RECURSIVE Count(_)
Count(d) == IF d = 0 THEN Len(Leaves)
            ELSE Len(Leaves) + Len(Unary) * Count(d - 1) + Len(Binary) * Count(d - 1) * Count(d - 1)

Node(op, k, ch) == [op |-> op, k |-> k, ch |-> ch, nm |-> ""]
Shift(g, o) == [i \in DOMAIN g |-> [g[i] EXCEPT !.ch = [j \in DOMAIN g[i].ch |-> IF g[i].ch[j] = 0 THEN 0 ELSE g[i].ch[j] + o],
                                               !.k = IF g[i].op \in {"act", "trans"} THEN g[i].k + o ELSE g[i].k]]
\* the table of grammar number x of depth d; its last node is the root
RECURSIVE Decode(_, _)
Decode(x, d) ==
  IF x < Len(Leaves) THEN <<Node(Leaves[x + 1].op, Leaves[x + 1].k, <<>>)>>
  ELSE LET y == x - Len(Leaves)
           n == Count(d - 1)
       IN IF y < Len(Unary) * n
          THEN LET a == Decode(y % n, d - 1)
                   op == Unary[y \div n + 1]
               IN Append(a, Node(op, IF op \in {"act", "trans"} THEN Len(a) + 1 ELSE 0, <<Len(a)>>))
          ELSE LET z == y - Len(Unary) * n
                   op == Binary[z \div (n * n) + 1]
                   a == Decode((z \div n) % n, d - 1)
                   b == Shift(Decode(z % n, d - 1), Len(a))
                   la == Len(a)
                   lb == Len(a) + Len(b)
               IN (a \o b) \o <<IF op = "cut" THEN Node("and", 0, <<la, 0, lb>>) ELSE Node(op, 0, <<la, lb>>)>>

Inputs == UNION {[1 .. n -> {IDENT, INT}] : n \in 0 .. MaxIn}

\* what acts on the grammar index: spread the selected numbers over the whole range
Index(j) == (Lo + j * Stride) % Count(D)

Grammars == [j \in 0 .. Num - 1 |-> Decode(Index(j), D)]

VARIABLES ix, T, m, done
vars == <<ix, T, m, done>>
G == Grammars[ix]

Init == /\ ix \in 0 .. Num - 1
        /\ T \in Inputs
        /\ m = PegStart(Len(Grammars[ix]), 0)
        /\ done = FALSE

Step == /\ ~Terminal(m)
        /\ m' = PegStep(G, T, m)
        /\ UNCHANGED <<ix, T, done>>

RECURSIVE Text(_, _)
Text(t, i) == IF i > Len(t) THEN "" ELSE (IF t[i] = IDENT THEN "a" ELSE "7") \o " " \o Text(t, i + 1)
RECURSIVE ErrObs(_, _)
ErrObs(g, e) ==
  IF e.n = -1 THEN [g |-> "", p |-> -1, x |-> -1, inner |-> <<>>]
  ELSE IF e.n = 0 THEN [g |-> "", p |-> 0, x |-> 0, inner |-> <<>>]
  ELSE [g |-> Show(g, e.n, 0), p |-> e.p, x |-> e.x, inner |-> [j \in DOMAIN e.inner |-> ErrObs(g, e.inner[j])]]

Report == /\ Terminal(m) /\ ~done
          /\ done' = TRUE
          /\ DoPrint => LET g == G IN PrintT("@@R " \o ToJson(
               [g |-> g, root |-> Len(g), src |-> Text(T, 1),
                exp |-> [r |-> IF m.md = "abort" THEN "abort" ELSE IF m.ok THEN "ok" ELSE "fail",
                         n |-> IF m.md = "done" /\ m.ok THEN m.c ELSE 0,
                         log |-> [j \in DOMAIN m.log |-> IF m.log[j].e = "act" /\ m.log[j].n = 0
                                                         THEN [m.log[j] EXCEPT !.p = -1] ELSE m.log[j]],
                         err |-> ErrObs(g, m.e)]]))
          /\ UNCHANGED <<ix, T, m>>

Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- properties ----------------------------------------------------------------
TypeOK == PegTypeOK(G, T, m)
ConsumedInSource == InSource(T, m)
BlameInSource == m.md \in {"ret", "done", "abort"} /\ ~m.ok => ErrInSource(T, m.e)
Nested == Terminal(m) => TransNest(m)
ActionsInSource == ActsInSource(T, m)
Terminates == <>done

\* the machine computes the big-step meaning
PlainLog(l) == [j \in DOMAIN l |-> IF l[j].e = "act" THEN l[j]
                                   ELSE IF l[j].e = "begin" THEN [e |-> "begin", i |-> l[j].i]
                                   ELSE [e |-> "end", i |-> l[j].i, f |-> l[j].f]]
Meaning ==
  Terminal(m) /\ ~done =>
    LET s == Sem(G, T, Len(G), 0) IN
    /\ s.r = (IF m.md = "abort" THEN "abort" ELSE IF m.ok THEN "ok" ELSE "fail")
    /\ (s.r = "ok" => s.c = m.c)
    /\ s.ev = PlainLog(m.log)
\* a cut failure is final: nothing happens after the machine has aborted
CutFinal == m.md = "abort" => ~ENABLED Step
=============================================================================
