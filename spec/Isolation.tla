------------------------------ MODULE Isolation ------------------------------
(* Several engines in one process. Each has a program - evaluations of words *)
(* over i (a mark that calls back and pushes a number), x (an early mark     *)
(* that calls back), ( and ) (mute, unmute), p (a function that panics) -    *)
(* and cells of its own: mute depth, operand stack, function table, text.    *)
(* Engines are made and used by turns, or one within a call back of another; *)
(* a turn goes on to the next point where an engine is about to be made or   *)
(* used or calls back. Every engine must do what it does alone (Isolated).   *)
(*                                                                           *)
(* shared = {c}: cell c is common to all engines, as if an implementation    *)
(* kept it in one place. Schedules that show such a cell are printed with    *)
(* what the engines do alone, and replayed on real engines.                  *)
EXTENDS SequencesExt, FiniteSets, Ticks, IOUtils

Programs == <<
  <<"ixi">>, <<"(x)i">>, <<"i(x", "xi">>, <<"i", "i">>, <<"(xp)i", "i">>, <<"ip", "ix">>, <<")i(x", "i">>, <<"((x)xi)i">> >>
N == atoi(IOEnv.ENGINES)
PART == atoi(IOEnv.PART)          \* one of so many tuples of programs
SEED == atoi(IOEnv.SEED)
MODE == IOEnv.MODE
Cells == {"mute", "stk", "tbl", "txt"}
Tk == [TakeTurn |-> 1, Nest |-> 2, GoOn |-> 3, NextOuter |-> 4, Make |-> 5, Begin |-> 6, CallBack |-> 7, Silent |-> 8,
       Mute |-> 9, Pushed |-> 10, Panicked |-> 11, Finish |-> 12]
ASSUME TickStart(Tk)
Report == TickReport("Isolation", Tk)

\* --- one engine -------------------------------------------------------------------------
\* at: start, new (about to be made), op (about to be used), run, call (in a call back), end
Fresh(i) == [mute |-> 0, stk |-> <<>>, tbl |-> i, txt |-> ""]
Engine(i) == [at |-> "start", op |-> 1, pos |-> 1, mem |-> Fresh(i), out |-> <<>>]
Number(i, op, pos) == ToString(100 * i + 10 * op + pos)
Item(sym, i, op, pos) == IF sym = "i" THEN "m:i" \o Number(i, op, pos) ELSE IF sym = "x" THEN "_u:sx" ELSE "p:"
\* what it does alone: for each evaluation [r, log], and its stack in the end
AloneOp(i, p, op, stk) ==
  LET acc(a, pos) ==
        LET s == SubSeq(p[op], pos, pos)
            called == (s = "x" /\ a.mute <= 1) \/ (s \in {"i", "p"} /\ a.mute <= 0)
            log == IF called THEN Append(a.log, Item(s, i, op, pos)) ELSE a.log
        IN IF a.r = "rt" THEN a
           ELSE IF s = "(" THEN [a EXCEPT !.mute = @ + 1]
           ELSE IF s = ")" THEN [a EXCEPT !.mute = @ - 1]
           ELSE IF s = "i" /\ called THEN [a EXCEPT !.log = log, !.stk = Append(@, "i" \o Number(i, op, pos))]
           ELSE IF s = "p" /\ called THEN [a EXCEPT !.log = log, !.r = "rt"]
           ELSE [a EXCEPT !.log = log]
  IN FoldLeft(acc, [r |-> "ok", mute |-> 0, log |-> <<>>, stk |-> stk], [pos \in 1 .. Len(p[op]) |-> pos])
Alone(i, p) == FoldLeft(LAMBDA a, op : LET o == AloneOp(i, p, op, IF a = <<>> THEN <<>> ELSE a[Len(a)].stk)
                                       IN Append(a, [r |-> o.r, log |-> o.log, stk |-> o.stk]), <<>>, [op \in DOMAIN p |-> op])

\* --- all of them ------------------------------------------------------------------------
\* cur: whose turn it is (0: to be chosen); cs: engines within call backs of each other; logs: what the functions
\* of each engine's table saw in its present evaluation
VARIABLES prog, shared, eng, com, logs, cur, cs, sched, judged
vars == <<prog, shared, eng, com, logs, cur, cs, sched, judged>>
Nth(t) == FoldLeft(LAMBDA a, b : a * 5 + b, 0, t)
Tuples == TLCEval({t \in [1 .. N -> DOMAIN Programs] : (SEED + Nth(t)) % PART = 0})
Init == /\ prog \in {[i \in 1 .. N |-> Programs[t[i]]] : t \in Tuples}
        /\ shared \in {{}} \cup {{c} : c \in Cells}
        /\ eng = [i \in 1 .. N |-> Engine(i)]
        /\ com = Fresh(1)
        /\ logs = [i \in 1 .. N |-> <<>>]
        /\ cur = 0 /\ cs = <<>> /\ sched = <<>> /\ judged = FALSE
AllDone == \A i \in 1 .. N : eng[i].at = "end"

\* by turns: any engine that is not at its end
TakeTurn == /\ MODE = "turns" /\ cur = 0
            /\ \E i \in 1 .. N : eng[i].at # "end" /\ cur' = i /\ sched' = Append(sched, i - 1)
            /\ Tick(Tk.TakeTurn)
            /\ UNCHANGED <<prog, shared, eng, com, logs, cs, judged>>
\* one within another: the next engine starts here, or the innermost goes on
Waiting == {i \in 1 .. N : eng[i].at = "start"}
First(s) == CHOOSE i \in s : \A j \in s : i <= j
Nest == /\ MODE = "nest" /\ cur = 0 /\ cs # <<>> /\ Waiting # {}
        /\ cur' = First(Waiting) /\ cs' = Append(cs, First(Waiting)) /\ sched' = Append(sched, 1)
        /\ Tick(Tk.Nest)
        /\ UNCHANGED <<prog, shared, eng, com, logs, judged>>
GoOn == /\ MODE = "nest" /\ cur = 0 /\ cs # <<>>
        /\ cur' = cs[Len(cs)] /\ sched' = Append(sched, 0)
        /\ Tick(Tk.GoOn)
        /\ UNCHANGED <<prog, shared, eng, com, logs, cs, judged>>
NextOuter == /\ MODE = "nest" /\ cur = 0 /\ cs = <<>> /\ Waiting # {}
             /\ cur' = First(Waiting) /\ cs' = <<First(Waiting)>>
             /\ Tick(Tk.NextOuter)
             /\ UNCHANGED <<prog, shared, eng, com, logs, sched, judged>>

\* --- the engine whose turn it is ---------------------------------------------------------------
I == cur
E == eng[cur]
Get(c) == IF c \in shared THEN com[c] ELSE E.mem[c]
\* the engine becomes e, with cell c set to v
Set(e, c, v) == IF c \in shared THEN com' = [com EXCEPT ![c] = v] /\ eng' = [eng EXCEPT ![cur] = e]
                ELSE com' = com /\ eng' = [eng EXCEPT ![cur] = [e EXCEPT !.mem[c] = v]]
Keep(e) == eng' = [eng EXCEPT ![cur] = e] /\ com' = com
Rest == UNCHANGED <<prog, shared, cs, sched, judged>>
Yields == cur' = 0
On == cur' = cur
\* about to be made; made, with a table of its own, and about to be used
Make == /\ cur # 0 /\ E.at \in {"start", "new"} /\ Yields
        /\ Tick(Tk.Make)
        /\ IF E.at = "start" THEN Keep([E EXCEPT !.at = "new"]) ELSE Set([E EXCEPT !.at = "op"], "tbl", I)
        /\ logs' = logs /\ Rest
\* an evaluation begins: its text is read, the mute depth starts anew
Begin == /\ cur # 0 /\ E.at = "op" /\ On
         /\ Tick(Tk.Begin)
         /\ LET e == [E EXCEPT !.at = "run", !.pos = 1, !.mem.mute = 0, !.mem.txt = prog[I][E.op]]
            IN /\ eng' = [eng EXCEPT ![cur] = e]
               /\ com' = [com EXCEPT !.mute = 0, !.txt = prog[I][E.op]]
         /\ logs' = [logs EXCEPT ![I] = <<>>] /\ Rest
Sym == SubSeq(Get("txt"), E.pos, E.pos)
Running == cur # 0 /\ E.at = "run" /\ E.pos <= Len(Get("txt"))
Heard == (Sym = "x" /\ Get("mute") <= 1) \/ (Sym \in {"i", "p"} /\ Get("mute") <= 0)
CallBack == /\ Running /\ Heard /\ Yields
            /\ Tick(Tk.CallBack)
            /\ logs' = [logs EXCEPT ![Get("tbl")] = Append(@, Item(Sym, I, E.op, E.pos))]
            /\ Keep([E EXCEPT !.at = Sym]) /\ Rest
Silent == /\ Running /\ ~Heard /\ Sym \in {"i", "x", "p"} /\ On
          /\ Tick(Tk.Silent)
          /\ Keep([E EXCEPT !.pos = @ + 1]) /\ logs' = logs /\ Rest
Mute == /\ Running /\ Sym \in {"(", ")"} /\ On
        /\ Tick(Tk.Mute)
        /\ Set([E EXCEPT !.pos = @ + 1], "mute", IF Sym = "(" THEN Get("mute") + 1 ELSE Get("mute") - 1)
        /\ logs' = logs /\ Rest
\* the call back has returned
Pushed == /\ cur # 0 /\ E.at \in {"i", "x"} /\ On
          /\ Tick(Tk.Pushed)
          /\ LET e == [E EXCEPT !.at = "run", !.pos = @ + 1] IN
             IF E.at = "i" THEN Set(e, "stk", Append(Get("stk"), "i" \o Number(I, E.op, E.pos))) ELSE Keep(e)
          /\ logs' = logs /\ Rest
\* an evaluation has come to its end; the next is about to start
Over(r) == LET more == E.op < Len(prog[I])
               e == [E EXCEPT !.out = Append(@, [r |-> r, log |-> logs[I], stk |-> Get("stk")]), !.at = IF more THEN "op" ELSE "end", !.op = @ + 1]
           IN /\ Keep(e) /\ Yields /\ logs' = logs
              /\ cs' = IF MODE = "nest" /\ ~more THEN SubSeq(cs, 1, Len(cs) - 1) ELSE cs
              /\ UNCHANGED <<prog, shared, sched, judged>>
Panicked == cur # 0 /\ E.at = "p" /\ Tick(Tk.Panicked) /\ Over("rt")
Finish == cur # 0 /\ E.at = "run" /\ E.pos > Len(Get("txt")) /\ Tick(Tk.Finish) /\ Over("ok")

Seen(i) == eng[i].out
Judge == /\ AllDone /\ cur = 0 /\ ~judged
         /\ judged' = TRUE
         /\ (\E i \in 1 .. N : Seen(i) # Alone(i, prog[i])) =>
              PrintT("@@R " \o ToJson([mode |-> MODE, progs |-> prog, sched |-> sched, shows |-> shared, alone |-> [i \in 1 .. N |-> Alone(i, prog[i])]]))
         /\ UNCHANGED <<prog, shared, eng, com, logs, cur, cs, sched>>
Next == \/ TakeTurn \/ Nest \/ GoOn \/ NextOuter \/ Make \/ Begin \/ CallBack \/ Silent \/ Mute \/ Pushed \/ Panicked \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars

\* --- what is claimed -------------------------------------------------------------------------
Isolated == shared = {} => \A i \in 1 .. N : IsPrefix(Seen(i), Alone(i, prog[i]))
Disciplined == MODE = "nest" => \A j \in DOMAIN cs : cs[j] \in 1 .. N /\ eng[cs[j]].at # "end"
=============================================================================
