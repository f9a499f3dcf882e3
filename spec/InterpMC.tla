------------------------------ MODULE InterpMC ------------------------------
(* Words over marks: ordinary (m) and early (u) marks, mute, unmute, a       *)
(* function that panics (p), a cut that fails (!), an unmatched token (?)    *)
(* and the regular end of an evaluation (;). All words of length MAXLEN over *)
(* the chosen symbols are explored with the engine of Interp.tla; in every   *)
(* state the calls made are exactly those the bracket law allows. Words are  *)
(* printed as predictions and replayed on a real engine.                     *)
EXTENDS Interp, Ticks, Json, IOUtils

MAXLEN == atoi(IOEnv.MAXLEN)
Alphabet == {"m", "u", "(", ")", "p", "!", "?", ";"}
Chosen == TLCEval({s \in Alphabet : \E i \in 1 .. Len(IOEnv.SYMS) : SubSeq(IOEnv.SYMS, i, i) = s})
Tk == [OrdinaryMark |-> 1, EarlyMark |-> 2, Mute |-> 3, Unmute |-> 4, Panics |-> 5, Ends |-> 6]
ASSUME TickStart(Tk)
Report == TickReport("InterpMC", Tk)

VARIABLES E, cur, done, n
vars == <<E, cur, done, n>>
\* cur: symbols of the evaluation going on; done: finished evaluations [w, r, log]; E.log: marks called
Init == E = [EngineStart EXCEPT !.fuel = 0] /\ cur = <<>> /\ done = <<>> /\ n = 0

May(s) == n < MAXLEN /\ s \in Chosen
Sym(s) == n' = n + 1 /\ cur' = Append(cur, s)
Call1(mark, t) == /\ E' = IF Suppressed(E, mark) THEN E ELSE Note(E, mark)
                  /\ UNCHANGED done
                  /\ Tick(t)
OrdinaryMark == May("m") /\ Sym("m") /\ Call1("m", Tk.OrdinaryMark)
EarlyMark == May("u") /\ Sym("u") /\ Call1("_u", Tk.EarlyMark)
Mute == May("(") /\ Sym("(") /\ E' = [E EXCEPT !.mute = @ + 1] /\ UNCHANGED done /\ Tick(Tk.Mute)
Unmute == May(")") /\ Sym(")") /\ E' = [E EXCEPT !.mute = @ - 1] /\ UNCHANGED done /\ Tick(Tk.Unmute)
\* an evaluation ends; the next one starts unmuted
End(w, r, log) == /\ done' = Append(done, [w |-> w, r |-> r, log |-> log])
                  /\ E' = [E EXCEPT !.mute = 0, !.log = <<>>]
                  /\ cur' = <<>>
                  /\ n' = n + 1
Panics == /\ May("p")
          /\ Tick(Tk.Panics)
          /\ IF Suppressed(E, "p") THEN Sym("p") /\ UNCHANGED <<E, done>>
             ELSE End(Append(cur, "p"), "rt", Append(E.log, "p"))
Ends == \E s \in {"!", "?", ";"} :
  /\ May(s)
  /\ Tick(Tk.Ends)
  /\ End(IF s = ";" THEN cur ELSE Append(cur, s), CASE s = "!" -> "abort" [] s = "?" -> "fail" [] s = ";" -> "ok", E.log)
Next == OrdinaryMark \/ EarlyMark \/ Mute \/ Unmute \/ Panics \/ Ends
Spec == Init /\ [][Next]_vars

\* --- the bracket law -------------------------------------------------------------------
Count(w, i, s) == Cardinality({j \in 1 .. i : w[j] = s})
Depth(w, i) == Count(w, i - 1, "(") - Count(w, i - 1, ")")
NameOf(s) == IF s = "u" THEN "_u" ELSE s
Runs(w, i) == \/ w[i] \in {"m", "p"} /\ Depth(w, i) <= 0
              \/ w[i] = "u" /\ Depth(w, i) <= 1
Law(w) == LET is == SelectSeq([i \in DOMAIN w |-> i], LAMBDA i : Runs(w, i)) IN [j \in DOMAIN is |-> NameOf(w[is[j]])]
MuteLaw == E.log = Law(cur) /\ \A j \in DOMAIN done : done[j].log = Law(done[j].w)
\* in every state reached by a whole word: what the real engine must show
Predict == n = MAXLEN => PrintT("@@R " \o ToJson(Append(done, [w |-> cur, r |-> "ok", log |-> E.log])))
=============================================================================
