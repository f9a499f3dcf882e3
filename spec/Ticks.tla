-------------------------------- MODULE Ticks --------------------------------
(* Counting how often each action of a specification is taken. A module      *)
(* declares Tk == [ActionName |-> 1, OtherAction |-> 2, ...], assumes        *)
(* TickStart(Tk), has Tick(Tk.ActionName) in its actions and TickReport as   *)
(* postcondition. The counts go into the evidence.                           *)
EXTENDS Integers, Sequences, TLC, Json
TickStart(tk) == \A a \in DOMAIN tk : TLCSet(tk[a], 0)
Tick(j) == TLCSet(j, TLCGet(j) + 1)
RECURSIVE TickSum(_)
TickSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + TickSum(Tail(s))
TickReport(mod, tk) == \A a \in DOMAIN tk : PrintT("@@K " \o ToJson([k |-> mod \o "." \o a, n |-> TickSum(TLCGet("all")[tk[a]])]))
=============================================================================
