----------------------------- MODULE CalcTrace ------------------------------
(* Predictions for given histories of expressions: every expression is       *)
(* tokenized (Lexer) and read (Calc); outcome, program and exact value are   *)
(* printed and compared with what the real calculator returned.              *)
EXTENDS Calc, Ticks, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Tk == [Tokenize |-> 1, RefuseText |-> 2, literal |-> 3, symbol |-> 4, opencall |-> 5, sign |-> 6, open |-> 7, operator |-> 8,
       comma |-> 9, close |-> 10, closecall |-> 11, finish |-> 12, reject |-> 13]
ASSUME TickStart(Tk)
Report == TickReport("CalcTrace", Tk)

VARIABLES ci, oi, K, m, done
vars == <<ci, oi, K, m, done>>
C == Cases[ci]
Q == C.q
Init == ci \in DOMAIN Cases /\ oi = 1 /\ K = <<>> /\ m = [CalcStart EXCEPT !.st = "text"] /\ done = <<>>
Ended == oi > Len(C.ops)
Told(st, out, v) == done' = Append(done, [st |-> st, out |-> out, v |-> v])
NextText == oi' = oi + 1 /\ m' = [CalcStart EXCEPT !.st = "text"] /\ K' = <<>>
Tokenize ==
  /\ ~Ended /\ m.st = "text"
  /\ LET t == Lexed(C.ops[oi].x, ModeOf(0), <<>>) IN
     IF t[1] THEN Tick(Tk.Tokenize) /\ K' = t[2] /\ m' = CalcStart /\ UNCHANGED <<oi, done>>
     ELSE Tick(Tk.RefuseText) /\ Told("fail", <<>>, Unknown) /\ NextText
  /\ UNCHANGED ci
ReadToken == /\ ~Ended /\ m.st = "run"
             /\ LET k == TLCEval(CalcKind(Q, K, m)) IN Tick(Tk[k]) /\ m' = CalcDo(Q, K, m, k)
             /\ UNCHANGED <<ci, oi, K, done>>
Tell == /\ ~Ended /\ m.st \in {"ok", "fail"}
        /\ IF m.st = "ok" THEN Told("ok", m.out, m.vs[1]) ELSE Told("fail", <<>>, Unknown)
        /\ NextText /\ UNCHANGED ci
Next == Tokenize \/ ReadToken \/ Tell
Spec == Init /\ [][Next]_vars

\* a history is deterministic: its place tells the state
PlaceInHistory == <<ci, oi, m.i, m.st>>
ReaderOK == m.st # "text" => CalcOK(Q, m)
Predict == Ended => PrintT("@@R " \o ToJson([id |-> C.id, ops |-> done]))
=============================================================================
