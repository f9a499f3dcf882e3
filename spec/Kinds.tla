------------------------------- MODULE Kinds -------------------------------
(* The token kinds as a table a client can ask: the length of an operator,   *)
(* the literal of a kind in grammar texts and the kind of a literal. One     *)
(* step per question; every kind and some texts that name none.              *)
EXTENDS Tokens, Ticks, Json, TLC

Tk == [AskKind |-> 1, AskLiteral |-> 2]
ASSUME TickStart(Tk)
Report == TickReport("Kinds", Tk)

VARIABLES k
Known == DOMAIN KindLit
Ops == {OpTable[i][1] : i \in DOMAIN OpTable}
Length(j) == IF j \notin Ops THEN 0 ELSE Len(OpTable[CHOOSE i \in DOMAIN OpTable : OpTable[i][1] = j][2])
Stray == <<"", "+", "'++'", "\"+\"", "ident", "IDENT ", "'a'", "\"if\"", "\"<\"", "'<<'", "EOFF", "\"...", "' '">>

Init == k = 0
AskKind == k <= 400 /\ k' = k + 1 /\ Tick(Tk.AskKind)
           /\ PrintT("@@R " \o ToJson([k |-> k, lit |-> IF k \in Known THEN KindLit[k] ELSE "", len |-> Length(k), back |-> k \in Known]))
AskLiteral == k > 400 /\ k <= 400 + Len(Stray) /\ k' = k + 1 /\ Tick(Tk.AskLiteral)
              /\ PrintT("@@R " \o ToJson([k |-> 0, lit |-> Stray[k - 400], len |-> 0, back |-> FALSE]))
Next == AskKind \/ AskLiteral
Spec == Init /\ [][Next]_k
\* a literal names one kind
OneKind == \A i, j \in Known : KindLit[i] = KindLit[j] => i = j
=============================================================================
