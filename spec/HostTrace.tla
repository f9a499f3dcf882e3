------------------------------ MODULE HostTrace ------------------------------
(* Conformance of Go functions and values in scripts: histories of           *)
(* statements on one engine, judged statement by statement.                  *)
EXTENDS Host, Ticks, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Tk == [Statement |-> 1, LoadVariable |-> 2, LookUpMember |-> 3, GatherArguments |-> 4, SpreadArgument |-> 5, CheckCount |-> 6,
       ConvertArgument |-> 7, InvokeFunction |-> 8, CastResults |-> 9, PassOn |-> 10, StoreResult |-> 11, JudgeStatement |-> 12, ImportModule |-> 13, RefuseImport |-> 14]
ASSUME TickStart(Tk)
Report == TickReport("HostTrace", Tk)

VARIABLES ci, oi, S, bad, judged, ii, reg
vars == <<ci, oi, S, bad, judged, ii, reg>>
C == Cases[ci]
St == C.sts[oi]
Ob == C.obs.sts[oi]
Lost == C.obs.r \in {"hang", "dead"}
\* the host's variables hide modules
EnvOf(c, r) == [x \in {c.env[j].n : j \in DOMAIN c.env} |->
              LET j == CHOOSE i \in DOMAIN c.env : c.env[i].n = x IN c.env[j].v] @@ r

Init == /\ ci \in DOMAIN Cases
        /\ oi = 0 /\ bad = {} /\ judged = FALSE
        /\ ii = 0 /\ reg = Globals(Len(Cases[ci].fns))
        /\ S = HostStart(EnvOf(Cases[ci], Globals(Len(Cases[ci].fns))), Cases[ci].heap, Cases[ci].fns \o ModFns)

Importing == ii < Len(C.imp) /\ ~Lost
ImportModule == /\ Importing /\ Import(reg, C.imp[ii + 1])[1]
                /\ Tick(Tk.ImportModule)
                /\ ii' = ii + 1 /\ reg' = Import(reg, C.imp[ii + 1])[2]
                /\ S' = HostStart(EnvOf(C, reg'), C.heap, C.fns \o ModFns)
                /\ bad' = bad \cup (IF C.obs.imp[ii + 1] # "ok" THEN {"imp"} ELSE {})
                /\ UNCHANGED <<ci, oi, judged>>
RefuseImport == /\ Importing /\ ~Import(reg, C.imp[ii + 1])[1]
                /\ Tick(Tk.RefuseImport)
                /\ ii' = ii + 1
                /\ bad' = bad \cup (IF C.obs.imp[ii + 1] # "panic" THEN {"imp"} ELSE {})
                /\ UNCHANGED <<ci, oi, S, judged, reg>>

Statement == /\ S.ph = "idle" /\ ~judged /\ ~Lost /\ ~Importing /\ oi < Len(C.sts)
             /\ Tick(Tk.Statement)
             /\ oi' = oi + 1 /\ S' = Begin(S, C.sts[oi + 1]) /\ UNCHANGED <<ci, bad, judged, ii, reg>>
On(ph) == S.ph = ph /\ S' = HostStep(S, St) /\ UNCHANGED <<ci, oi, bad, judged, ii, reg>>
LoadVariable == On("load") /\ Tick(Tk.LoadVariable)
LookUpMember == On("member") /\ Tick(Tk.LookUpMember)
GatherArguments == On("args") /\ Tick(Tk.GatherArguments)
SpreadArgument == On("spread") /\ Tick(Tk.SpreadArgument)
CheckCount == On("count") /\ Tick(Tk.CheckCount)
ConvertArgument == On("conv") /\ Tick(Tk.ConvertArgument)
InvokeFunction == On("invoke") /\ Tick(Tk.InvokeFunction)
CastResults == On("cast") /\ Tick(Tk.CastResults)
PassOn == On("wrap") /\ Tick(Tk.PassOn)
StoreResult == On("store") /\ Tick(Tk.StoreResult)

Calls == [j \in DOMAIN S.log |-> [f |-> S.log[j].f, a |-> [i \in DOMAIN S.log[j].a |-> Seen(S, S.log[j].a[i])]]]
JudgeStatement ==
  /\ S.ph = "end"
  /\ Tick(Tk.JudgeStatement)
  /\ bad' = bad \cup (IF Ob.r # S.r THEN {"out"} ELSE {})
                \cup (IF Ob.log # Calls THEN {"args"} ELSE {})
                \cup (IF S.r = "ok" /\ Ob.r = "ok" /\ (Ob.ret # Seen(S, S.cur) \/ Ob.dst # Ob.ret) THEN {"ret"} ELSE {})
  /\ S' = [S EXCEPT !.ph = "idle"]
  /\ UNCHANGED <<ci, oi, judged, ii, reg>>
Judge ==
  /\ S.ph = "idle" /\ ~judged /\ (Lost \/ (~Importing /\ oi = Len(C.sts)))
  /\ judged' = TRUE
  /\ LET a == IF Lost THEN {"out", "args", "ret", "imp"} ELSE bad IN
     a # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> a]))
  /\ UNCHANGED <<ci, oi, S, bad, ii, reg>>
Next == ImportModule \/ RefuseImport \/ Statement \/ LoadVariable \/ LookUpMember \/ GatherArguments \/ SpreadArgument \/ CheckCount \/ ConvertArgument \/ InvokeFunction
        \/ CastResults \/ PassOn \/ StoreResult \/ JudgeStatement \/ Judge
Spec == Init /\ [][Next]_vars
\* invariants: what a function receives has the types of its parameters, and it is called only then
Received == S.ph = "cast" /\ ~S.au =>
  /\ Len(S.log) >= 1
  /\ \A j \in DOMAIN S.args : LET t == TypeAt(S.sig, j) IN t = "any" \/ S.args[j].t = t \/ t \in {"error", "stringer"} \/ (t \in Pointers /\ S.args[j].t = "nil")
Objects == \A x \in DOMAIN S.env : S.env[x].t \in Structs => S.env[x].o \in DOMAIN S.heap \/ S.env[x].t \in {"*caller", "str", "err"}
=============================================================================
