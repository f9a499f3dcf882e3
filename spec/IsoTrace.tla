------------------------------ MODULE IsoTrace ------------------------------
(* Conformance of engines in company. A case names the engines (cases of     *)
(* the other suites), how they were run - by turns, one within a call back   *)
(* of another, or all at the same time - and the schedule asked for; the     *)
(* observation is the trace of turns and, for every engine, all that could   *)
(* be observed of it. The trace must be one that Isolation.tla allows for    *)
(* the schedule; every engine must have shown what it shows when it is       *)
(* alone in a process.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Ticks

Cases == ndJsonDeserialize(IOEnv.CASES)
Tk == [Turn |-> 1, End |-> 2, BeginInner |-> 3, EndInner |-> 4, AllAtOnce |-> 5, Compare |-> 6]
ASSUME TickStart(Tk)
Report == TickReport("IsoTrace", Tk)

VARIABLES ci, k, done, cs, bad, ph
vars == <<ci, k, done, cs, bad, ph>>
C == Cases[ci]
N == Len(C.alone)
Tr == C.obs.tr
Ev == Tr[k]
Init == /\ ci \in DOMAIN Cases
        /\ k = 1 /\ done = {} /\ cs = <<>> /\ bad = {}
        /\ ph = IF C.obs.r # "ok" THEN "lost" ELSE "run"

More == ph = "run" /\ k <= Len(Tr)
\* the engine the schedule names, or the next one that has not come to its end
RECURSIVE Next1(_)
Next1(j) == IF j \in done THEN Next1((j % N) + 1) ELSE j
Asked == Next1((C.sched[((k - 1) % Len(C.sched)) + 1] % N) + 1)
Full == k > 60                  \* of longer runs only the ends are recorded
Turn == /\ More /\ C.mode = "turns" /\ Ev.e = "step"
        /\ Tick(Tk.Turn)
        /\ bad' = bad \cup (IF Ev.i # Asked THEN {"schedule"} ELSE {})
        /\ k' = k + 1 /\ UNCHANGED <<ci, done, cs, ph>>
End == /\ More /\ C.mode = "turns" /\ Ev.e = "end"
       /\ Tick(Tk.End)
       /\ bad' = bad \cup (IF Ev.i \in done \/ (~Full /\ Ev.i # Asked) THEN {"schedule"} ELSE {})
       /\ done' = done \cup {Ev.i}
       /\ k' = k + 1 /\ UNCHANGED <<ci, cs, ph>>
BeginInner == /\ More /\ C.mode = "nest" /\ Ev.e = "begin"
              /\ Tick(Tk.BeginInner)
              /\ bad' = bad \cup (IF Ev.i # Cardinality(done) + Len(cs) + 1 THEN {"schedule"} ELSE {})
              /\ cs' = Append(cs, Ev.i)
              /\ k' = k + 1 /\ UNCHANGED <<ci, done, ph>>
EndInner == /\ More /\ C.mode = "nest" /\ Ev.e = "end"
            /\ Tick(Tk.EndInner)
            /\ bad' = bad \cup (IF cs = <<>> \/ cs[Len(cs)] # Ev.i THEN {"schedule"} ELSE {})
            /\ cs' = IF cs = <<>> THEN cs ELSE SubSeq(cs, 1, Len(cs) - 1)
            /\ done' = done \cup {Ev.i}
            /\ k' = k + 1 /\ UNCHANGED <<ci, ph>>
AllAtOnce == /\ ph = "run" /\ C.mode = "conc" /\ done = {}
             /\ Tick(Tk.AllAtOnce)
             /\ done' = 1 .. N
             /\ UNCHANGED <<ci, k, cs, bad, ph>>
\* all are done
Wrong == {i \in 1 .. N : \E j \in DOMAIN C.obs.engs[i] : C.obs.engs[i][j] # C.alone[i]}
Compare == /\ \/ ph = "lost"
              \/ ph = "run" /\ k > Len(Tr) /\ (C.mode = "conc" => done # {})
           /\ Tick(Tk.Compare)
           /\ ph' = "judged"
           /\ bad' = bad \cup (IF ph = "lost" THEN {"lost"} ELSE
                (IF done # 1 .. N \/ cs # <<>> THEN {"schedule"} ELSE {}) \cup (IF Wrong # {} THEN {"isolation"} ELSE {}))
           /\ bad' # {} => PrintT("@@M " \o ToJson([id |-> C.id, aspects |-> bad', engines |-> IF ph = "lost" THEN {} ELSE Wrong]))
           /\ UNCHANGED <<ci, k, done, cs>>
Next == Turn \/ End \/ BeginInner \/ EndInner \/ AllAtOnce \/ Compare
Spec == Init /\ [][Next]_vars
Consistent == \A j \in DOMAIN cs : cs[j] \notin done
=============================================================================
