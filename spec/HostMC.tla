------------------------------- MODULE HostMC -------------------------------
(* Every call of a small function with a few arguments, its outcome against  *)
(* a table of what a parameter takes; the outcomes are replayed.             *)
EXTENDS Host, Ticks, Json, IOUtils

PART == IOEnv.PART
WIDE == IOEnv.WIDE = "1"
Tk == [Run |-> 1, Emit |-> 2]
ASSUME TickStart(Tk)
Report == TickReport("HostMC", Tk)

Obj(t, o) == [t |-> t, v |-> "", o |-> o, e |-> <<>>]
I(t) == Va(t, "7")
Values == <<VNil, I("int"), I("int8"), I("int16"), I("int32"), I("int64"), I("uint"), I("uint8"), I("uint16"), I("uint32"), I("uint64"),
            I("uintptr"), Va("float32", "1.5"), Va("float64", "2.5"), VStr("s"), Va("bool", "true"), Va("err", "wrong"), Va("str", "named"),
            Obj("*obj", 1), Obj("obj", 2), Obj("*auto", 1), Obj("auto", 2), Obj("*caller", 0), VList("[]int", <<I("int"), Va("int", "8")>>),
            VList("[]any", <<I("int"), VStr("in")>>), VList("[]string", <<VStr("s")>>), VList("[]float64", <<>>), VList("[]int32", <<I("int32")>>),
            VList("map[string]any", <<VStr("k"), I("int")>>),
            VList("[]any", <<>>), VList("[]int", <<>>), VList("map[string]any", <<>>), VStr(""), Va("int", "0"), Va("float32", "0"), Va("bool", "false")>>
Names == [j \in DOMAIN Values |-> "v" \o ToString(j)]
ParamTypes == {"any", "float64", "float32", "error", "stringer", "string", "bool", "*obj", "obj", "*auto", "[]int", "[]any", "map[string]any", "str"} \cup Integral
Places(ts) == {j \in DOMAIN Values : Values[j].t \in ts}
Sizes(S, lo, hi) == UNION {[1 .. n -> S] : n \in lo .. hi}
F(p, va, d, out) == [p |-> p, va |-> va, d |-> d, out |-> out, boom |-> ""]

\* a parameter of each type with each value, once, twice, spread
PartParam == {[f |-> F(<<t>>, va, <<"any">>, <<ArgV(1)>>), args |-> a, spread |-> sp] :
                t \in ParamTypes, va \in BOOLEAN, sp \in BOOLEAN, a \in Sizes(DOMAIN Values, 1, 1)}
\* several parameters and arguments
Few == Places({"int8", "float64", "[]any", "nil"}) \cup {15}
PartCount == {[f |-> F(p, va, <<"any", "any">>, <<ArgV(1), ArgV(2)>>), args |-> a, spread |-> sp] :
                p \in Sizes({"any", "float64", "string"}, 1, 2), va \in BOOLEAN, sp \in BOOLEAN, a \in Sizes(Few, 0, IF WIDE THEN 4 ELSE 2)}
             \cup {[f |-> F(<<>>, FALSE, <<>>, <<>>), args |-> a, spread |-> sp] : sp \in BOOLEAN, a \in Sizes(Few, 0, 2)}
\* results
Declared(v) == ({v.t, "any"} \ {"nil"}) \cup (IF v.t \in {"err", "nil"} THEN {"error"} ELSE {}) \cup (IF v.t \in {"str", "*obj", "nil"} THEN {"stringer"} ELSE {})
Pairs == UNION {{<<d, Values[j]>> : d \in Declared(Values[j])} : j \in DOMAIN Values}
Some == {x \in Pairs : x[2].t \in IF WIDE THEN {"int8", "uint64", "float32", "string", "err", "nil", "*obj", "[]any"} ELSE {"int8", "float32", "nil"}}
PartResult == {[f |-> F(<<>>, FALSE, [j \in DOMAIN r |-> r[j][1]], [j \in DOMAIN r |-> r[j][2]]), args |-> <<>>, spread |-> FALSE] :
                 r \in Sizes(Pairs, 0, 1) \cup Sizes(Some, 2, 3)}
\* members of values, members of members, read or called without arguments
Bases == Places({"*obj", "obj", "*auto", "auto", "*caller", "str", "err", "nil", "int", "[]any", "map[string]any"})
MemberNames == DOMAIN Capitals \cup {"missing", "k", "Get", "Val", "hidden"}
PartMember == {[base |-> Names[b], mem |-> m, call |-> c] :
                 b \in Bases, c \in BOOLEAN, m \in Sizes(MemberNames, 1, IF WIDE THEN 2 ELSE 1) \cup {<<"next", x>> : x \in MemberNames} \cup {<<"inner", x>> : x \in MemberNames}}
Configs == IF PART = "member" THEN {[f |-> F(<<>>, FALSE, <<>>, <<>>), args |-> <<>>, spread |-> FALSE, base |-> m.base, mem |-> m.mem, call |-> m.call] : m \in PartMember}
           ELSE {[f |-> x.f, args |-> x.args, spread |-> x.spread, base |-> "f1", mem |-> <<>>, call |-> TRUE] :
                   x \in IF PART = "param" THEN PartParam ELSE IF PART = "count" THEN PartCount ELSE PartResult}

Heap == <<[name |-> "ann", count |-> "11", inner |-> 2], [name |-> "bob", count |-> "12", inner |-> 1]>>
Env == [x \in {Names[j] : j \in DOMAIN Names} \cup {"f1"} |->
          IF x = "f1" THEN FuncV("f1", 1) ELSE Values[CHOOSE j \in DOMAIN Names : Names[j] = x]]

VARIABLES cf, S, ended
vars == <<cf, S, ended>>
Args == [j \in DOMAIN cf.args |-> Names[cf.args[j]]]
St == [dst |-> "r", base |-> cf.base, mem |-> cf.mem, call |-> cf.call, args |-> Args, spread |-> cf.spread, wrap |-> FALSE]
Init == /\ cf \in Configs
        /\ S = Begin(HostStart(Env, Heap, <<cf.f>>), [base |-> "f1"])
        /\ ended = FALSE
Run == ~Ended(S) /\ Tick(Tk.Run) /\ S' = HostStep(S, St) /\ UNCHANGED <<cf, ended>>

\* --- the contract, without steps ------------------------------------------------------------
Sent == LET a == [j \in DOMAIN cf.args |-> Values[cf.args[j]]] IN
        IF ~cf.spread THEN a ELSE IF a = <<>> THEN <<>> ELSE SubSeq(a, 1, Len(a) - 1) \o a[Len(a)].e
CanSpread == cf.spread => cf.args # <<>> /\ Values[cf.args[Len(cf.args)]].t \in {"[]int", "[]any", "[]string", "[]float64", "[]int32"}
Np == Len(cf.f.p)
Wanted(j) == IF j < Np THEN cf.f.p[j] ELSE cf.f.p[Np]
Takes(t) == CASE t = "any" -> {Values[j].t : j \in DOMAIN Values}
              [] t = "error" -> {"err", "nil"} [] t = "stringer" -> {"*obj", "str", "nil"}
              [] t = "*obj" -> {"*obj", "nil"} [] t = "*auto" -> {"*auto", "nil"}
              [] t = "float64" -> {"float64", "float32", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}
              [] OTHER -> {t}
Works == /\ CanSpread
         /\ IF cf.f.va THEN Len(Sent) + 1 >= Np ELSE Len(Sent) = Np
         /\ \A j \in DOMAIN Sent : Sent[j].t \in Takes(Wanted(j))
Given == [j \in DOMAIN Sent |-> IF Wanted(j) = "float64" THEN [Sent[j] EXCEPT !.t = "float64"] ELSE Sent[j]]
Whole == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}
Scripted(d, r) == IF d \in Whole THEN Va("int", r.v) ELSE IF d = "float32" THEN Va("float64", r.v) ELSE r
Outs == [j \in DOMAIN cf.f.out |-> LET o == cf.f.out[j] IN IF o.t # "arg" THEN o ELSE IF o.o \in DOMAIN Given THEN Given[o.o] ELSE VNil]
Answer == CASE Len(cf.f.d) = 0 -> VNil
            [] Len(cf.f.d) = 1 -> Scripted(cf.f.d[1], Outs[1])
            [] OTHER -> VList("[]any", [j \in DOMAIN Outs |-> Scripted(cf.f.d[j], Outs[j])])
Contract == Ended(S) /\ cf.mem = <<>> =>
  /\ S.r = IF Works THEN "ok" ELSE "err"
  /\ S.log = IF Works THEN <<[f |-> "f1", a |-> Given]>> ELSE <<>>
  /\ Works => S.cur = Answer /\ S.env["r"] = Answer
\* what has which member: methods of values are methods of pointers to them too
Fielded == [obj |-> {"name", "count", "inner", "m", "id"}, auto |-> {"n"}]
OfValue == [obj |-> {"get", "Get", "both", "self", "sum", "ident", "ete"}, auto |-> {"val", "Val", "pair", "nop", "add", "all"}, str |-> {"string"}, err |-> {"error"}]
OfPointer == [obj |-> {"setName", "me", "string"}, auto |-> {"next"}, caller |-> {"call"}]
Of(m, k) == IF k \in DOMAIN m THEN m[k] ELSE {}
BaseType == Env[cf.base].t
Known == CASE BaseType = "*obj" -> Of(Fielded, "obj") \cup Of(OfValue, "obj") \cup Of(OfPointer, "obj")
           [] BaseType = "*auto" -> Of(Fielded, "auto") \cup Of(OfValue, "auto") \cup Of(OfPointer, "auto")
           [] BaseType = "*caller" -> Of(OfPointer, "caller")
           [] BaseType = "map[string]any" -> IF Env[cf.base].e = <<>> THEN {} ELSE {"k"}
           [] OTHER -> Of(Fielded, BaseType) \cup Of(OfValue, BaseType)
Finds == Ended(S) /\ Len(cf.mem) = 1 /\ ~cf.call =>
  /\ S.r = IF cf.mem[1] \in Known THEN "ok" ELSE "err"
  /\ S.log # <<>> <=> BaseType = "*auto" /\ cf.mem[1] \in {"val", "Val", "pair", "nop", "next"}
  /\ (S.r = "ok" /\ S.cur.t = "func") <=> cf.mem[1] \in (Known \ Of(Fielded, Base(BaseType))) /\ BaseType # "map[string]any" /\ S.log = <<>>
Untouched == \A x \in DOMAIN Env : S.env[x] = Env[x]

Used == {cf.args[j] : j \in DOMAIN cf.args}
Case == [fns |-> <<cf.f>>, heap |-> Heap,
         env |-> SetToSeq((IF cf.base = "f1" THEN {} ELSE {[n |-> cf.base, v |-> Env[cf.base]]}) \cup {[n |-> Names[j], v |-> Values[j]] : j \in Used} \cup {[n |-> "f1", v |-> FuncV("f1", 1)]}), imp |-> <<>>, sts |-> <<St>>,
         exp |-> [r |-> S.r, log |-> [j \in DOMAIN S.log |-> [f |-> S.log[j].f, a |-> [i \in DOMAIN S.log[j].a |-> Seen(S, S.log[j].a[i])]]],
                  ret |-> IF S.r = "ok" THEN Seen(S, S.cur) ELSE VNil]]
Emit == /\ Ended(S) /\ ~ended
        /\ Tick(Tk.Emit)
        /\ PrintT("@@R " \o ToJson(Case))
        /\ ended' = TRUE /\ UNCHANGED <<cf, S>>
Next == Run \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
