-------------------------------- MODULE Host --------------------------------
(* Go functions and values in scripts: a statement  dst = base.m1.m2(args)  *)
(* on an engine whose variables the host has set. One step loads the base,   *)
(* each member, the spread of a last argument, the count, each argument's    *)
(* conversion, the call, each result's conversion, the store.                *)
(* A value is [t: Go type, v: its text, o: object, e: parts]; conversions    *)
(* between numeric types keep the text (the numbers are exact in all of      *)
(* them). The parts of a map are keys and values in turn.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Va(t, v) == [t |-> t, v |-> v, o |-> 0, e |-> <<>>]
VNil == Va("nil", "")
VStr(s) == Va("string", s)
VList(t, e) == [t |-> t, v |-> "", o |-> 0, e |-> e]

Signed == {"int", "int8", "int16", "int32", "int64"}
Unsigned == {"uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}
Integral == Signed \cup Unsigned
Pointers == {"*obj", "*auto", "*caller"}
SliceTypes == {"[]int", "[]string", "[]any", "[]float64", "[]int32"}
Implements(t, a) == \/ t = "error" /\ a = "err"
                    \/ t = "stringer" /\ a \in {"*obj", "str"}

\* --- parameters -----------------------------------------------------------------------
\* the value a parameter of type t gets for argument a: <<ok, value>>
Param(t, a) ==
  IF t = "any" THEN <<TRUE, a>>
  ELSE IF t \in {"error", "stringer"} THEN <<a.t = "nil" \/ Implements(t, a.t), a>>
  ELSE IF t \in Pointers THEN <<a.t = "nil" \/ a.t = t, a>>
  ELSE IF a.t = t THEN <<TRUE, a>>
  ELSE IF t = "float64" /\ a.t \in Integral \cup {"float32"} THEN <<TRUE, [a EXCEPT !.t = "float64"]>>
  ELSE <<FALSE, a>>

\* --- results ---------------------------------------------------------------------------
\* the script's value for a result r declared as type d
Result(d, r) ==
  IF d \in Integral THEN [r EXCEPT !.t = "int"]
  ELSE IF d = "float32" THEN [r EXCEPT !.t = "float64"]
  ELSE r
Results(ds, rs) ==
  IF ds = <<>> THEN VNil
  ELSE IF Len(ds) = 1 THEN Result(ds[1], rs[1])
  ELSE VList("[]any", [j \in DOMAIN ds |-> Result(ds[j], rs[j])])

\* --- types of the host with members --------------------------------------------------------
\* [f: name, p: parameters, va: variadic, d: declared results]; vr: of the value, not only of its pointer
Sig(f, p, va, d, vr) == [f |-> f, p |-> p, va |-> va, d |-> d, vr |-> vr]
Methods == [obj |-> <<Sig("Get", <<>>, FALSE, <<"int32">>, TRUE), Sig("Both", <<>>, FALSE, <<"int8", "string">>, TRUE),
                      Sig("Self", <<>>, FALSE, <<"obj">>, TRUE), Sig("Sum", <<"float64", "int">>, TRUE, <<"float32">>, TRUE),
                      Sig("Ident", <<>>, FALSE, <<"uint16">>, TRUE), Sig("Ete", <<"any">>, FALSE, <<"any">>, TRUE),
                      Sig("SetName", <<"string">>, FALSE, <<>>, FALSE), Sig("Me", <<>>, FALSE, <<"*obj">>, FALSE),
                      Sig("String", <<>>, FALSE, <<"string">>, FALSE)>>,
            auto |-> <<Sig("Val", <<>>, FALSE, <<"int16">>, TRUE), Sig("Pair", <<>>, FALSE, <<"int", "string">>, TRUE),
                       Sig("Nop", <<>>, FALSE, <<>>, TRUE), Sig("Add", <<"int">>, FALSE, <<"int">>, TRUE),
                       Sig("All", <<"int">>, TRUE, <<"int">>, TRUE), Sig("Next", <<>>, FALSE, <<"*auto">>, FALSE)>>,
            str |-> <<Sig("String", <<>>, FALSE, <<"string">>, TRUE)>>, err |-> <<Sig("Error", <<>>, FALSE, <<"string">>, TRUE)>>,
            caller |-> <<Sig("Call", <<"int", "string">>, TRUE, <<"uint8">>, FALSE)>>]
Fields == [obj |-> <<"Name", "Count", "Inner", "M", "Id">>, auto |-> <<"N">>, caller |-> <<>>, str |-> <<>>, err |-> <<>>]
Base(t) == IF t \in Pointers THEN SubSeq(t, 2, Len(t)) ELSE t
Structs == Pointers \cup {"obj", "auto", "str", "err"}
AutoCalled == {"*auto"}
\* a member is looked up under its name with a capital first letter
Capitals == [get |-> "Get", both |-> "Both", self |-> "Self", sum |-> "Sum", ident |-> "Ident", setName |-> "SetName", me |-> "Me",
             string |-> "String", val |-> "Val", pair |-> "Pair", nop |-> "Nop", add |-> "Add", all |-> "All", next |-> "Next",
             call |-> "Call", name |-> "Name", count |-> "Count", inner |-> "Inner", m |-> "M", id |-> "Id", n |-> "N", error |-> "Error"] @@ ("ete" :> "Ete")
Capital(x) == IF x \in DOMAIN Capitals THEN Capitals[x] ELSE x
MethodsOf(t, name) == IF t \notin Structs THEN <<>>
                      ELSE SelectSeq(Methods[Base(t)], LAMBDA s : s.f = name /\ (s.vr \/ t \in Pointers))

\* --- the machine ------------------------------------------------------------------------
\* env: variables; heap: objects; fns: functions of the case; md: modules and functions known to every script
\* of a call: fn the callee, recv its receiver, args, k how far they are converted, got what it received
HostStart(env, heap, fns) ==
  [env |-> env, heap |-> heap, fns |-> fns, ph |-> "idle", cur |-> VNil, mi |-> 0, sig |-> Sig("", <<>>, FALSE, <<>>, TRUE), recv |-> VNil,
   args |-> <<>>, k |-> 0, au |-> FALSE, outs |-> <<>>, log |-> <<>>, r |-> ""]

Fail(S) == [S EXCEPT !.ph = "end", !.r = "err"]
Function(S, v) == IF v.o > 0 THEN [sig |-> Sig(v.v, S.fns[v.o].p, S.fns[v.o].va, S.fns[v.o].d, TRUE), recv |-> VNil]
                  ELSE [sig |-> MethodsOf(v.e[1].t, v.v)[1], recv |-> v.e[1]]

Begin(S, st) == [S EXCEPT !.ph = "load", !.cur = VNil, !.mi = 0, !.au = FALSE, !.args = <<>>, !.k = 0, !.outs = <<>>, !.log = <<>>, !.r = ""]
After(st, mi) == IF mi < Len(st.mem) THEN "member" ELSE IF st.call THEN "args" ELSE IF st.wrap THEN "wrap" ELSE "store"
Load(S, st) ==
  IF st.base \notin DOMAIN S.env THEN Fail(S)
  ELSE [S EXCEPT !.ph = After(st, 0), !.cur = S.env[st.base]]

\* the entry of a map under a key: <<>> or <<value>>
RECURSIVE Entry(_, _)
Entry(e, key) == IF e = <<>> THEN <<>> ELSE IF e[1].v = key THEN <<e[2]>> ELSE Entry(SubSeq(e, 3, Len(e)), key)
FieldOf(S, v, f) ==
  LET h == S.heap[v.o] IN
  CASE f = "Name" -> VStr(h.name) [] f = "Count" -> Va("int32", h.count) [] f = "Id" -> Va("uint16", h.count)
    [] f = "Inner" -> [Va("*obj", "") EXCEPT !.o = h.inner]
    [] f = "M" -> VList("map[string]any", <<VStr("k"), VStr("entry")>>)
    [] f = "N" -> Va("int16", h.count)
Member(S, st) ==
  LET v == S.cur
      name == st.mem[S.mi + 1]
      ph == After(st, S.mi + 1)
      To(x) == [S EXCEPT !.cur = x, !.mi = @ + 1, !.ph = ph]
  IN IF v.t = "map[string]any" THEN LET x == Entry(v.e, name) IN IF x = <<>> THEN Fail(S) ELSE To(x[1])
     ELSE IF v.t \notin Structs THEN Fail(S)
     ELSE LET cap == Capital(name)
              ms == MethodsOf(v.t, cap)
          IN IF ms # <<>>
             THEN IF v.t \in AutoCalled /\ ms[1].p = <<>>
                  THEN [To(v) EXCEPT !.ph = "invoke", !.au = TRUE, !.sig = ms[1], !.recv = v, !.args = <<>>]
                  ELSE To([t |-> "func", v |-> cap, o |-> 0, e |-> <<v>>])
             ELSE IF v.o > 0 /\ \E j \in DOMAIN Fields[Base(v.t)] : Fields[Base(v.t)][j] = cap THEN To(FieldOf(S, v, cap))
             ELSE Fail(S)

\* the arguments are variables
Gather(S, st) ==
  IF \E j \in DOMAIN st.args : st.args[j] \notin DOMAIN S.env THEN Fail(S)
  ELSE [S EXCEPT !.args = [j \in DOMAIN st.args |-> S.env[st.args[j]]], !.ph = IF st.spread THEN "spread" ELSE "count"]
Spread(S) ==
  IF S.args = <<>> THEN Fail(S)
  ELSE LET l == S.args[Len(S.args)] IN
       IF l.t \notin SliceTypes THEN Fail(S)
       ELSE [S EXCEPT !.args = SubSeq(@, 1, Len(@) - 1) \o l.e, !.ph = "count"]
Count(S) ==
  IF S.cur.t = "*caller" THEN LET s == Methods["caller"][1] IN
       IF Len(S.args) < Len(s.p) - 1 THEN Fail(S) ELSE [S EXCEPT !.sig = s, !.recv = S.cur, !.k = 0, !.ph = "conv"]
  ELSE IF S.cur.t # "func" THEN Fail(S)
  ELSE LET f == Function(S, S.cur)
           n == Len(f.sig.p)
       IN IF (f.sig.va /\ Len(S.args) < n - 1) \/ (~f.sig.va /\ Len(S.args) # n) THEN Fail(S)
          ELSE [S EXCEPT !.sig = f.sig, !.recv = f.recv, !.k = 0, !.ph = "conv"]
TypeAt(sig, j) == IF sig.va /\ j >= Len(sig.p) THEN sig.p[Len(sig.p)] ELSE sig.p[j]
Convert(S) ==
  IF S.k = Len(S.args) THEN [S EXCEPT !.ph = "invoke"]
  ELSE LET p == Param(TypeAt(S.sig, S.k + 1), S.args[S.k + 1]) IN
       IF ~p[1] THEN Fail(S) ELSE [S EXCEPT !.args[S.k + 1] = p[2], !.k = @ + 1]

\* what the host's functions do: outs are their results
Invoke(S) ==
  LET L == [S EXCEPT !.log = Append(@, [f |-> S.sig.f, a |-> S.args])]
      o == S.recv.o
      Out(x) == [L EXCEPT !.outs = x, !.ph = "cast"]
      H == S.heap[o]
  IN IF S.recv.t = "nil"
     THEN LET f == S.fns[S.cur.o] IN
          IF f.boom # "" THEN Fail(L) ELSE Out([j \in DOMAIN f.out |-> IF f.out[j].t = "arg" THEN
            (IF Len(S.args) >= f.out[j].o THEN S.args[f.out[j].o] ELSE VNil) ELSE f.out[j]])
     ELSE CASE S.sig.f = "Get" -> Out(<<Va("int32", H.count)>>)
            [] S.sig.f = "Both" -> Out(<<Va("int8", H.count), VStr(H.name)>>)
            [] S.sig.f = "Self" -> [Out(<<[Va("obj", "") EXCEPT !.o = Len(S.heap) + 1]>>) EXCEPT !.heap = Append(@, H)]
            [] S.sig.f = "Sum" -> Out(<<Va("float32", "2.5")>>)
            [] S.sig.f = "Ident" -> Out(<<Va("uint16", H.count)>>)
            [] S.sig.f = "Ete" -> Out(S.args)
            [] S.sig.f = "SetName" -> [Out(<<>>) EXCEPT !.heap[o].name = S.args[1].v]
            [] S.sig.f = "Me" -> Out(<<S.recv>>)
            [] S.sig.f = "String" -> Out(<<VStr(IF S.recv.t = "str" THEN S.recv.v ELSE H.name)>>)
            [] S.sig.f = "Error" -> Out(<<VStr(S.recv.v)>>)
            [] S.sig.f = "Val" -> Out(<<Va("int16", H.count)>>)
            [] S.sig.f = "Pair" -> Out(<<Va("int", H.count), VStr(H.name)>>)
            [] S.sig.f = "Nop" -> Out(<<>>)
            [] S.sig.f = "Add" -> Out(<<Va("int", "9")>>)
            [] S.sig.f = "All" -> Out(<<Va("int", "8")>>)
            [] S.sig.f = "Next" -> Out(<<[S.recv EXCEPT !.o = H.inner]>>)
            [] S.sig.f = "Call" -> Out(<<Va("uint8", "200")>>)
After2(S, st) == IF S.au THEN After(st, S.mi) ELSE IF st.wrap THEN "wrap" ELSE "store"
Cast(S, st) == [S EXCEPT !.cur = Results(S.sig.d, S.outs), !.ph = After2(S, st), !.au = FALSE]
\* the value as one of the arguments of a function that gives its second one back
Wrap(S) == [S EXCEPT !.log = Append(@, [f |-> "verifid", a |-> <<VStr("a"), S.cur, VStr("b")>>]), !.ph = "store"]
Store(S, st) == [S EXCEPT !.env = [x \in DOMAIN @ \cup {st.dst} |-> IF x = st.dst THEN S.cur ELSE @[x]], !.ph = "end", !.r = "ok"]
HostStep(S, st) ==
  CASE S.ph = "load" -> Load(S, st) [] S.ph = "member" -> Member(S, st) [] S.ph = "args" -> Gather(S, st) [] S.ph = "spread" -> Spread(S)
    [] S.ph = "count" -> Count(S) [] S.ph = "conv" -> Convert(S) [] S.ph = "invoke" -> Invoke(S) [] S.ph = "cast" -> Cast(S, st)
    [] S.ph = "wrap" -> Wrap(S) [] S.ph = "store" -> Store(S, st)
Ended(S) == S.ph = "end"

\* what the host sees of a value: objects by their name or number
RECURSIVE Seen(_, _)
Seen(S, v) ==
  IF v.t \in {"*obj", "obj"} THEN Va(v.t, S.heap[v.o].name)
  ELSE IF v.t \in {"*auto", "auto"} THEN Va(v.t, S.heap[v.o].count)
  ELSE IF v.t \in {"func", "*caller"} THEN Va(v.t, "")
  ELSE [v EXCEPT !.o = 0, !.e = [j \in DOMAIN v.e |-> Seen(S, v.e[j])]]

\* --- what every script can reach ----------------------------------------------------------
Fn(p, va, d, out) == [p |-> p, va |-> va, d |-> d, out |-> out, boom |-> ""]
ArgV(j) == [t |-> "arg", v |-> "", o |-> j, e |-> <<>>]
ModFns == <<Fn(<<"float64", "int">>, TRUE, <<"int64", "string">>, <<Va("int64", "64"), VStr("mod")>>),
            Fn(<<"any", "any">>, FALSE, <<"any">>, <<ArgV(2)>>), Fn(<<>>, FALSE, <<>>, <<>>)>>
FuncV(f, o) == [t |-> "func", v |-> f, o |-> o, e |-> <<>>]
Globals(n) == [verifmod |-> VList("map[string]any", <<VStr("nop"), FuncV("mod3", n + 3), VStr("second"), FuncV("mod2", n + 2),
                                                      VStr("sum"), FuncV("mod1", n + 1), VStr("ten"), Va("int8", "10")>>),
               verifsecond |-> FuncV("mod2", n + 2)]

\* --- the registry of modules ------------------------------------------------------------------
\* an import [mod, k, v, safe, ini]: a table with the entry k |-> v under the name mod, or, when mod is empty, the entry itself. In safe
\* mode the table's _initSafe, when there is one, first makes the table safe (here: it replaces the entry k by an entry kb)
SafeEntry == <<VStr("kb"), Va("int", "77")>>
Table(op) == IF op.ini = "" THEN <<VStr(op.k), op.v>>
             ELSE IF op.safe THEN <<VStr("_initSafe"), FuncV("init", 0)>> \o SafeEntry
             ELSE <<VStr("_initSafe"), FuncV("init", 0), VStr(op.k), op.v>>
\* <<done, registry>>: a name is imported once
Import(reg, op) ==
  IF op.safe /\ op.ini = "bad" THEN <<FALSE, reg>>
  ELSE LET name == IF op.mod # "" THEN op.mod ELSE op.k
       IN IF name \in DOMAIN reg THEN <<FALSE, reg>>
          ELSE <<TRUE, (name :> (IF op.mod # "" THEN VList("map[string]any", Table(op)) ELSE op.v)) @@ reg>>
=============================================================================
