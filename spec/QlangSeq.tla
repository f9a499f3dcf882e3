------------------------------ MODULE QlangSeq ------------------------------
(* Histories of small evaluations on one or two engines, as words: slices    *)
(* and maps that are made, shared, grown, cut and changed (FAMILY "k"),      *)
(* objects and bound methods (FAMILY "o"), evaluations that fail in all      *)
(* ways between others that don't (FAMILY "h"). Every evaluation is run by   *)
(* the machine of Qlang, and compared with what a second, much simpler       *)
(* state says: slices as sequences of cells, objects as their two fields,    *)
(* engines as the values of x and f. Histories are printed as predictions    *)
(* and replayed on real engines.                                             *)
EXTENDS Qlang, Ticks, Json, IOUtils

MAXLEN == atoi(IOEnv.MAXLEN)
FAMILY == IOEnv.FAMILY
Tk == [Evaluate1 |-> 1, HostSets |-> 2, RunOn |-> 3, Compared |-> 4]
ASSUME TickStart(Tk)
Report == TickReport("QlangSeq", Tk)
\* --- programs as terms ------------------------------------------------------------------
Letters == "abcdefghijklmnopqrstuvwxyz_"
Codes == TLCEval([s \in {SubSeq(Letters, i, i) : i \in 1 .. Len(Letters)} |-> CHOOSE n \in 95 .. 122 :
                    (n = 95 /\ s = "_") \/ \E i \in 1 .. 26 : n = 96 + i /\ s = SubSeq(Letters, i, i)])
UpCase == [C |-> 67]
B(s) == [i \in 1 .. Len(s) |-> IF SubSeq(s, i, i) \in DOMAIN UpCase THEN UpCase[SubSeq(s, i, i)] ELSE Codes[SubSeq(s, i, i)]]
\* a term: a node without its parts, its parts, and where they go
Tm(k, kids, put, f) == [nd |-> [k |-> k, p |-> 0, c |-> <<>>, tc |-> FALSE] @@ f, kids |-> kids, put |-> put]
V(s) == Tm("var", <<>>, "c", [s |-> s, b |-> B(s)])
I(i) == Tm("lit", <<>>, "c", [v |-> VInt(i), x |-> ToString(i)])
S(s) == Tm("lit", <<>>, "c", [v |-> VStr(B(s)), x |-> "\"" \o s \o "\""])
Call(f, es) == Tm("call", <<f>> \o es, "c", [va |-> FALSE])
Fun1(f, es) == Call(V(f), es)
H(j, es) == Fun1("h", <<I(j)>> \o es)
To(s, e) == Tm("assign", <<e>>, "c", [s |-> s, b |-> B(s)])
D(items) == Tm("doc", items, "doc", <<>>)
Nothing == Tm("none", <<>>, "none", <<>>)
FnOf(ps, d) == Tm("fn", <<d>>, "b", [ps |-> ps, bs |-> [i \in DOMAIN ps |-> B(ps[i])], va |-> FALSE])
Idx(a, b) == Tm("idx", <<a, b>>, "c", <<>>)
SubT(a, lo, hi) == Tm("sub", <<a>> \o lo \o hi, "c", [lo |-> lo # <<>>, hi |-> hi # <<>>])
Mem(a, s) == Tm("mref", <<a>>, "c", [s |-> s, b |-> B(s)])
New(c, es) == Tm("new", <<V(c)>> \o es, "c", [va |-> TRUE])
Eq(a, b) == Tm("bin", <<a, b>>, "c", [o |-> "=="])
Plus(a, b) == Tm("bin", <<a, b>>, "c", [o |-> "+"])
SliceT(es) == Tm("slice", es, "c", <<>>)
MapT(es) == Tm("map", es, "c", <<>>)
Defer(e) == Tm("defer", <<e>>, "r", <<>>)
Ret(e) == Tm("return", <<e>>, "c", <<>>)
If(c, d) == Tm("if", <<c, d>>, "if", <<>>)
While(c, d) == Tm("for", <<c, d>>, "for", <<>>)
Junk == Tm("bad", <<>>, "c", [x |-> ")"])
Class(ms, ds) == Tm("class", ds, "class", [ms |-> ms])
Method(s, ps) == [s |-> s, nb |-> B(s), ps |-> ps, bs |-> [i \in DOMAIN ps |-> B(ps[i])], va |-> FALSE, semi |-> FALSE]
Put1(nd, put, is) ==
  CASE put = "c" -> [nd EXCEPT !.c = is]
    [] put = "doc" -> nd @@ [items |-> is]
    [] put = "b" -> nd @@ [b |-> is[1]]
    [] put = "r" -> nd @@ [r |-> is[1]]
    [] put = "if" -> nd @@ [cond |-> <<is[1]>>, body |-> <<is[2]>>, els |-> -1]
    [] put = "for" -> nd @@ [parts |-> <<is[1]>>, b |-> is[2]]
    [] put = "class" -> [nd EXCEPT !.ms = [j \in DOMAIN is |-> @[j] @@ [b |-> is[j]]]]
\* the nodes of a term, added to a table: <<table, index>>
RECURSIVE Flatten(_, _)
Flatten(T, t) ==
  IF t.nd.k = "none" THEN <<T, 0>>
  ELSE LET q == FoldLeft(LAMBDA a, kid : LET r == Flatten(a[1], kid) IN <<r[1], Append(a[2], r[2])>>, <<T, <<>>>>, t.kids)
       IN <<Append(q[1], Put1(t.nd, t.put, q[2])), Len(q[1]) + 1>>
\* --- what a symbol is, as the j-th evaluation -------------------------------------------
\* [g: engine, d: items] of an evaluation; [g, set: value] of the host
Ev(d) == [g |-> 1, d |-> d, lex |-> FALSE]
One(t) == Ev(<<t>>)
SetOf(v, es) == Fun1("set", <<V(v)>> \o es)
Program(s, j) ==
  CASE FAMILY = "k" ->
       (CASE s = "n" -> One(To("s", Fun1("slice", <<S("int"), I(1), I(3)>>)))
          [] s = "l" -> One(To("s", SliceT(<<I(j), I(j + 1)>>)))
          [] s = "a" -> One(To("s", Fun1("append", <<V("s"), I(j)>>)))
          [] s = "A" -> One(To("t", Fun1("append", <<V("s"), I(j)>>)))
          [] s = "2" -> One(To("s", Fun1("append", <<V("s"), I(j), S("x")>>)))            \* the second element can't be stored
          [] s = "=" -> One(To("t", V("s")))
          [] s = "p" -> One(To("t", SubT(V("s"), <<>>, <<I(1)>>)))
          [] s = "P" -> One(To("t", SubT(V("s"), <<I(1)>>, <<>>)))
          [] s = "E" -> One(To("t", SubT(V("s"), <<I(0)>>, <<I(3)>>)))
          [] s = "w" -> One(SetOf("s", <<I(0), I(j)>>))
          [] s = "W" -> One(SetOf("t", <<I(1), I(j)>>))
          [] s = "x" -> One(SetOf("s", <<I(0), I(j), I(9), I(j), I(0), I(0)>>))
          [] s = "o" -> One(SetOf("s", <<I(0), V("nil")>>))
          [] s = "g" -> One(H(j, <<Idx(V("t"), I(1))>>))
          [] s = "c" -> One(H(j, <<Fun1("len", <<V("s")>>), Fun1("len", <<V("t")>>), Fun1("cap", <<V("t")>>)>>))
          [] s = "M" -> One(To("m", MapT(<<S("a"), I(j)>>)))
          [] s = "I" -> One(SetOf("m", <<S("b"), I(j)>>))
          [] s = "D" -> One(Fun1("delete", <<V("m"), S("a")>>))
          [] s = "U" -> One(SetOf("m", <<S("b"), I(j), S("a"), V("undefined")>>))
          [] s = "k" -> One(H(j, <<Idx(V("m"), S("a"))>>))
          [] s = "y" -> One(H(j, <<Mem(V("m"), "b")>>))
          [] s = "N" -> One(To("q", V("m")))
          [] s = "Q" -> One(SetOf("q", <<S("a"), I(j)>>))
          [] s = "e" -> One(H(j, <<Fun1("len", <<V("m")>>)>>))
          [] s = "X" -> One(SetOf("m", <<S("a"), I(j), I(1), I(j)>>))
          [] s = "Z" -> One(SetOf("m", <<S("a"), I(j), S("b"), S("x"), S("a"), I(0)>>)))
    [] FAMILY = "o" ->
       (CASE s = "K" -> One(To("C", Class(<<Method("_init", <<"a">>), Method("m", <<>>), Method("n", <<"b">>)>>,
                              <<D(<<SetOf("this", <<S("x"), V("a")>>)>>), D(<<Ret(H(j, <<Mem(V("this"), "x")>>))>>), D(<<SetOf("this", <<S("x"), V("b")>>), Ret(V("this"))>>)>>)))
          [] s = "k" -> One(To("C", Class(<<Method("m", <<>>)>>, <<D(<<H(j, <<>>)>>)>>)))
          [] s = "n" -> One(To("o", New("C", <<I(j)>>)))
          [] s = "N" -> One(To("p", New("C", <<I(j)>>)))
          [] s = "=" -> One(To("p", V("o")))
          [] s = "s" -> One(SetOf("o", <<S("x"), I(j)>>))
          [] s = "S" -> One(SetOf("p", <<S("x"), I(j)>>))
          [] s = "y" -> One(SetOf("o", <<S("y"), I(j), S("m"), I(j), S("y"), I(0)>>))
          [] s = "r" -> One(H(j, <<Mem(V("o"), "x")>>))
          [] s = "R" -> One(H(j, <<Mem(V("p"), "x")>>))
          [] s = "Y" -> One(H(j, <<Mem(V("p"), "y")>>))
          [] s = "m" -> One(Call(Mem(V("o"), "m"), <<>>))
          [] s = "M" -> One(Call(Mem(V("p"), "m"), <<>>))
          [] s = "b" -> One(To("f", Mem(V("o"), "m")))
          [] s = "c" -> One(Fun1("f", <<>>))
          [] s = "i" -> One(To("p", Call(Mem(V("o"), "n"), <<I(j)>>)))
          [] s = "q" -> One(H(j, <<Eq(V("o"), V("p"))>>))
          [] s = "u" -> One(Call(Mem(V("C"), "m"), <<V("p")>>)))
    [] FAMILY = "h" ->
       (CASE s = "a" -> One(To("x", I(j)))
          [] s = "b" -> [One(To("x", I(j))) EXCEPT !.g = 2]
          [] s = "r" -> One(H(j, <<V("x")>>))
          [] s = "R" -> [One(H(j, <<V("x")>>)) EXCEPT !.g = 2]
          [] s = "s" -> [g |-> 1, set |-> VInt(j)]
          [] s = "f" -> One(To("f", FnOf(<<>>, D(<<H(j, <<V("x")>>), If(Eq(V("x"), I(1)), D(<<Fun1("panic", <<S("m")>>)>>)), Ret(Plus(V("x"), I(100)))>>))))
          [] s = "c" -> One(Fun1("f", <<>>))
          [] s = "v" -> One(H(j, <<Fun1("f", <<>>)>>))
          \* fails deep inside, with values and deferred code waiting
          [] s = "F" -> Ev(<<To("x", I(j)), SliceT(<<I(1), Plus(I(2), Call(FnOf(<<>>, D(<<Defer(H(j, <<>>)), If(V("true"), D(<<While(V("true"), D(<<I(3), Fun1("panic", <<S("m")>>)>>))>>))>>)), <<>>))>>), To("x", I(0))>>)
          [] s = "l" -> [Ev(<<To("x", I(j))>>) EXCEPT !.lex = TRUE]
          [] s = "t" -> Ev(<<To("x", I(j)), Junk>>)
          [] s = "d" -> Ev(<<Defer(H(j, <<V("x")>>)), To("x", I(j)), V("nowhere"), To("x", I(0))>>)
          [] s = "e" -> Ev(<<Defer(H(j, <<V("x")>>)), To("x", I(j))>>)
          [] s = "z" -> Ev(<<To("x", I(j)), Nothing>>)
          [] s = "p" -> Ev(<<To("x", I(j)), Fun1("panic", <<I(j)>>)>>)
          [] s = "w" -> Ev(<<I(7), H(j, <<I(1), SliceT(<<V("x")>>)>>), I(j)>>)
          \* code that is not run fails to be read, inside what is captured
          [] s = "m" -> Ev(<<To("x", I(j)), If(V("false"), D(<<To("x", I(0)), Fun1("panic", <<S("m")>>)>>)), Call(V("nil"), <<>>)>>))
AllSyms == CASE FAMILY = "k" -> {"n", "l", "a", "A", "2", "=", "p", "P", "E", "w", "W", "x", "o", "g", "c", "M", "I", "D", "U", "k", "y", "N", "Q", "e", "X", "Z"}
             [] FAMILY = "o" -> {"K", "k", "n", "N", "=", "s", "S", "y", "r", "R", "Y", "m", "M", "b", "c", "i", "q", "u"}
             [] FAMILY = "h" -> {"a", "b", "r", "R", "s", "f", "c", "v", "F", "l", "t", "d", "e", "z", "p", "w", "m"}
Chosen == TLCEval({s \in AllSyms : \E i \in 1 .. Len(IOEnv.SYMS) : SubSeq(IOEnv.SYMS, i, i) = s})
\* the first symbols of every word: what the others need
First == TLCEval([i \in 1 .. Len(IOEnv.FIRST) |-> SubSeq(IOEnv.FIRST, i, i)])
\* --- the second definition --------------------------------------------------------------
\* L: k: [s, t: [c: cells up to the capacity, n, g: grown] or NoV, cell: values, m, q: map number or 0, mp: maps [a, b: value or 0]]
\*    o: [o, p: object or 0, f: <<object, mark>> or 0, C: 0, or [j: mark of m, full], ob: objects [x, y: value or 0, j, full]]
\*    h: [x1, x2, f: mark or 0]
\* a step gives [L, ok, log, v: value of the evaluation (? open)]
NoV == [n |-> -1]
L0 == CASE FAMILY = "k" -> [s |-> NoV, t |-> NoV, cell |-> <<>>, m |-> 0, q |-> 0, mp |-> <<>>]
        [] FAMILY = "o" -> [o |-> 0, p |-> 0, f |-> <<0, 0, FALSE>>, C |-> [j |-> 0, full |-> FALSE], ob |-> <<>>]
        [] FAMILY = "h" -> [x1 |-> -1, x2 |-> -1, f |-> 0]
Yes(L, log, v) == [L |-> L, r |-> "ok", log |-> log, v |-> v]
No(L, log) == [L |-> L, r |-> "err", log |-> log, v |-> VErr(<<>>)]
Open(L) == [L |-> L, r |-> "unclear", log |-> <<>>, v |-> VNil]
Say(j, vs) == << <<VInt(j)>> \o vs >>
Ints(L, v) == [i \in 1 .. v.n |-> VInt(L.cell[v.c[i]])]
ShownS(L, v) == [t |-> "slice", k |-> "int", e |-> Ints(L, v)]
ShownM(L, id) == [t |-> "map", k |-> "string:int", e |-> (IF L.mp[id].a > 0 THEN <<[key |-> <<97>>, val |-> VInt(L.mp[id].a)]>> ELSE <<>>) \o (IF L.mp[id].b > 0 THEN <<[key |-> <<98>>, val |-> VInt(L.mp[id].b)]>> ELSE <<>>)]
Cells(L, vs) == [L EXCEPT !.cell = @ \o vs]
NewC(L, n) == [i \in 1 .. n |-> Len(L.cell) + i]
StepK(L, s, j) ==
  LET appended == \* what append(s, j) is: <<L, view>>
        IF L.s.n < Len(L.s.c) THEN <<[L EXCEPT !.cell[L.s.c[L.s.n + 1]] = j], [L.s EXCEPT !.n = @ + 1]>>
        ELSE <<Cells(L, [i \in 1 .. L.s.n |-> L.cell[L.s.c[i]]] \o <<j>>), [c |-> NewC(L, L.s.n + 1), n |-> L.s.n + 1, g |-> TRUE]>>
      view(v, L1, var) == Yes(IF var = "s" THEN [L1 EXCEPT !.s = v] ELSE [L1 EXCEPT !.t = v], <<>>, ShownS(L1, v))
      has == L.s.n >= 0
      put(a, b) == Yes([L EXCEPT !.mp[L.m].a = IF a < 0 THEN @ ELSE a, !.mp[L.m].b = IF b < 0 THEN @ ELSE b], <<>>, VNil)
      partly(a, b) == [put(a, b) EXCEPT !.r = "err", !.v = VErr(<<>>)]
  IN CASE s = "n" -> LET L1 == Cells(L, <<0, 0, 0>>) IN view([c |-> NewC(L, 3), n |-> 1, g |-> FALSE], L1, "s")
       [] s = "l" -> LET L1 == Cells(L, <<j, j + 1>>) IN view([c |-> NewC(L, 2), n |-> 2, g |-> FALSE], L1, "s")
       [] s \in {"a", "A"} -> (IF ~has THEN No(L, <<>>)
                               ELSE IF L.s.g THEN Open(L)
                               ELSE view(appended[2], appended[1], IF s = "a" THEN "s" ELSE "t"))
       [] s = "2" -> (IF ~has THEN No(L, <<>>) ELSE IF L.s.g THEN Open(L) ELSE IF L.s.n + 2 <= Len(L.s.c) THEN No(appended[1], <<>>) ELSE No(L, <<>>))
       [] s = "=" -> (IF ~has THEN No(L, <<>>) ELSE view(L.s, L, "t"))
       [] s = "p" -> (IF ~has THEN No(L, <<>>) ELSE IF L.s.n = 0 /\ L.s.g THEN Open(L) ELSE IF Len(L.s.c) < 1 THEN No(L, <<>>) ELSE view([L.s EXCEPT !.n = 1], L, "t"))
       [] s = "P" -> (IF ~has \/ L.s.n < 1 THEN No(L, <<>>) ELSE view([L.s EXCEPT !.n = @ - 1, !.c = Tail(@)], L, "t"))
       [] s = "E" -> (IF ~has THEN No(L, <<>>) ELSE IF Len(L.s.c) < 3 THEN (IF L.s.g THEN Open(L) ELSE No(L, <<>>)) ELSE view([L.s EXCEPT !.n = 3], L, "t"))
       [] s = "w" -> (IF ~has THEN No(L, <<>>) ELSE Yes([L EXCEPT !.cell[L.s.c[1]] = j], <<>>, VNil))
       [] s = "W" -> (IF L.t.n < 2 THEN No(L, <<>>) ELSE Yes([L EXCEPT !.cell[L.t.c[2]] = j], <<>>, VNil))
       [] s = "x" -> (IF ~has THEN No(L, <<>>) ELSE No([L EXCEPT !.cell[L.s.c[1]] = j], <<>>))
       [] s = "o" -> (IF ~has THEN No(L, <<>>) ELSE Yes([L EXCEPT !.cell[L.s.c[1]] = 0], <<>>, VNil))
       [] s = "g" -> (IF L.t.n < 2 THEN No(L, <<>>) ELSE LET v == VInt(L.cell[L.t.c[2]]) IN Yes(L, Say(j, <<v>>), v))
       [] s = "c" -> (IF ~has \/ L.t.n < 0 THEN No(L, <<>>) ELSE IF L.t.g THEN Open(L)
                      ELSE Yes(L, Say(j, <<VInt(L.s.n), VInt(L.t.n), VInt(Len(L.t.c))>>), VInt(Len(L.t.c))))
       [] s = "M" -> LET L1 == [L EXCEPT !.mp = Append(@, [a |-> j, b |-> 0]), !.m = Len(L.mp) + 1] IN Yes(L1, <<>>, ShownM(L1, L1.m))
       [] s = "N" -> (IF L.m = 0 THEN No(L, <<>>) ELSE Yes([L EXCEPT !.q = L.m], <<>>, ShownM(L, L.m)))
       [] s = "Q" -> (IF L.q = 0 THEN No(L, <<>>) ELSE Yes([L EXCEPT !.mp[L.q].a = j], <<>>, VNil))
       [] L.m = 0 -> No(L, <<>>)
       [] s = "I" -> put(-1, j)
       [] s = "D" -> put(0, -1)
       [] s = "U" -> put(0, j)
       [] s = "X" -> partly(j, -1)
       [] s = "Z" -> partly(j, -1)
       [] s = "k" -> LET v == IF L.mp[L.m].a = 0 THEN VUndef ELSE VInt(L.mp[L.m].a) IN Yes(L, Say(j, <<v>>), v)
       [] s = "y" -> (IF L.mp[L.m].b = 0 THEN No(L, <<>>) ELSE Yes(L, Say(j, <<VInt(L.mp[L.m].b)>>), VInt(L.mp[L.m].b)))
       [] s = "e" -> LET n == VInt((IF L.mp[L.m].a > 0 THEN 1 ELSE 0) + (IF L.mp[L.m].b > 0 THEN 1 ELSE 0)) IN Yes(L, Say(j, <<n>>), n)
VObj1 == [t |-> "obj"]
StepO(L, s, j) ==
  LET make(x) == [x |-> x, y |-> -1, j |-> L.C.j, full |-> L.C.full]
      new(var) == IF L.C.j = 0 THEN No(L, <<>>)
                  ELSE LET L1 == [L EXCEPT !.ob = Append(@, make(IF L.C.full THEN j ELSE -1))]
                           id == Len(L.ob) + 1
                       IN Yes(IF var = "o" THEN [L1 EXCEPT !.o = id] ELSE [L1 EXCEPT !.p = id], <<>>, VObj1)
      read(ob, f) == IF ob = 0 THEN No(L, <<>>) ELSE LET v == IF f = "x" THEN L.ob[ob].x ELSE L.ob[ob].y IN
                     IF v < 0 THEN No(L, <<>>) ELSE Yes(L, Say(j, <<VInt(v)>>), VInt(v))
      \* method m of an object, marked mk
      call(ob, mk, full) == IF ~full THEN Yes(L, << <<VInt(mk)>> >>, VNil)
                            ELSE IF L.ob[ob].x < 0 THEN No(L, <<>>) ELSE Yes(L, Say(mk, <<VInt(L.ob[ob].x)>>), VInt(L.ob[ob].x))
  IN CASE s = "K" -> Yes([L EXCEPT !.C = [j |-> j, full |-> TRUE]], <<>>, [t |-> "class"])
       [] s = "k" -> Yes([L EXCEPT !.C = [j |-> j, full |-> FALSE]], <<>>, [t |-> "class"])
       [] s = "n" -> new("o") [] s = "N" -> new("p")
       [] s = "=" -> (IF L.o = 0 THEN No(L, <<>>) ELSE Yes([L EXCEPT !.p = L.o], <<>>, VObj1))
       [] s = "s" -> (IF L.o = 0 THEN No(L, <<>>) ELSE Yes([L EXCEPT !.ob[L.o].x = j], <<>>, VNil))
       [] s = "S" -> (IF L.p = 0 THEN No(L, <<>>) ELSE Yes([L EXCEPT !.ob[L.p].x = j], <<>>, VNil))
       [] s = "y" -> (IF L.o = 0 THEN No(L, <<>>) ELSE No([L EXCEPT !.ob[L.o].y = j], <<>>))
       [] s = "r" -> read(L.o, "x") [] s = "R" -> read(L.p, "x") [] s = "Y" -> read(L.p, "y")
       [] s = "m" -> (IF L.o = 0 THEN No(L, <<>>) ELSE call(L.o, L.ob[L.o].j, L.ob[L.o].full))
       [] s = "M" -> (IF L.p = 0 THEN No(L, <<>>) ELSE call(L.p, L.ob[L.p].j, L.ob[L.p].full))
       [] s = "b" -> (IF L.o = 0 THEN No(L, <<>>) ELSE Yes([L EXCEPT !.f = <<L.o, L.ob[L.o].j, L.ob[L.o].full>>], <<>>, [t |-> "bound"]))
       [] s = "c" -> (IF L.f[1] = 0 THEN No(L, <<>>) ELSE call(L.f[1], L.f[2], L.f[3]))
       [] s = "i" -> (IF L.o = 0 THEN No(L, <<>>) ELSE IF ~L.ob[L.o].full THEN No(L, <<>>) ELSE Yes([L EXCEPT !.p = L.o, !.ob[L.o].x = j], <<>>, VObj1))
       [] s = "q" -> (IF L.o = 0 \/ L.p = 0 THEN No(L, <<>>) ELSE Yes(L, Say(j, <<VBool(L.o = L.p)>>), VBool(L.o = L.p)))
       [] s = "u" -> (IF L.C.j = 0 \/ L.p = 0 THEN No(L, <<>>) ELSE call(L.p, L.C.j, L.C.full))
StepH(L, s, j) ==
  LET x == L.x1
      set(v) == [L EXCEPT !.x1 = v]
      call == IF L.f = 0 THEN No(L, <<>>) ELSE IF x < 0 THEN No(L, <<>>)
              ELSE IF x = 1 THEN No(L, Say(L.f, <<VInt(x)>>)) ELSE Yes(L, Say(L.f, <<VInt(x)>>), VInt(x + 100))
  IN CASE s = "a" -> Yes(set(j), <<>>, VInt(j))
       [] s = "b" -> Yes([L EXCEPT !.x2 = j], <<>>, VInt(j))
       [] s = "r" -> (IF x < 0 THEN No(L, <<>>) ELSE Yes(L, Say(j, <<VInt(x)>>), VInt(x)))
       [] s = "R" -> (IF L.x2 < 0 THEN No(L, <<>>) ELSE Yes(L, Say(j, <<VInt(L.x2)>>), VInt(L.x2)))
       [] s = "s" -> Yes(set(j), <<>>, VNil)
       [] s = "f" -> Yes([L EXCEPT !.f = j], <<>>, [t |-> "fn"])
       [] s = "c" -> call
       [] s = "v" -> (IF call.r = "ok" THEN [call EXCEPT !.log = @ \o Say(j, <<call.v>>)] ELSE call)
       [] s = "F" -> No(set(j), << <<VInt(j)>> >>)
       [] s = "l" -> No(L, <<>>)
       [] s = "t" -> No(set(j), <<>>)
       [] s = "d" -> No(set(j), Say(j, <<VInt(j)>>))
       [] s = "e" -> Yes(set(j), Say(j, <<VInt(j)>>), VInt(j))
       [] s = "z" -> Yes(set(j), <<>>, VNil)
       [] s = "p" -> [No(set(j), <<>>) EXCEPT !.r = "raw", !.v = VInt(j)]
       [] s = "w" -> (IF x < 0 THEN No(L, <<>>) ELSE Yes(L, Say(j, <<VInt(1), [t |-> "slice", k |-> "int", e |-> <<VInt(x)>>]>>), VInt(j)))
       [] s = "m" -> No(set(j), <<>>)
Step1(L, s, j) == CASE FAMILY = "k" -> StepK(L, s, j) [] FAMILY = "o" -> StepO(L, s, j) [] FAMILY = "h" -> StepH(L, s, j)
\* the variables of engine g, by name
Name(s, v) == [name |-> B(s), val |-> v]
Only(c, s, v) == IF c THEN <<Name(s, v)>> ELSE <<>>
LawVars(L, g) ==
  CASE g = 2 -> Only(FAMILY = "h" /\ IF FAMILY = "h" THEN L.x2 >= 0 ELSE FALSE, "x", VInt(IF FAMILY = "h" THEN L.x2 ELSE 0))
    [] FAMILY = "k" -> Only(L.m > 0, "m", ShownM(L, L.m)) \o Only(L.q > 0, "q", ShownM(L, L.q)) \o Only(L.s.n >= 0, "s", ShownS(L, L.s)) \o Only(L.t.n >= 0, "t", ShownS(L, L.t))
    [] FAMILY = "o" -> Only(L.C.j > 0, "C", [t |-> "class"]) \o Only(L.f[1] > 0, "f", [t |-> "bound"]) \o Only(L.o # 0, "o", VObj1) \o Only(L.p # 0, "p", VObj1)
    [] FAMILY = "h" -> Only(L.f > 0, "f", [t |-> "fn"]) \o Only(L.x1 >= 0, "x", VInt(L.x1))
\* --- exploration ------------------------------------------------------------------------
VARIABLES w, ph, N, ms, L, ops
vars == <<w, ph, N, ms, L, ops>>
Init == w = <<>> /\ ph = "next" /\ N = <<>> /\ ms = <<Machine, Machine>> /\ L = L0 /\ ops = <<>>
s1 == w[Len(w)]
Pr == Program(s1, Len(w))
g1 == Pr.g
m == ms[g1]
May(s) == ph = "next" /\ Len(w) < MAXLEN /\ s \in Chosen /\ (Len(w) < Len(First) => s = First[Len(w) + 1])
IsSet(s) == FAMILY = "h" /\ s = "s"
Evaluate1 == \E s \in Chosen :
  /\ May(s) /\ ~IsSet(s)
  /\ w' = Append(w, s)
  /\ LET p == Program(s, Len(w) + 1)
         q == Flatten(N, D(p.d))
     IN N' = q[1] /\ ms' = [ms EXCEPT ![p.g] = IF p.lex THEN Unread(@) ELSE Begin1(@, q[2])]
  /\ ph' = "run"
  /\ Tick(Tk.Evaluate1)
  /\ UNCHANGED <<L, ops>>
BURST == 40
Burst == TLCEval([j \in 1 .. BURST |-> j])
RunOn == /\ ph = "run" /\ Running(m)
         /\ ms' = [ms EXCEPT ![g1] = FoldLeft(LAMBDA a, j : IF Running(a) THEN TLCEval(QStep(N, a)) ELSE a, m, Burst)]
         /\ Tick(Tk.RunOn)
         /\ UNCHANGED <<w, ph, N, L, ops>>
E1 == Step1(L, s1, Len(w))
Shows(v) == IF v.t = "?" THEN VNil ELSE Shown(m, v, DEEP)
Op1 == [s |-> s1, g |-> g1, text |-> Words(N)[Len(N)], lex |-> Pr.lex, st |-> m.st, log |-> m.log, v |-> Shows(m.v), vars |-> ShownVars(m)]
Out(o) == PrintT("@@R " \o ToJson([w |-> w', ops |-> o]))
\* the table of nodes grows: functions kept for later need theirs
Compared == /\ ph = "run" /\ ~Running(m)
            /\ L' = E1.L
            /\ ops' = Append(ops, Op1)
            /\ ph' = IF "unclear" \in {m.st, E1.r} THEN "open" ELSE "next"
            /\ w' = w /\ (Len(w) = MAXLEN /\ "unclear" \notin {m.st, E1.r} => Out(ops'))
            /\ Tick(Tk.Compared)
            /\ UNCHANGED <<N, ms>>
HostSets == \E s \in Chosen :
  /\ May(s) /\ IsSet(s)
  /\ w' = Append(w, s)
  /\ ms' = [ms EXCEPT ![1] = Write(@, 1, B("x"), VInt(Len(w) + 1))]
  /\ L' = Step1(L, s, Len(w) + 1).L
  /\ ops' = Append(ops, [s |-> s, g |-> 1, v |-> VInt(Len(w) + 1)])
  /\ (Len(w') = MAXLEN => Out(ops'))
  /\ Tick(Tk.HostSets)
  /\ UNCHANGED <<ph, N>>
Next == Evaluate1 \/ HostSets \/ RunOn \/ Compared
Spec == Init /\ [][Next]_vars
\* --- laws -------------------------------------------------------------------------------
Lawful == (ph = "run" /\ ~Running(m)) =>
  \/ E1.r = "unclear"
  \/   /\ m.st = E1.r
       /\ m.log = E1.log
       /\ Shows(m.v) = E1.v
       /\ \A g \in 1 .. 2 : ShownVars(ms[g]) = LawVars(E1.L, g)
MachinesOK == \A g \in 1 .. 2 : QlangOK(ms[g])
=============================================================================
