------------------------------- MODULE Interp -------------------------------
(* An interpreter engine (tpl/interpreter): a grammar whose marks are bound  *)
(* to functions, run by the matcher machine of Peg.tla.                      *)
(*                                                                           *)
(* A binding is [mark, recv, p, out, do, how, on, rule, cap, ip, mode]:      *)
(*   recv  "stk" | "ipt" | "none": what the first parameter is               *)
(*   p     types of the other parameters, out: result types                  *)
(*   do    what the function does: "nop" "push" "pusharg" "cap" "run" "fail" *)
(*                                                                           *)
(* Engine state E:                                                           *)
(*   mute  depth of muting;  ip: current interpreter;  ip0: engine's own     *)
(*   stk   operand stack, values [t, s];  caps: captured code [x, a, b]      *)
(*   txt   texts evaluated so far [k tokens, x text, file]                   *)
(*   fr    evaluations in progress, innermost last:                          *)
(*         [m machine, x text, a, b token range, f binding, ev, ip, mute]    *)
(*         f and ev: the action that asked for this evaluation; ip and mute: *)
(*         what they were before it                                          *)
(*   ev    the action about to run, <<>> if none                             *)
(*   err   the error on its way out, <<>> if none                            *)
(*   log   what the host saw;  fuel: nested evaluations left;  cnt: calls    *)
EXTENDS Texts, Peg, Numbers, FiniteSets

FUEL == 5

\* --- places -------------------------------------------------------------------------
TextOf(E, x) == E.txt[x]
OffsetIn(E, x, i) == LET t == TextOf(E, x) IN IF i < Len(t.k) THEN t.k[i + 1].s ELSE t.x.size
LineAt(X, o) ==          \* a line begins behind each newline that text follows
  1 + Cardinality({i \in DOMAIN X.c : X.c[i] = 10 /\ X.o[i] < o /\ X.o[i] + 1 < X.size})
IsOld(E, x) == x # Len(E.txt)
\* tokens first .. first+n-1 of text x
Place(E, x, first, n) ==
  IF n = 0 THEN "line 0"
  ELSE IF IsOld(E, x) THEN "?"
  ELSE LET t == TextOf(E, x)
           l == ToString(LineAt(t.x, OffsetIn(E, x, first)))
       IN IF t.file = "" THEN "line " \o l ELSE t.file \o ":" \o l
SourceOf(E, x, first, n) ==
  LET t == TextOf(E, x) IN SubSeq(t.x.src, OffsetIn(E, x, first) + 1, OffsetIn(E, x, first + n))
OpLen(k) == LET j == CHOOSE j \in DOMAIN OpTable : OpTable[j][1] = k IN Len(OpTable[j][2])
EndOf(t) == t.s + (IF t.lit = "" THEN OpLen(t.k) ELSE Len(t.lit))

Top1(E) == E.fr[Len(E.fr)]
Dig(n) == ToString(n)
\* what a function sees of the matched tokens
Seen(E, x, first, n) ==
  IF IsOld(E, x) THEN "?+" \o Dig(n)
  ELSE Dig(OffsetIn(E, x, first)) \o "+" \o Dig(n) \o "@" \o Place(E, x, first, n) \o "|" \o SourceOf(E, x, first, n)
SeenCtx(E, x, first, n) ==
  IF n = 0 THEN "C0"
  ELSE IF IsOld(E, x) THEN "C?+" \o Dig(n)
  ELSE "C-" \o Dig(EndOf(TextOf(E, x).k[first + n])) \o ":" \o Seen(E, x, first, n)

\* --- the mark ------------------------------------------------------------------------
Spelled(mark) == IF Ch(mark, 1) = "_" THEN Ch(mark, 2) ELSE Ch(mark, 1)
IsLen(mark) == Spelled(mark) \in Upper
Early(mark) == Ch(mark, 1) = "_"
BuiltIn == {"_mute", "_unmute", "_tr"}
BindingOf(fns, mark) == IF \E j \in DOMAIN fns : fns[j].mark = mark /\ fns[j].shape # "unbound"
                        THEN CHOOSE j \in DOMAIN fns : fns[j].mark = mark ELSE 0
\* may a binding be used under its mark?
Admissible(f) ==
  /\ f.shape = "func"
  /\ f.recv # "none" \/ f.p # <<>>
  /\ f.recv # "none" => Len(f.p) <= 2 /\ (f.out = <<>> \/ f.out = <<"error">>)
MarksOK(fns, marks) ==
  \A j \in DOMAIN marks : LET b == BindingOf(fns, marks[j]) IN
    IF b = 0 THEN marks[j] \in BuiltIn ELSE Admissible(fns[b])

\* --- evaluation ----------------------------------------------------------------------
Frame2(m, x, a, b, f, ev, ip, mute) == [m |-> m, x |-> x, a |-> a, b |-> b, f |-> f, ev |-> ev, ip |-> ip, mute |-> mute]
NoEv == [mark |-> "", first |-> 0, n |-> 0, l |-> 0, x |-> 0]
EngineStart == [mute |-> 0, ip |-> 1, stk |-> <<>>, caps |-> <<>>, txt |-> <<>>, fr |-> <<>>, ev |-> <<>>,
                err |-> <<>>, log |-> <<>>, fuel |-> FUEL, cnt |-> [j \in {} |-> 0]]
\* a top-level evaluation of tokens k; mute left over is forgotten
Begin1(E, root, k, X, file) ==
  [E EXCEPT !.txt = Append(@, [k |-> k, x |-> X, file |-> file]), !.mute = 0, !.ev = <<>>, !.err = <<>>, !.log = <<>>,
            !.fuel = FUEL, !.fr = <<Frame2(PegStart(root, 0), Len(E.txt) + 1, 0, Len(k), 0, NoEv, 1, 0)>>]
Kinds1(E) == LET f == Top1(E) IN
  IF f.a = 0 /\ f.b = Len(TextOf(E, f.x).k) THEN [j \in DOMAIN TextOf(E, f.x).k |-> TextOf(E, f.x).k[j].k]
  ELSE [j \in 1 .. f.b - f.a |-> TextOf(E, f.x).k[f.a + j].k]
SetM(E, m) == [E EXCEPT !.fr[Len(E.fr)].m = m]

\* one step of the innermost matcher; a matched mark becomes the pending action
MatchStep1(G, E) ==
  LET f == Top1(E)
      m2 == PegStep(G, Kinds1(E), f.m)
  IN IF m2.log = <<>> THEN SetM(E, m2)
     ELSE LET l == m2.log[1]
              ev == [mark |-> l.i, first |-> f.a + l.p, n |-> l.n, l |-> l.l, x |-> f.x]
          IN [SetM(E, [m2 EXCEPT !.log = <<>>]) EXCEPT !.ev = <<ev>>]

Note(E, ev) == [E EXCEPT !.log = Append(@, ev)]
Done1(E) == [E EXCEPT !.ev = <<>>]
Raise(E, cls, msg, place) == [E EXCEPT !.ev = <<>>, !.err = <<[cls |-> cls, msg |-> msg, place |-> place]>>]
\* an error or panic of a marked function, wrapped where it was raised
RaiseHere(E, ev, msg) == Raise(E, "rt", msg, Place(E, ev.x, ev.first, ev.n))

Suppressed(E, mark) == E.mute > 0 /\ (~Early(mark) \/ E.mute > 1)

Show1(v) == CASE v.t = "int" -> "i" \o v.s [] v.t = "int64" -> "l" \o v.s [] v.t = "float64" -> "f" \o v.s
              [] v.t = "string" -> "s" \o v.s [] v.t = "nil" -> "nil"
Val(t, s) == [t |-> t, s |-> s]
\* <<ok, value>> of parameter type t for literal lit
Convert(t, lit) ==
  CASE t = "string" -> <<TRUE, Val("string", lit)>>
    [] t = "float64" -> (LET c == ToFloat(lit) IN <<c[1], Val("float64", c[2])>>)
    [] t \in {"int", "int64"} -> (LET c == ToInt(lit) IN <<c[1], Val(t, c[2])>>)
    [] OTHER -> <<FALSE, Val("nil", "")>>
Nil == Val("nil", "")

\* arguments of a function with receiver: <<ok, shown arguments, value of the second>>
Second(E, ev, mark, f) ==
  LET t == f.p[1] IN
  IF IsLen(mark) THEN (IF t = "int" THEN <<TRUE, "i" \o Dig(ev.l), Val("int", Dig(ev.l))>> ELSE <<FALSE, "", Nil>>)
  ELSE CASE t = "ctx" -> <<TRUE, SeenCtx(E, ev.x, ev.first, ev.n), Nil>>
         [] t = "intf" -> <<TRUE, IF ev.n = 0 THEN "nil" ELSE "T" \o Seen(E, ev.x, ev.first, ev.n), Nil>>
         [] t = "eng" -> <<TRUE, "E", Nil>>
         [] OTHER -> IF ev.n = 0 THEN <<FALSE, "", Nil>>
                     ELSE LET c == Convert(t, TextOf(E, ev.x).k[ev.first + 1].lit) IN
                          IF c[1] THEN <<TRUE, Show1(c[2]), c[2]>> ELSE <<FALSE, "", Nil>>
ArgsOf(E, ev, mark, f) ==
  IF f.p = <<>> THEN <<TRUE, <<>>, Nil>>
  ELSE LET s == Second(E, ev, mark, f) IN
       IF ~s[1] THEN <<FALSE, <<>>, Nil>>
       ELSE IF Len(f.p) = 1 THEN <<TRUE, <<s[2]>>, s[3]>>
       ELSE IF f.p[2] \notin {"ctx", "intf"} THEN <<FALSE, <<>>, Nil>>
       ELSE <<TRUE, <<s[2], SeenCtx(E, ev.x, ev.first, ev.n)>>, s[3]>>

Calls(E, mark) == IF mark \in DOMAIN E.cnt THEN E.cnt[mark] ELSE 0
Counted(E, mark) == [E EXCEPT !.cnt = [x \in DOMAIN @ \cup {mark} |-> IF x = mark THEN Calls(E, mark) + 1 ELSE @[x]]]

\* captured code, counted from the last one
CapAt(E, k) == E.caps[Len(E.caps) - (k % Len(E.caps))]
CanRun(E) == E.fuel > 0 /\ E.caps # <<>>

\* EvalCode returned err (cls "" for none) to the function of binding f called at ev
Back(E, f, ev, cls) ==
  LET said(r) == Done1(Note(E, [e |-> "back", f |-> f.mark, r |-> "", a |-> <<r>>])) IN
  IF cls = "" THEN said("ok")
  ELSE IF f.mode = "ret" THEN (IF cls = "fail" THEN Raise(E, "abort", "", "") ELSE RaiseHere(E, ev, "*"))
  ELSE said(cls)

\* the body of a function called at ev with v as its second argument
Body(E0, rd, f, ev, v) ==
  LET E == Counted(E0, f.mark)
      fails == f.do = "fail" /\ (f.on = 0 \/ f.on = Calls(E, f.mark))
  IN CASE f.do = "push" -> Done1([E EXCEPT !.stk = Append(@, Val("int", Dig(f.on)))])
       [] f.do = "pusharg" -> Done1([E EXCEPT !.stk = Append(@, v)])
       [] f.do = "cap" -> Done1([E EXCEPT !.caps = Append(@, [x |-> ev.x, a |-> ev.first, b |-> ev.first + ev.n])])
       [] fails -> IF f.how = "other" THEN Raise(E, "raw", f.mark, "") ELSE RaiseHere(E, ev, "E" \o f.mark)
       [] f.do = "run" /\ CanRun(E) ->
            LET c == CapAt(E, f.cap)
                E2 == [E EXCEPT !.fuel = @ - 1]
            IN IF ~Has(rd.rules, f.rule) THEN Back(E2, f, ev, "nogrammar")
               ELSE IF f.how = "nocode" THEN Back(E2, f, ev, "other")
               ELSE [E2 EXCEPT !.ev = <<>>, !.ip = f.ip, !.mute = 0,
                               !.fr = Append(@, Frame2(PegStart(Get(rd.rules, f.rule).n, 0), c.x, c.a, c.b, f, ev, E.ip, E.mute))]
       [] OTHER -> Done1(E)

\* a function with receiver is called
Called(E, rd, mark, f) ==
  LET ev == E.ev[1]
      a == ArgsOf(E, ev, mark, f)
      r == IF f.recv = "stk" THEN "stk" ELSE "ip" \o Dig(E.ip)
  IN IF ~a[1] THEN RaiseHere(E, ev, "*")
     ELSE Body(Note(E, [e |-> "call", f |-> mark, r |-> r, a |-> a[2]]), rd, f, ev, a[3])

\* an operand for parameter type t: <<ok, value>>
Operand(v, t) ==
  IF t = "intf" THEN <<TRUE, v>>
  ELSE IF v.t = t THEN <<TRUE, v>>
  ELSE IF t = "float64" /\ v.t \in {"int", "int64"} THEN <<TRUE, Val("float64", Thousand(v.s))>>
  ELSE <<FALSE, v>>
ResultOf(t, j) == CASE t = "int" -> Val("int", Dig(6 + j)) [] t = "float64" -> Val("float64", Dig(500 + 1000 * j))
                    [] t = "string" -> Val("string", "r" \o Dig(j)) [] OTHER -> Nil
\* a function without receiver takes its operands from the stack and leaves its results there
CalledOnStack(E0, rd, mark, f, perr, callfn) ==
  LET ev == E0.ev[1]
      E == IF callfn THEN Note(E0, [e |-> "callfn", f |-> "", r |-> "", a |-> <<>>]) ELSE E0
      n == Len(f.p)
      h == Len(E.stk)
  IN IF h < n THEN RaiseHere(E, ev, "*")
     ELSE LET args == [j \in 1 .. n |-> Operand(E.stk[h - n + j], f.p[j])]
              E2 == [E EXCEPT !.stk = SubSeq(@, 1, h - n)]
          IN IF \E j \in 1 .. n : ~args[j][1] THEN RaiseHere(E2, ev, "*")
             ELSE LET E3 == Note(E2, [e |-> "call", f |-> mark, r |-> "none", a |-> [j \in 1 .. n |-> Show1(args[j][2])]])
                      E4 == Body(E3, rd, f, ev, Nil)
                  IN IF E4.err # <<>> THEN E4
                     ELSE IF perr /\ Len(f.out) > 1 THEN RaiseHere(E4, ev, "*")
                     ELSE [E4 EXCEPT !.stk = @ \o [j \in DOMAIN f.out |-> ResultOf(f.out[j], j)]]

\* the innermost evaluation has come to its end; only its own interpreter and mute depth end with it
Restore(E) == LET f == Top1(E) IN [E EXCEPT !.ip = f.ip, !.mute = f.mute, !.fr = SubSeq(@, 1, Len(@) - 1)]
Leave(E) ==
  LET f == Top1(E)
      m == f.m
  IN IF m.md = "abort" THEN Raise(E, "abort", "", "")
     ELSE Back(Restore(E), f.f, f.ev, IF m.ok /\ m.c = f.b - f.a THEN "" ELSE "fail")
\* an error crosses the evaluation that contains it
Unwind(E) ==
  LET f == Top1(E) IN
  IF f.f.mode = "recover"
  THEN Done1(Note([Restore(E) EXCEPT !.err = <<>>], [e |-> "back", f |-> f.f.mark, r |-> "", a |-> <<"panic">>]))
  ELSE Restore(E)

\* --- invariants ------------------------------------------------------------------------
EngineOK(E) ==
  /\ Len(E.fr) <= FUEL + 1
  /\ E.err # <<>> => E.ev = <<>>
  /\ \A j \in DOMAIN E.fr : E.fr[j].a <= E.fr[j].b /\ E.fr[j].b <= Len(E.txt[E.fr[j].x].k)
  /\ \A j \in DOMAIN E.caps : E.caps[j].x \in DOMAIN E.txt
\* outside every nested evaluation the engine has its own interpreter
OwnInterpreter(E) == Len(E.fr) <= 1 => E.ip = 1
=============================================================================
