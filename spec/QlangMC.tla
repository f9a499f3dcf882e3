------------------------------ MODULE QlangMC ------------------------------
(* All small programs of a family, as words in prefix notation: operators    *)
(* over operands the host sees (FAMILY "e"), branches and loops ("c"),       *)
(* functions that use one variable ("v"), code put off, panics and returns   *)
(* ("d"). Every program is written down as a table of nodes and run by the   *)
(* machine of Qlang; what the host saw and the outcome must be those of a    *)
(* second definition, which reads them off the word by recursion. For "e"    *)
(* the text is also read back, by precedences. Every run is printed as a     *)
(* prediction and replayed on a real engine.                                 *)
EXTENDS Qlang, Ticks, Json, IOUtils

MAXLEN == atoi(IOEnv.MAXLEN)
FAMILY == IOEnv.FAMILY
Tk == [Choose |-> 1, WriteDown |-> 2, RunOn |-> 3, Finish |-> 4]
ASSUME TickStart(Tk)
Report == TickReport("QlangMC", Tk)

\* symbol: <<sort, sorts of its parts>>
Symbols == TLCEval(
  CASE FAMILY = "e" -> [a |-> <<"e", <<>>>>, t |-> <<"e", <<>>>>, f |-> <<"e", <<>>>>, s |-> <<"e", <<>>>>, q |-> <<"e", <<>>>>]
                       @@ [x \in {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||"} |-> <<"e", <<"e", "e">>>>]
                       @@ [x \in {"!", "~"} |-> <<"e", <<"e">>>>]
    [] FAMILY = "c" -> [m |-> <<"s", <<>>>>, H |-> <<"s", <<"s">>>>, A |-> <<"s", <<"s">>>>,
                        i |-> <<"s", <<"c", "b">>>>, e |-> <<"s", <<"c", "b", "b">>>>, E |-> <<"s", <<"c", "b", "c", "b">>>>, X |-> <<"s", <<"c", "b", "c", "b", "b">>>>,
                        S |-> <<"s", <<"k", "b", "k", "b">>>>, D |-> <<"s", <<"k", "b", "b">>>>, T |-> <<"s", <<"c", "b", "c", "b">>>>, L |-> <<"s", <<"b">>>>,
                        W |-> <<"s", <<"c", "b">>>>,
                        t |-> <<"c", <<>>>>, f |-> <<"c", <<>>>>, n |-> <<"c", <<>>>>, N |-> <<"c", <<"c">>>>]
                       @@ [x \in {"&", "|"} |-> <<"c", <<"c", "c">>>>] @@ [x \in {"1", "2"} |-> <<"k", <<>>>>]
                       @@ [x \in {"0"} |-> <<"b", <<>>>>] @@ [x \in {"(", "z"} |-> <<"b", <<"s">>>>] @@ [x \in {";"} |-> <<"b", <<"s", "s">>>>]
    [] FAMILY = "v" -> [r |-> <<"s", <<>>>>, w |-> <<"s", <<>>>>, i |-> <<"s", <<>>>>, u |-> <<"s", <<>>>>, c |-> <<"s", <<>>>>, J |-> <<"s", <<>>>>, G |-> <<"s", <<>>>>,
                        F |-> <<"s", <<"b">>>>, P |-> <<"s", <<"b">>>>, d |-> <<"s", <<"b">>>>, K |-> <<"s", <<"b">>>>]
                       @@ [x \in {"("} |-> <<"b", <<"s">>>>] @@ [x \in {";"} |-> <<"b", <<"s", "b">>>>]
    [] FAMILY = "d" -> [m |-> <<"s", <<>>>>, d |-> <<"s", <<>>>>, p |-> <<"s", <<>>>>, q |-> <<"s", <<>>>>, R |-> <<"s", <<>>>>, r |-> <<"s", <<>>>>,
                        D |-> <<"s", <<"b">>>>, F |-> <<"s", <<"b">>>>, C |-> <<"s", <<"b">>>>, L |-> <<"s", <<"b">>>>]
                       @@ [x \in {"("} |-> <<"b", <<"s">>>>] @@ [x \in {";"} |-> <<"b", <<"s", "b">>>>])
Chosen == TLCEval({s \in DOMAIN Symbols : ("," \o s \o ",") \in {SubSeq(IOEnv.SYMS, i, i + Len(s) + 1) : i \in 1 .. Len(IOEnv.SYMS) - Len(s) - 1}})
Parts(s) == Symbols[s][2]
Start1 == IF FAMILY = "e" THEN <<"e">> ELSE <<"b">>

VARIABLES w, need, ph, N, m
vars == <<w, need, ph, N, m>>
Init == w = <<>> /\ need = Start1 /\ ph = "word" /\ N = <<>> /\ m = Machine
\* --- writing a word down as a program ---------------------------------------------------
Nd(k, c, f) == [k |-> k, p |-> 0, c |-> c, tc |-> FALSE] @@ f
Lit(T, v, x) == Append(T, Nd("lit", <<>>, [v |-> v, x |-> x]))
NumLit(T, i) == Lit(T, VInt(i), ToString(i))
VarB == [h |-> <<104>>, x |-> <<120>>, f |-> <<95, 102>>, true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>, unset |-> <<117, 110, 115, 101, 116>>,
         panic |-> <<112, 97, 110, 105, 99>>, v |-> <<118>>, n |-> <<110>>]
VarS(s) == IF s = "f" THEN "_f" ELSE s
VarNd(T, s) == Append(T, Nd("var", <<>>, [s |-> VarS(s), b |-> VarB[s]]))
Fit(T, i, st) == IF Strength(T[i]) < st THEN [T EXCEPT ![i].p = 1] ELSE T
\* h(j, is)
Mark(T, j, is) == LET T1 == NumLit(VarNd(T, "h"), j) IN Append(T1, Nd("call", <<Len(T1) - 1, Len(T1)>> \o is, [va |-> FALSE]))
MarkOf1(T, j) == Mark(T, j, <<Len(T)>>)
Doc(T, items) == Append(T, Nd("doc", <<>>, [items |-> items]))
Fn(T, ps, bs, b) == Append(T, Nd("fn", <<>>, [ps |-> ps, bs |-> bs, va |-> FALSE, b |-> b]))
CallOf(T, f, is) == Append(T, Nd("call", <<f>> \o is, [va |-> FALSE]))
IfNd(T, cond, body, els) == Append(T, Nd("if", <<>>, [cond |-> cond, body |-> body, els |-> els]))
SwitchNd(T, subj, cond, body, els) == Append(T, Nd("switch", <<>>, [subj |-> subj, cond |-> cond, body |-> body, els |-> els]))
Assign(T, s, i) == Append(T, Nd("assign", <<i>>, [s |-> VarS(s), b |-> VarB[s]]))
Counter(j) == [s |-> "n" \o ToString(j), b |-> <<110>> \o (IF j > 9 THEN <<48 + (j \div 10), 48 + (j % 10)>> ELSE <<48 + j>>)]
\* n = 0; n < 2; n++ {b}
LoopNd(T, j, b) ==
  LET n == Counter(j)
      T1 == Append(NumLit(T, 0), Nd("assign", <<Len(T) + 1>>, n))
      T2 == NumLit(Append(T1, Nd("var", <<>>, n)), 2)
      T3 == Append(T2, Nd("bin", <<Len(T2) - 1, Len(T2)>>, [o |-> "<"]))
      T4 == Append(T3, Nd("inc", <<>>, n))
  IN Append(T4, Nd("for", <<>>, [parts |-> <<Len(T1), Len(T3), Len(T4)>>, b |-> b]))
WordM(j) == IF j > 9 THEN <<109, 48 + (j \div 10), 48 + (j % 10)>> ELSE <<109, 48 + j>>
OpStrength(o) == IF o \in {"+", "-"} THEN 4 ELSE IF o \in {"*", "/", "%"} THEN 5 ELSE 3
\* the nodes of a symbol at position j, given its parts; the last one is its own. An empty block has no node: 0
Written(s, j, T, is) ==
  LET n == Len(T) IN
  CASE FAMILY = "e" ->
       (CASE s = "a" -> MarkOf1(NumLit(T, j), j)
          [] s \in {"t", "f"} -> MarkOf1(VarNd(T, IF s = "t" THEN "true" ELSE "false"), j)
          [] s = "s" -> MarkOf1(Lit(T, VStr(<<97 + j>>), "\"\\x" \o (IF j > 14 THEN "7" \o ToString(j - 15) ELSE IF j > 9 - 1 THEN "6" \o <<"9", "a", "b", "c", "d", "e", "f">>[j - 7] ELSE "6" \o ToString(j + 1)) \o "\""), j)
          [] s = "q" -> MarkOf1(Lit(T, MkFlt(3, 2), "1.5"), j)
          [] s \in {"!", "~"} -> Append(Fit(T, is[1], 6), Nd("un", is, [o |-> IF s = "~" THEN "-" ELSE s]))
          [] s = "&&" -> Append(Fit(Fit(T, is[1], 2), is[2], 3), Nd("and", <<is[1]>>, [r |-> is[2]]))
          [] s = "||" -> Append(Fit(Fit(T, is[1], 1), is[2], 2), Nd("or", <<is[1]>>, [r |-> is[2]]))
          [] OTHER -> Append(Fit(Fit(T, is[1], OpStrength(s)), is[2], OpStrength(s) + 1), Nd("bin", is, [o |-> s])))
    [] FAMILY = "c" ->
       (CASE s = "m" -> MarkOf1(NumLit(T, j), j)
          [] s \in {"t", "f"} -> MarkOf1(VarNd(T, IF s = "t" THEN "true" ELSE "false"), j)
          [] s = "n" -> MarkOf1(NumLit(T, 1), j)
          [] s \in {"1", "2"} -> MarkOf1(NumLit(T, IF s = "1" THEN 1 ELSE 2), j)
          [] s = "N" -> Append(Fit(T, is[1], 6), Nd("un", is, [o |-> "!"]))
          [] s = "&" -> Append(Fit(Fit(T, is[1], 2), is[2], 3), Nd("and", <<is[1]>>, [r |-> is[2]]))
          [] s = "|" -> Append(Fit(Fit(T, is[1], 1), is[2], 2), Nd("or", <<is[1]>>, [r |-> is[2]]))
          [] s = "H" -> LET T1 == Fit(T, is[1], 1) IN Mark(T1, j, <<is[1]>>)
          [] s = "A" -> LET T1 == Fit(T, is[1], 1) IN Assign(T1, "v", is[1])
          [] s = "i" -> IfNd(T, <<is[1]>>, <<is[2]>>, -1)
          [] s = "e" -> IfNd(T, <<is[1]>>, <<is[2]>>, is[3])
          [] s = "E" -> IfNd(T, <<is[1], is[3]>>, <<is[2], is[4]>>, -1)
          [] s = "X" -> IfNd(T, <<is[1], is[3]>>, <<is[2], is[4]>>, is[5])
          [] s = "S" -> LET T1 == MarkOf1(NumLit(T, 1), j) IN SwitchNd(T1, Len(T1), <<is[1], is[3]>>, <<is[2], is[4]>>, -1)
          [] s = "D" -> LET T1 == MarkOf1(NumLit(T, 2), j) IN SwitchNd(T1, Len(T1), <<is[1]>>, <<is[2]>>, is[3])
          [] s = "T" -> SwitchNd(T, 0, <<is[1], is[3]>>, <<is[2], is[4]>>, -1)
          [] s = "L" -> LoopNd(T, j, is[1])
          [] s = "W" -> Append(T, Nd("for", <<>>, [parts |-> <<is[1]>>, b |-> is[2]]))
          [] s = "(" -> Doc(T, is)
          [] s = "z" -> Doc(T, <<is[1], 0>>)
          [] s = ";" -> Doc(T, is))
    [] FAMILY = "v" ->
       (CASE s = "r" -> MarkOf1(VarNd(T, "x"), j)
          [] s = "w" -> LET T1 == NumLit(T, 10 * j) IN Assign(T1, "x", Len(T1))
          [] s = "i" -> Append(T, Nd("inc", <<>>, [s |-> "x", b |-> VarB.x]))
          [] s = "u" -> LET T1 == Lit(VarNd(T, "unset"), VStr(VarB.x), "\"x\"") IN CallOf(T1, Len(T1) - 1, <<Len(T1)>>)
          [] s = "c" -> LET T1 == VarNd(T, "f") IN CallOf(T1, Len(T1), <<>>)
          [] s = "F" -> LET T1 == Fn(T, <<>>, <<>>, is[1]) IN CallOf(T1, Len(T1), <<>>)
          [] s = "P" -> LET T1 == NumLit(Fn(T, <<"x">>, <<VarB.x>>, is[1]), 10 * j) IN CallOf(T1, Len(T1) - 1, <<Len(T1)>>)
          [] s = "d" -> LET T1 == Fn(T, <<>>, <<>>, is[1]) IN Assign(T1, "f", Len(T1))
          [] s = "K" -> LET T1 == Fn(T, <<>>, <<>>, is[1])                       \* _f = fn(x) { return fn() {b} }(10 j)
                            T2 == Append(T1, Nd("return", <<Len(T1)>>, <<>>))
                            T3 == Doc(T2, <<Len(T2)>>)
                            T4 == NumLit(Fn(T3, <<"x">>, <<VarB.x>>, Len(T3)), 10 * j)
                            T5 == CallOf(T4, Len(T4) - 1, <<Len(T4)>>)
                        IN Assign(T5, "f", Len(T5))
          [] s \in {"J", "G"} ->                                                  \* _f = fn() { h(j, x); return fn() { h(j, x) or x = 10 j } }()
                        LET T1 == MarkOf1(VarNd(T, "x"), j)
                            R1 == Len(T1)
                            T2 == IF s = "J" THEN MarkOf1(VarNd(T1, "x"), j) ELSE Assign(NumLit(T1, 10 * j), "x", R1 + 1)
                            T3 == Doc(T2, <<Len(T2)>>)
                            T4 == Fn(T3, <<>>, <<>>, Len(T3))
                            T5 == Append(T4, Nd("return", <<Len(T4)>>, <<>>))
                            T6 == Doc(T5, <<R1, Len(T5)>>)
                            T7 == Fn(T6, <<>>, <<>>, Len(T6))
                            T8 == CallOf(T7, Len(T7), <<>>)
                        IN Assign(T8, "f", Len(T8))
          [] s = "(" -> Doc(T, is)
          [] s = ";" -> [T EXCEPT ![is[2]].items = <<is[1]>> \o @])
    [] FAMILY = "d" ->
       (CASE s = "m" -> Mark(T, j, <<>>)
          [] s = "d" -> LET T1 == Mark(T, j, <<>>) IN Append(T1, Nd("defer", <<>>, [r |-> Len(T1)]))
          [] s = "p" -> LET T1 == Lit(VarNd(T, "panic"), VStr(WordM(j)), "\"m" \o ToString(j) \o "\"") IN CallOf(T1, Len(T1) - 1, <<Len(T1)>>)
          [] s = "q" -> LET T1 == NumLit(VarNd(T, "panic"), j) IN CallOf(T1, Len(T1) - 1, <<Len(T1)>>)
          [] s = "R" -> LET T1 == Append(T, Nd("recover", <<>>, <<>>)) IN MarkOf1(T1, j)
          [] s = "r" -> LET T1 == NumLit(T, j) IN Append(T1, Nd("return", <<Len(T1)>>, <<>>))
          [] s = "D" -> LET T1 == Fn(T, <<>>, <<>>, is[1])
                            T2 == CallOf(T1, Len(T1), <<>>)
                        IN Append(T2, Nd("defer", <<>>, [r |-> Len(T2)]))
          [] s = "F" -> LET T1 == Fn(T, <<>>, <<>>, is[1])
                            T2 == CallOf(T1, Len(T1), <<>>)
                        IN MarkOf1(T2, j)
          [] s = "C" -> LET T1 == VarNd(T, "true") IN IfNd(T1, <<Len(T1)>>, <<is[1]>>, -1)
          [] s = "L" -> LoopNd(T, j, is[1])
          [] s = "(" -> Doc(T, is)
          [] s = ";" -> [T EXCEPT ![is[2]].items = <<is[1]>> \o @])
\* [T, i: node of the part that starts at j, nx]
RECURSIVE Build(_, _, _), BuildParts(_, _, _, _)
Build(u, j, T) ==
  LET q == BuildParts(u, j + 1, T, Len(Parts(u[j])))
  IN IF u[j] = "0" THEN [T |-> T, i |-> 0, nx |-> j + 1]
     ELSE LET T1 == Written(u[j], j, q.T, q.is) IN
          [T |-> T1, i |-> IF u[j] = ";" /\ FAMILY \in {"v", "d"} THEN q.is[2] ELSE Len(T1), nx |-> q.nx]
BuildParts(u, j, T, n) ==
  IF n = 0 THEN [T |-> T, is |-> <<>>, nx |-> j]
  ELSE LET a == Build(u, j, T)
           b == BuildParts(u, a.nx, a.T, n - 1)
       IN [T |-> b.T, is |-> <<a.i>> \o b.is, nx |-> b.nx]
Program(u) == LET q == Build(u, 1, <<>>) IN IF FAMILY = "e" THEN Doc(q.T, <<q.i>>) ELSE IF u = <<"0">> THEN <<>> ELSE
              IF q.i = Len(q.T) THEN q.T ELSE Append(q.T, q.T[q.i])

Choose == /\ ph = "word" /\ need # <<>>
          /\ \E s \in Chosen :
               /\ Symbols[s][1] = Head(need)
               /\ Len(w) + Len(Parts(s)) + Len(need) <= MAXLEN
               /\ w' = Append(w, s)
               /\ need' = Parts(s) \o Tail(need)
          /\ Tick(Tk.Choose)
          /\ UNCHANGED <<ph, N, m>>
WriteDown == /\ ph = "word" /\ need = <<>> /\ w # <<"0">>
             /\ N' = Program(w)
             /\ m' = Begin1(Machine, Len(N'))
             /\ ph' = "run"
             /\ Tick(Tk.WriteDown)
             /\ UNCHANGED <<w, need>>
BURST == 40
Burst == TLCEval([j \in 1 .. BURST |-> j])
RunOn == /\ ph = "run" /\ Running(m)
         /\ m' = FoldLeft(LAMBDA a, j : IF Running(a) THEN TLCEval(QStep(N, a)) ELSE a, m, Burst)
         /\ Tick(Tk.RunOn)
         /\ UNCHANGED <<w, need, ph, N>>
Text == Words(N)[Len(N)]
Result == IF m.st = "ok" /\ m.v.t # "?" THEN Shown(m, m.v, DEEP) ELSE IF m.st \in {"err", "raw", "exit"} THEN Shown(m, m.v, DEEP) ELSE VNil
Finish == /\ ph = "run" /\ ~Running(m)
          /\ ph' = "done"
          /\ PrintT("@@R " \o ToJson([w |-> w, text |-> Text, st |-> m.st, log |-> m.log, v |-> Result, open |-> m.v.t = "?", vars |-> ShownVars(m)]))
          /\ Tick(Tk.Finish)
          /\ UNCHANGED <<w, need, N, m>>
Next == Choose \/ WriteDown \/ RunOn \/ Finish
Spec == Init /\ [][Next]_vars

\* --- the second definition --------------------------------------------------------------
RECURSIVE Skip(_, _), SkipN(_, _, _)
Skip(u, j) == SkipN(u, j + 1, Len(Parts(u[j])))
SkipN(u, j, n) == IF n = 0 THEN j ELSE SkipN(u, Skip(u, j), n - 1)
\* where the n-th part of the symbol at j starts
Part(u, j, n) == SkipN(u, j + 1, n - 1)
Seen(j, v) == <<VInt(j), v>>
\* expressions: [log, v]
RECURSIVE LawE(_, _)
LawE(u, j) ==
  LET s == u[j]
      leaf(v) == [log |-> <<Seen(j, v)>>, v |-> v]
      a == LawE(u, j + 1)
      b == LawE(u, Part(u, j, 2))
      both == [log |-> a.log \o b.log, v |-> IF b.v.t = "!" THEN Wrong ELSE Binary(s, a.v, b.v)]
  IN CASE s = "a" -> leaf(VInt(j)) [] s = "t" -> leaf(VBool(TRUE)) [] s = "f" -> leaf(VBool(FALSE)) [] s = "s" -> leaf(VStr(<<97 + j>>)) [] s = "q" -> leaf(MkFlt(3, 2))
       [] s \in {"!", "~"} -> [a EXCEPT !.v = IF @.t = "!" THEN @ ELSE Unary(IF s = "~" THEN "-" ELSE "!", @)]
       [] s \in {"&&", "||"} -> (IF a.v.t # "bool" THEN [a EXCEPT !.v = Wrong] ELSE IF a.v.b = (s = "||") THEN a ELSE [log |-> a.log \o b.log, v |-> b.v])
       [] OTHER -> (IF a.v.t = "!" THEN a ELSE both)
\* control: [log, v, s: what variable v holds]
RECURSIVE LawC(_, _)
Then(a, b) == [log |-> a.log \o b.log, v |-> b.v]
Quiet(v) == [log |-> <<>>, v |-> v]
LawC(u, j) ==
  LET s == u[j]
      leaf(v) == [log |-> <<Seen(j, v)>>, v |-> v]
      p(n) == LawC(u, Part(u, j, n))
      IsBad(a) == a.v.t = "!"
      \* first true condition of parts n, n + 2, ...; l: how many; d: part of the default, or 0
      pick(n, l, d) == LET RECURSIVE go(_)
                           go(x) == IF x > l THEN (IF d = 0 THEN Quiet(VNil) ELSE p(d))
                                    ELSE LET c == p(n + 2 * (x - 1)) IN
                                         IF c.v.t # "bool" THEN [c EXCEPT !.v = Wrong] ELSE Then(c, IF c.v.b THEN p(n + 2 * (x - 1) + 1) ELSE go(x + 1))
                       IN go(1)
      sub(v) == [log |-> <<Seen(j, v)>>, v |-> v]
      \* the first case that equals v
      equal(v, l, d) == LET RECURSIVE go(_)
                            go(x) == IF x > l THEN (IF d = 0 THEN Quiet(VNil) ELSE p(d))
                                     ELSE LET c == p(2 * x - 1) IN IF IsBad(c) THEN c ELSE Then(c, IF c.v = v THEN p(2 * x) ELSE go(x + 1))
                        IN go(1)
  IN CASE s = "m" -> leaf(VInt(j)) [] s = "t" -> leaf(VBool(TRUE)) [] s = "f" -> leaf(VBool(FALSE)) [] s = "n" -> leaf(VInt(1))
       [] s = "1" -> leaf(VInt(1)) [] s = "2" -> leaf(VInt(2))
       [] s = "N" -> LET a == p(1) IN [a EXCEPT !.v = IF @.t # "bool" THEN Wrong ELSE VBool(~@.b)]
       [] s \in {"&", "|"} -> LET a == p(1) IN (IF a.v.t # "bool" THEN [a EXCEPT !.v = Wrong] ELSE IF a.v.b = (s = "|") THEN a ELSE Then(a, p(2)))
       [] s = "H" -> LET a == p(1) IN IF IsBad(a) THEN a ELSE Then(a, leaf(a.v))
       [] s = "A" -> p(1)
       [] s = "i" -> pick(1, 1, 0) [] s = "e" -> pick(1, 1, 3) [] s = "E" -> pick(1, 2, 0) [] s = "X" -> pick(1, 2, 5) [] s = "T" -> equal(VBool(TRUE), 2, 0)
       [] s = "S" -> Then(sub(VInt(1)), equal(VInt(1), 2, 0)) [] s = "D" -> Then(sub(VInt(2)), equal(VInt(2), 1, 3))
       [] s = "L" -> LET a == p(1) IN IF IsBad(a) THEN a ELSE [log |-> a.log \o a.log, v |-> VNil]
       \* an endless loop is stopped by the host
       [] s = "W" -> LET c == p(1)
                         RECURSIVE on(_)
                         on(g) == IF Len(g) >= LOGMAX THEN [log |-> SubSeq(g, 1, LOGMAX), v |-> [t |-> "!", x |-> "stop"]]
                                  ELSE LET b == p(2) IN IF IsBad(b) THEN [log |-> g \o c.log \o b.log, v |-> b.v] ELSE on(g \o c.log \o b.log)
                     IN IF c.v.t # "bool" THEN [c EXCEPT !.v = Wrong] ELSE IF ~c.v.b THEN [c EXCEPT !.v = VNil] ELSE on(<<>>)
       [] s = "0" -> Quiet(VNil)
       [] s = "(" -> p(1)
       [] s = "z" -> LET a == p(1) IN [a EXCEPT !.v = IF @.t = "!" THEN @ ELSE VNil]
       [] s = ";" -> LET a == p(1) IN IF IsBad(a) THEN a ELSE Then(a, p(2))
\* variables: [log, ok, sc: scopes [par, x: value, "no", or the scope that has it, f: function <<body, scope>> or <<>>]]
NoX == [t |-> "no"]
AliasX(e) == [t |-> "ext", e |-> e]
RECURSIVE OwnerX(_, _)
\* the nearest scope from e outwards that has, or has used, x
OwnerX(sc, e) == IF e = 0 THEN 0 ELSE IF sc[e].x.t = "no" THEN OwnerX(sc, sc[e].par)
                 ELSE IF sc[e].x.t = "ext" /\ sc[sc[e].x.e].x.t = "no" THEN OwnerX(sc, sc[e].par) ELSE IF sc[e].x.t = "ext" THEN sc[e].x.e ELSE e
Uses(sc, e) == sc[e].x.t # "no" /\ (sc[e].x.t = "ext" => sc[sc[e].x.e].x.t # "no")
RECURSIVE LawV(_, _, _, _)
LawV(u, jj, e, q) ==
  LET j == IF jj < 0 THEN 0 - jj ELSE jj                     \* below 0: the function within J, G
      s == IF jj > 0 THEN u[j] ELSE IF u[j] = "J" THEN "r" ELSE "w"
      o == OwnerX(q.sc, e)
      own == IF q.sc[e].x.t = "ext" THEN q.sc[e].x.e ELSE e
      enter(d, x) == [q EXCEPT !.sc = Append(@, [par |-> d, x |-> x, f |-> <<>>])]
      new == Len(q.sc) + 1
      stop == [q EXCEPT !.ok = FALSE]
  IN CASE s = "r" -> (IF o = 0 THEN stop
                      ELSE [q EXCEPT !.log = Append(@, Seen(j, q.sc[o].x)), !.sc[e].x = IF o = e THEN @ ELSE AliasX(o)])
       [] s = "w" -> (IF Uses(q.sc, e) THEN [q EXCEPT !.sc[own].x = VInt(10 * j)]
                      ELSE IF OwnerX(q.sc, q.sc[e].par) # 0 THEN stop ELSE [q EXCEPT !.sc[e].x = VInt(10 * j)])
       [] s = "i" -> (IF Uses(q.sc, e) THEN [q EXCEPT !.sc[own].x.i = @ + 1] ELSE stop)
       [] s = "u" -> [q EXCEPT !.sc[e].x = NoX]
       [] s = "c" -> (IF q.sc[e].f = <<>> THEN stop ELSE LawV(u, q.sc[e].f[1], new, enter(q.sc[e].f[2], NoX)))
       [] s = "F" -> LawV(u, j + 1, new, enter(e, NoX))
       [] s = "P" -> LawV(u, j + 1, new, enter(e, VInt(10 * j)))
       [] s = "d" -> [q EXCEPT !.sc[e].f = <<j + 1, e>>]
       [] s = "K" -> [enter(e, VInt(10 * j)) EXCEPT !.sc[e].f = <<j + 1, new>>]
       [] s \in {"J", "G"} -> (IF o = 0 THEN stop
                              ELSE [enter(e, AliasX(o)) EXCEPT !.log = Append(@, Seen(j, q.sc[o].x)), !.sc[e].f = <<0 - j, new>>])
       [] s = "(" -> LawV(u, j + 1, e, q)
       [] s = ";" -> LET a == LawV(u, j + 1, e, q) IN IF a.ok THEN LawV(u, Part(u, j, 2), e, a) ELSE a
\* calls: functions are called where they are written, so a scope is a depth.
\* q: [log, k: ok ret pan exit, v, sc: by depth [defs: positions, last first; rec: <<>> or <<panic>>; ret]]
RECURSIVE LawD(_, _, _, _), ExitD(_, _, _), DeferD(_, _, _, _)
LawD(u, j, e, q) ==
  LET s == u[j]
      see(v) == [q EXCEPT !.log = Append(@, v), !.v = VNil]
      panic(v) == [q EXCEPT !.k = "pan", !.v = v]
      call == LET a == LawD(u, j + 1, e + 1, [q EXCEPT !.sc = Append(@, [defs |-> <<>>, rec |-> <<>>, ret |-> VNil])])
              IN IF a.k = "exit" THEN a ELSE ExitD(u, e + 1, [a EXCEPT !.k = "ok", !.sc[e + 1].rec = IF a.k = "pan" THEN <<a.v>> ELSE <<>>])
  IN CASE s = "m" -> see(<<VInt(j)>>)
       [] s = "d" -> [q EXCEPT !.sc[e].defs = <<j>> \o @, !.v = VNil]
       [] s = "D" -> [q EXCEPT !.sc[e].defs = <<j>> \o @, !.v = VNil]
       [] s = "p" -> panic(VErr(WordM(j)))
       [] s = "q" -> panic(VInt(j))
       [] s = "R" -> LET v == IF e = 1 THEN <<>> ELSE q.sc[e - 1].rec
                         val == IF v = <<>> THEN VNil ELSE v[1]
                     IN [q EXCEPT !.log = Append(@, Seen(j, val)), !.v = val, !.sc = IF e = 1 THEN @ ELSE [@ EXCEPT ![e - 1].rec = <<>>]]
       [] s = "r" -> (IF e = 1 THEN LET a == ExitD(u, 1, [q EXCEPT !.sc[1].rec = <<>>]) IN IF a.k = "pan" \/ a.k = "exit" THEN a ELSE [a EXCEPT !.k = "exit", !.v = VInt(j)]
                      ELSE [q EXCEPT !.k = "ret", !.sc[e].ret = VInt(j)])
       [] s = "F" -> LET a == call IN IF a.k # "ok" THEN a ELSE [a EXCEPT !.log = Append(@, Seen(j, a.v))]
       [] s = "C" -> LawD(u, j + 1, e, q)
       [] s = "L" -> LET a == LawD(u, j + 1, e, q) IN IF a.k # "ok" THEN a ELSE LET b == LawD(u, j + 1, e, a) IN IF b.k # "ok" THEN b ELSE [b EXCEPT !.v = VNil]
       [] s = "(" -> LawD(u, j + 1, e, q)
       [] s = ";" -> LET a == LawD(u, j + 1, e, q) IN IF a.k = "ok" THEN LawD(u, Part(u, j, 2), e, a) ELSE a
\* a function is left: what it has put off is run
ExitD(u, e, q) ==
  IF q.k = "exit" THEN q
  ELSE IF q.sc[e].defs # <<>> THEN ExitD(u, e, DeferD(u, q.sc[e].defs[1], e, [q EXCEPT !.sc[e].defs = Tail(@)]))
  ELSE LET s == q.sc[e]
           left == [q EXCEPT !.sc = IF e = 1 THEN [@ EXCEPT ![1].rec = <<>>] ELSE SubSeq(@, 1, e - 1)]
       IN IF s.rec # <<>> THEN [left EXCEPT !.k = "pan", !.v = s.rec[1]] ELSE [left EXCEPT !.k = "ok", !.v = IF e = 1 THEN @ ELSE s.ret]
DeferD(u, j, e, q) ==
  LET a == IF u[j] = "d" THEN [q EXCEPT !.log = Append(@, <<VInt(j)>>)]
           ELSE LET b == LawD(u, j + 1, e + 1, [q EXCEPT !.sc = Append(@, [defs |-> <<>>, rec |-> <<>>, ret |-> VNil])])
                IN IF b.k = "exit" THEN b ELSE ExitD(u, e + 1, [b EXCEPT !.k = "ok", !.sc[e + 1].rec = IF b.k = "pan" THEN <<b.v>> ELSE <<>>])
  IN IF a.k = "pan" THEN [a EXCEPT !.k = "ok", !.sc[e].rec = <<a.v>>] ELSE a
StartD == [log |-> <<>>, k |-> "ok", v |-> VNil, sc |-> <<[defs |-> <<>>, rec |-> <<>>, ret |-> VNil]>>]
\* the program ends
TopD(u) == LET a == LawD(u, 1, 1, StartD) IN
           IF a.k = "exit" THEN a ELSE ExitD(u, 1, [a EXCEPT !.k = "ok", !.sc[1].rec = IF a.k = "pan" THEN <<a.v>> ELSE <<>>])
IsThrown(v) == IF v.t = "err" THEN "err" ELSE "raw"
SameAsLaw ==
  CASE FAMILY \in {"e", "c"} ->
         LET a == IF FAMILY = "e" THEN LawE(w, 1) ELSE LawC(w, 1) IN
         IF a.v.t = "?" THEN m.st = "unclear"
         ELSE IF Len(a.log) > LOGMAX \/ "x" \in DOMAIN a.v THEN m.log = SubSeq(a.log, 1, LOGMAX) /\ m.st = "raw" /\ m.v = VInt(99)
         ELSE m.log = a.log /\ (IF a.v.t = "!" THEN m.st = "err" ELSE m.st = "ok" /\ m.v = a.v)
    [] FAMILY = "v" -> LET a == LawV(w, 1, 1, [log |-> <<>>, ok |-> TRUE, sc |-> <<[par |-> 0, x |-> NoX, f |-> <<>>]>>]) IN
         /\ m.log = a.log
         /\ m.st = (IF a.ok THEN "ok" ELSE "err")
         /\ Knows(m, 1, VarB.x) = (a.sc[1].x.t # "no")
         /\ a.sc[1].x.t # "no" => m.envs[1].vars[VarB.x] = a.sc[1].x
    [] FAMILY = "d" -> LET a == TopD(w) IN
         /\ m.log = a.log
         /\ m.st = (CASE a.k = "ok" -> "ok" [] a.k = "exit" -> "exit" [] a.k = "pan" -> IsThrown(a.v))
         /\ a.k \in {"pan", "exit"} => m.v = a.v
Lawful == (ph = "run" /\ ~Running(m)) => SameAsLaw
\* --- reading a text back (family e) -----------------------------------------------------
\* [u: word, nx] of the expression at j whose operators bind at least as strong as st
RECURSIVE Climb(_, _, _), ClimbOn(_, _, _, _), Primary(_, _)
Level(o) == IF o = "||" THEN 1 ELSE IF o = "&&" THEN 2 ELSE IF o \in {"+", "-"} THEN 4 ELSE IF o \in {"*", "/", "%"} THEN 5
            ELSE IF o \in {"<", ">", "<=", ">=", "==", "!="} THEN 3 ELSE 0
Primary(t, j) ==
  CASE t[j] = "(" -> LET q == Climb(t, j + 1, 1) IN [u |-> q.u, nx |-> q.nx + 1]
    [] t[j] \in {"!", "-"} -> LET q == Primary(t, j + 1) IN [u |-> <<IF t[j] = "-" THEN "~" ELSE "!">> \o q.u, nx |-> q.nx]
    [] t[j] = "h" -> [u |-> <<CHOOSE s \in {"a", "t", "f", "s", "q"} : \E i \in DOMAIN w : ToString(i) = t[j + 2] /\ w[i] = s>>, nx |-> j + 6]
ClimbOn(t, a, j, st) ==
  IF j > Len(t) THEN [u |-> a, nx |-> j]
  ELSE IF Level(t[j]) < st \/ Level(t[j]) = 0 THEN [u |-> a, nx |-> j]
  ELSE LET b == Climb(t, j + 1, Level(t[j]) + 1) IN ClimbOn(t, <<t[j]>> \o a \o b.u, b.nx, st)
Climb(t, j, st) == LET a == Primary(t, j) IN ClimbOn(t, a.u, a.nx, st)
ReadsBack == (ph = "run" /\ ~Running(m) /\ FAMILY = "e") => Climb(Text, 1, 1).u = w
\* every operand is seen at most once, from left to right
InOrder == (ph = "run" /\ ~Running(m) /\ FAMILY = "e") => \A a, b \in DOMAIN m.log : a < b => m.log[a][1].i < m.log[b][1].i
MachineOK == ph = "run" => WellFormed(N) /\ QlangOK(m)
============================================================================
