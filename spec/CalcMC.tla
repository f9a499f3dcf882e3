------------------------------- MODULE CalcMC -------------------------------
(* All expressions up to MAXLEN tokens over a chosen alphabet, read token by *)
(* token by the machine of Calc.tla. Whenever the machine stops its program  *)
(* and value are those of a definition by splitting the text at its last     *)
(* operator of lowest priority. Every expression is printed as a prediction  *)
(* and replayed on a real calculator.                                        *)
EXTENDS Calc, Ticks, Json, IOUtils

MAXLEN == atoi(IOEnv.MAXLEN)
Q == IOEnv.CALC
MkTok(k, s) == [k |-> k, lit |-> s, s |-> 0]
Sym == [c \in {"n", "+", "-", "*", "/", "%", "(", ")", ",", "m", "a", "e", "i"} |->
  CASE c = "n" -> MkTok(INT, "") [] c = "+" -> MkTok(43, "+") [] c = "-" -> MkTok(45, "-") [] c = "*" -> MkTok(42, "*")
    [] c = "/" -> MkTok(47, "/") [] c = "%" -> MkTok(37, "%") [] c = "(" -> MkTok(40, "(") [] c = ")" -> MkTok(41, ")")
    [] c = "," -> MkTok(44, ",") [] c = "e" -> MkTok(IDENT, "e") [] c = "i" -> MkTok(IMAG, "2i")
    [] c = "m" -> MkTok(IDENT, IF Q = "cmplx" THEN "complex" ELSE "max") [] c = "a" -> MkTok(IDENT, IF Q = "rat" THEN "inv" ELSE "abs")]
Alphabet == TLCEval({s \in DOMAIN Sym : \E j \in 1 .. Len(IOEnv.SYMS) : SubSeq(IOEnv.SYMS, j, j) = s})
\* different literals at different places
Literals == <<"7", "2", "5", "3", "0", "1", "4", "8">>
LitAt(c, n) == IF c = "n" THEN MkTok(INT, Literals[1 + ((n * 3) % 8)]) ELSE Sym[c]
Tk == [Extend |-> 1, Close |-> 2, Step |-> 3, Stop |-> 4]
ASSUME TickStart(Tk)
Report == TickReport("CalcMC", Tk)

VARIABLES K, m, closed
vars == <<K, m, closed>>
Init == K = <<>> /\ m = CalcStart /\ closed = FALSE
\* the machine looks one token ahead
Ready == closed \/ m.i < Len(K)
Extend == /\ ~closed /\ ~Ready /\ m.st = "run" /\ Len(K) < MAXLEN
          /\ \E c \in Alphabet : K' = Append(K, LitAt(c, Len(K)))
          /\ UNCHANGED <<m, closed>> /\ Tick(Tk.Extend)
Close == /\ ~closed /\ ~Ready /\ m.st = "run"
         /\ closed' = TRUE /\ UNCHANGED <<K, m>> /\ Tick(Tk.Close)
Step == /\ Ready /\ m.st = "run"
        /\ m' = CalcStep(Q, K, m) /\ UNCHANGED <<K, closed>> /\ Tick(IF m'.st = "run" THEN Tk.Step ELSE Tk.Stop)
Next == Extend \/ Close \/ Step
Spec == Init /\ [][Next]_vars

\* --- the definition ----------------------------------------------------------------------
Bad0 == <<FALSE, Unknown, <<>>>>
EndsOperand(t) == t.k \in {INT, FLOAT, IMAG, IDENT, CloseK}
\* depth of parentheses before token j
RECURSIVE DepthAt(_, _)
DepthAt(ts, j) == IF j = 1 THEN 0
  ELSE DepthAt(ts, j - 1) + (CASE ts[j - 1].k = OpenK -> 1 [] ts[j - 1].k = CloseK -> -1 [] OTHER -> 0)
Splits(ts, p) == {j \in 2 .. Len(ts) : ts[j].k \in DOMAIN BinaryOps(Q) /\ BinaryOps(Q)[ts[j].k].p = p
                                       /\ DepthAt(ts, j) = 0 /\ EndsOperand(ts[j - 1])}
Rightmost(S) == CHOOSE j \in S : \A x \in S : x <= j
Commas(ts) == {j \in DOMAIN ts : ts[j].k = CommaK /\ DepthAt(ts, j) = 0}
RECURSIVE Den(_, _), DenArgs(_)
DenArgs(ts) ==          \* <<ok, values, program>> of a list of arguments
  IF Commas(ts) = {} THEN LET d == Den(ts, 1) IN <<d[1], <<d[2]>>, d[3]>>
  ELSE LET j == Rightmost(Commas(ts))
           l == DenArgs(SubSeq(ts, 1, j - 1))
           r == Den(SubSeq(ts, j + 1, Len(ts)), 1)
       IN <<l[1] /\ r[1], Append(l[2], r[2]), l[3] \o r[3]>>
Den(ts, p) ==
  IF ts = <<>> THEN Bad0
  ELSE IF p < 3 THEN
    (IF Splits(ts, p) = {} THEN Den(ts, p + 1)
     ELSE LET j == Rightmost(Splits(ts, p))
              l == Den(SubSeq(ts, 1, j - 1), p)
              r == Den(SubSeq(ts, j + 1, Len(ts)), p + 1)
              o == BinaryOps(Q)[ts[j].k].s
          IN IF l[1] /\ r[1] THEN <<TRUE, Apply(Q, o, l[2], r[2]), Append(l[3] \o r[3], Instr("bin", o, 2))>> ELSE Bad0)
  ELSE LET n == Len(ts)
           t == ts[1]
           Encloses(i) == n > i /\ ts[i].k = OpenK /\ ts[n].k = CloseK /\ \A j \in i + 1 .. n : DepthAt(ts, j) >= 1
       IN IF t.k = MinusK THEN (LET d == Den(Tail(ts), 3) IN
                                IF d[1] THEN <<TRUE, [d[2] EXCEPT !.n = -@], Append(d[3], Instr("neg", "", 1))>> ELSE Bad0)
          ELSE IF t.k = PlusK THEN Den(Tail(ts), 3)
          ELSE IF Encloses(1) THEN Den(SubSeq(ts, 2, n - 1), 1)
          ELSE IF n = 1 /\ t.k \in LitKinds(Q) THEN <<TRUE, LitValue(Q, t), <<Instr("lit", t.lit, 0)>>>>
          ELSE IF n = 1 /\ t.k = IDENT /\ t.lit \in Symbols(Q) THEN <<TRUE, Unknown, <<Instr("sym", t.lit, 0)>>>>
          ELSE IF n > 2 /\ t.k = IDENT /\ Encloses(2) THEN
            (LET a == IF n = 3 THEN <<TRUE, <<>>, <<>>>> ELSE DenArgs(SubSeq(ts, 3, n - 1)) IN
             IF a[1] /\ Callable(Q, t.lit, Len(a[2]))
             THEN <<TRUE, Result(Q, t.lit, a[2]), Append(a[3], Instr("call", t.lit, Len(a[2])))>> ELSE Bad0)
          ELSE Bad0
Stopped == closed /\ m.st # "run"
Agreement ==
  Stopped => LET d == Den(K, 1) IN
    IF m.st = "ok" THEN d = <<TRUE, m.vs[1], m.out>> ELSE ~d[1]
ReaderOK == CalcOK(Q, m)
Shown == [j \in DOMAIN K |-> K[j].lit]
Predict == m.st # "run" => PrintT("@@R " \o ToJson([w |-> Shown, st |-> m.st, out |-> m.out,
                                                    v |-> IF m.st = "ok" THEN m.vs[1] ELSE Unknown]))
=============================================================================
