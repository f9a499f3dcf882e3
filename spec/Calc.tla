-------------------------------- MODULE Calc --------------------------------
(* The calculators of tpl/number, tpl/cmplx and tpl/rat: a reader with a     *)
(* stack of open operators turns an expression, token by token, into the     *)
(* program (postfix) of its value, and runs it on exact values where these   *)
(* are small; other values are "?", failures "!".                            *)
(*                                                                           *)
(* Calculator kind q: "number" | "cmplx" | "rat". Reader state m:            *)
(*   i    next token       st   "run" | "ok" | "fail"                        *)
(*   exp  TRUE where an operand must begin                                   *)
(*   ops  open operators [o, s, n, p]: o is "neg" "pos" "(" "call" or a      *)
(*        binary operator; s: function name; n: arguments begun; p: priority *)
(*   out  program [o, s, n]: literals, identifiers, operators, calls         *)
(*   vs   values of the operands read so far                                 *)
EXTENDS Interp

CalcStart == [i |-> 1, st |-> "run", exp |-> TRUE, ops |-> <<>>, out |-> <<>>, vs |-> <<>>]

\* --- exact values <<n, d>>, d > 0, in lowest terms; <<>>: not known here; "div": failure ---
Unknown == [t |-> "?", n |-> 0, d |-> 1]
Failure == [t |-> "!", n |-> 0, d |-> 1]
LIM == 32767
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Absolute(n) == IF n < 0 THEN -n ELSE n
Known(v) == v.t = "="
\* of a fraction with d # 0
Exact(n, d) ==
  LET g == Gcd(Absolute(n), Absolute(d))
      s == IF d < 0 THEN -1 ELSE 1
      a == s * (n \div g)
      b == s * (d \div g)
      n2 == IF n % g = 0 THEN a ELSE 0
  IN IF Absolute(n2) > LIM \/ b > LIM THEN Unknown ELSE [t |-> "=", n |-> n2, d |-> b]
Whole(n) == Exact(n, 1)
PowersOfTwo == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}
\* a float holds the value exactly
Holds(q, v) == IF q = "rat" \/ ~Known(v) \/ v.d \in PowersOfTwo THEN v ELSE Unknown
Apply(q, f, a, b) ==
  IF a.t = "!" \/ b.t = "!" THEN Failure
  ELSE IF f = "/" /\ q = "rat" /\ Known(b) /\ b.n = 0 THEN Failure
  ELSE IF ~Known(a) \/ ~Known(b) THEN Unknown
  ELSE Holds(q, CASE f = "+" -> Exact(a.n * b.d + b.n * a.d, a.d * b.d)
                  [] f = "-" -> Exact(a.n * b.d - b.n * a.d, a.d * b.d)
                  [] f = "*" -> Exact(a.n * b.n, a.d * b.d)
                  [] f = "/" -> IF b.n = 0 \/ q = "cmplx" THEN Unknown ELSE Exact(a.n * b.d, a.d * b.n)
                  [] f = "%" -> IF b.n = 0 \/ a.d # 1 \/ b.d # 1 THEN Unknown
                                ELSE LET r == Absolute(a.n) % Absolute(b.n) IN Whole(IF a.n < 0 THEN -r ELSE r))
Less(a, b) == a.n * b.d < b.n * a.d
RECURSIVE Best(_, _)
Best(vs, f) ==
  IF Len(vs) = 1 THEN vs[1]
  ELSE LET r == Best(SubSeq(vs, 1, Len(vs) - 1), f)
           x == vs[Len(vs)]
       IN IF (f = "max" /\ Less(r, x)) \/ (f = "min" /\ Less(x, r)) THEN x ELSE r
Floor(v) == v.n \div v.d

\* --- function tables -----------------------------------------------------------------------
\* the number of arguments: {} unknown function, {-1} any number
OneArg == {"abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "cos", "cosh", "exp", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh"}
Arity1(q) == CASE q = "number" -> OneArg \cup {"cbrt", "ceil", "erf", "erfc", "exp2", "expm1", "floor", "gamma", "inf", "j0", "j1",
                                  "ln", "log1p", "log2", "logb", "pow10", "trunc", "y0", "y1"}
               [] q = "cmplx" -> OneArg \cup {"conj", "cot", "phase", "real", "imag"}
               [] q = "rat" -> {"abs", "inv", "denom", "num"}
Arity2(q) == CASE q = "number" -> {"atan2", "copysign", "dim", "hypot", "jn", "ldexp", "mod", "nextafter", "pow", "remainder", "yn"}
               [] q = "cmplx" -> {"pow", "rect", "complex"}
               [] q = "rat" -> {}
Arity0(q) == CASE q = "number" -> {"NaN"} [] q = "cmplx" -> {"inf", "NaN"} [] q = "rat" -> {}
ArityAny(q) == IF q = "cmplx" THEN {} ELSE {"max", "min"}
Symbols(q) == IF q = "number" THEN {"e", "pi", "phi", "Inf", "NaN"} ELSE {}
Callable(q, f, n) ==
  \/ f \in ArityAny(q)
  \/ n = 0 /\ f \in Arity0(q)
  \/ n = 1 /\ f \in Arity1(q)
  \/ n = 2 /\ f \in Arity2(q)
Result(q, f, a) ==
  IF \E j \in DOMAIN a : a[j].t = "!" THEN Failure
  ELSE IF q = "rat" /\ f = "inv" /\ Known(a[1]) /\ a[1].n = 0 THEN Failure
  ELSE IF \E j \in DOMAIN a : ~Known(a[j]) THEN Unknown
  ELSE IF f \in {"max", "min"} THEN (IF a = <<>> THEN Whole(0) ELSE Best(a, f))
  ELSE IF q = "cmplx" THEN (CASE f = "abs" -> [a[1] EXCEPT !.n = Absolute(@)]
                              [] f \in {"real", "conj"} -> a[1]
                              [] f = "imag" -> Whole(0)
                              [] OTHER -> Unknown)
  ELSE CASE f = "abs" -> [a[1] EXCEPT !.n = Absolute(@)]
         [] f = "inv" -> Exact(a[1].d, a[1].n)
         [] f = "num" -> Whole(a[1].n)
         [] f = "denom" -> Whole(a[1].d)
         [] f = "floor" -> Whole(Floor(a[1]))
         [] f = "ceil" -> Whole(-((-a[1].n) \div a[1].d))
         [] f = "trunc" -> Whole(IF a[1].n < 0 THEN -((-a[1].n) \div a[1].d) ELSE Floor(a[1]))
         [] f = "dim" -> IF Less(a[2], a[1]) THEN Apply(q, "-", a[1], a[2]) ELSE Whole(0)
         [] f = "mod" -> Apply(q, "%", a[1], a[2])
         [] OTHER -> Unknown

\* --- literals ------------------------------------------------------------------------------
\* is the literal accepted by the calculator, and its small exact value
FromThousand(s) == IF s = "big" \/ Len(s) > 7 THEN Unknown ELSE Exact(NumIn(s, 10, 0), 1000)
LitKinds(q) == CASE q = "number" -> {INT, FLOAT} [] q = "cmplx" -> {INT, FLOAT, IMAG} [] q = "rat" -> {INT}
Convertible(q, t) == q = "rat" \/ t.k = IMAG \/ ToFloat(t.lit)[1]
DecimalZero(s) == Len(s) > 1 /\ Ch(s, 1) = "0" /\ AllIn(s, DOMAIN Digits)
LitValue(q, t) ==
  IF t.k = IMAG THEN Unknown
  ELSE IF q = "rat" THEN
    (IF Len(Strip(t.lit)) <= 4 /\ AllIn(t.lit, DOMAIN Digits) THEN Whole(NumIn(t.lit, 10, 0)) ELSE Unknown)
  ELSE IF t.k = FLOAT /\ (Len(t.lit) > 5 \/ \E j \in 1 .. Len(t.lit) : Ch(t.lit, j) \notin DOMAIN Digits \cup {"."}) THEN Unknown
  ELSE Holds(q, FromThousand(ToFloat(t.lit)[2]))

\* --- the reader ----------------------------------------------------------------------------
Instr(o, s, n) == [o |-> o, s |-> s, n |-> n]
Reject(m) == [m EXCEPT !.st = "fail"]
PlusK == 43
MinusK == 45
OpenK == 40
CloseK == 41
CommaK == 44
\* binary operators: text and priority
BinaryOps(q) == [k \in IF q = "number" THEN {43, 45, 42, 47, 37} ELSE {43, 45, 42, 47} |->
  CASE k = 43 -> [s |-> "+", p |-> 1] [] k = 45 -> [s |-> "-", p |-> 1] [] k = 42 -> [s |-> "*", p |-> 2]
    [] k = 47 -> [s |-> "/", p |-> 2] [] k = 37 -> [s |-> "%", p |-> 2]]
Entry(o, s, p) == [o |-> o, s |-> s, n |-> 0, p |-> p]
TopOp(m) == IF m.ops = <<>> THEN Entry("", "", 0) ELSE m.ops[Len(m.ops)]
PopOp(m) == [m EXCEPT !.ops = SubSeq(@, 1, Len(@) - 1)]
Opened(e) == e.o \in {"", "(", "call"}

\* the innermost operator takes its operands
Reduce(q, m) ==
  LET e == TopOp(m)
      h == Len(m.vs)
      m2 == PopOp(m)
  IN CASE e.o = "pos" -> m2
       [] e.o = "neg" -> [m2 EXCEPT !.out = Append(@, Instr("neg", "", 1)), !.vs[h] = [@ EXCEPT !.n = -@]]
       [] OTHER -> [m2 EXCEPT !.out = Append(@, Instr("bin", e.o, 2)),
                              !.vs = Append(SubSeq(@, 1, h - 2), Apply(q, e.o, m.vs[h - 1], m.vs[h]))]
RECURSIVE ReduceAbove(_, _, _)
ReduceAbove(q, m, p) == IF ~Opened(TopOp(m)) /\ TopOp(m).p >= p THEN ReduceAbove(q, TLCEval(Reduce(q, m)), p) ELSE m

\* an operand is complete: signs bind first
GotOperand(q, m) == ReduceAbove(q, [m EXCEPT !.exp = FALSE], 3)
Push1(q, m, ins, v) == GotOperand(q, [m EXCEPT !.out = Append(@, ins), !.vs = Append(@, v)])
EndCall(q, m) ==
  LET e == TopOp(m)
      h == Len(m.vs)
      args == SubSeq(m.vs, h - e.n + 1, h)
  IN IF ~Callable(q, e.s, e.n) THEN Reject(m)
     ELSE Push1(q, [PopOp(m) EXCEPT !.vs = SubSeq(@, 1, h - e.n)], Instr("call", e.s, e.n), Result(q, e.s, args))

\* the innermost open parenthesis or call
RECURSIVE OpenedBy(_, _)
OpenedBy(m, j) == IF j = 0 THEN "" ELSE IF Opened(m.ops[j]) THEN m.ops[j].o ELSE OpenedBy(m, j - 1)
\* what the next token does
CalcKind(q, K, m) ==
  IF m.i > Len(K) THEN (IF ~m.exp /\ OpenedBy(m, Len(m.ops)) = "" THEN "finish" ELSE "reject")
  ELSE LET t == K[m.i]
           open == OpenedBy(m, Len(m.ops))
       IN IF m.exp
          THEN (CASE t.k \in LitKinds(q) -> IF Convertible(q, t) THEN "literal" ELSE "reject"
                  [] t.k = IDENT /\ m.i < Len(K) /\ K[m.i + 1].k = OpenK -> "opencall"
                  [] t.k = IDENT /\ t.lit \in Symbols(q) -> "symbol"
                  [] t.k \in {PlusK, MinusK} -> "sign"
                  [] t.k = OpenK -> "open"
                  [] t.k = CloseK /\ TopOp(m).o = "call" /\ TopOp(m).n = 0 -> "closecall"
                  [] OTHER -> "reject")
          ELSE (CASE t.k \in DOMAIN BinaryOps(q) -> "operator"
                  [] t.k = CommaK /\ open = "call" -> "comma"
                  [] t.k = CloseK /\ open = "call" -> "closecall"
                  [] t.k = CloseK /\ open = "(" -> "close"
                  [] OTHER -> "reject")

\* an operand begins: the call it is an argument of counts it
Begins(m) ==
  LET e == TopOp(m) IN IF e.o = "call" THEN [m EXCEPT !.ops[Len(m.ops)].n = @ + 1] ELSE m
CalcDo(q, K, m, what) ==
  LET t == K[m.i]
      go == [m EXCEPT !.i = @ + 1]
  IN CASE what = "reject" -> Reject(m)
       [] what = "finish" -> [ReduceAbove(q, m, 0) EXCEPT !.st = "ok"]
       [] what = "literal" -> Push1(q, Begins(go), Instr("lit", t.lit, 0), LitValue(q, t))
       [] what = "symbol" -> Push1(q, Begins(go), Instr("sym", t.lit, 0), Unknown)
       [] what = "opencall" -> [Begins(go) EXCEPT !.i = m.i + 2, !.ops = Append(@, Entry("call", t.lit, 0))]
       [] what = "sign" -> [Begins(go) EXCEPT !.ops = Append(@, Entry(IF t.k = MinusK THEN "neg" ELSE "pos", "", 3))]
       [] what = "open" -> [Begins(go) EXCEPT !.ops = Append(@, Entry("(", "", 0))]
       [] what = "operator" -> (LET b == BinaryOps(q)[t.k]
                                    r == ReduceAbove(q, go, b.p)
                                IN [r EXCEPT !.exp = TRUE, !.ops = Append(@, Entry(b.s, "", b.p))])
       [] what = "comma" -> [ReduceAbove(q, go, 0) EXCEPT !.exp = TRUE]
       [] what = "close" -> GotOperand(q, PopOp(ReduceAbove(q, go, 0)))
       [] what = "closecall" -> EndCall(q, ReduceAbove(q, go, 0))
CalcStep(q, K, m) == CalcDo(q, K, m, CalcKind(q, K, m))

\* --- invariants ----------------------------------------------------------------------------
\* operands waiting: one for each open binary operator, the complete arguments of each open call, and the last one
RECURSIVE Waiting(_, _)
Waiting(m, j) ==
  IF j = 0 THEN (IF m.exp THEN 0 ELSE 1)
  ELSE LET e == m.ops[j] IN
       Waiting(m, j - 1) + (CASE e.o = "call" -> IF m.exp /\ j = Len(m.ops) THEN e.n ELSE e.n - 1
                              [] e.p \in {1, 2} -> 1
                              [] OTHER -> 0)
CalcOK(q, m) ==
  /\ m.st = "ok" => m.ops = <<>> /\ Len(m.vs) = 1
  /\ m.st = "run" => Len(m.vs) = Waiting(m, Len(m.ops))
  /\ \A j \in DOMAIN m.vs : Known(m.vs[j]) => m.vs[j].d > 0 /\ Gcd(Absolute(m.vs[j].n), m.vs[j].d) = 1
  \* priorities rise between two opening parentheses
  /\ \A j \in 1 .. Len(m.ops) - 1 : ~Opened(m.ops[j + 1]) /\ ~Opened(m.ops[j]) => m.ops[j].p < m.ops[j + 1].p \/ m.ops[j + 1].p = 3
=============================================================================
