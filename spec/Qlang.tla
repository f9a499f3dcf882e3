-------------------------------- MODULE Qlang --------------------------------
(* The script language. A program is a table of nodes (children before       *)
(* parents); a node has a kind k, c: children whose values it takes, from    *)
(* left to right, p: written parentheses, and fields of its kind. This       *)
(* module says how a program is written (Words, WellFormed: precedence and   *)
(* associativity) and what it does: a machine that evaluates one node after  *)
(* the other, with a stack of frames for what is to be done with the value.  *)
(*                                                                           *)
(* Values are records with a tag t; strings and names are sequences of       *)
(* bytes; a float is n / d with d a power of 2, or one that is no fraction:  *)
(* d = -1 negative zero, d = 0 infinity or no number. What an operation has  *)
(* is a value, Wrong (it raises an error) or Unclear (the specification      *)
(* leaves it open: growth of arrays, inexact floats, Go values it doesn't    *)
(* know; nothing is expected of such a run any more).                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Wrong == [t |-> "!"]
Unclear == [t |-> "?"]
VInt(i) == [t |-> "int", i |-> i]
VBool(b) == [t |-> "bool", b |-> b]
VStr(s) == [t |-> "str", s |-> s]
VByte(y) == [t |-> "byte", y |-> y]
VNil == [t |-> "nil"]
VUndef == [t |-> "undef"]
\* an error value; s: the text given to panic if it is m and digits, otherwise empty: other texts are left open
IsMsg(s) == Len(s) >= 2 /\ s[1] = 109 /\ \A j \in 2 .. Len(s) : s[j] \in 48 .. 57
VErr(s) == [t |-> "err", s |-> IF IsMsg(s) THEN s ELSE <<>>]
VFn(f) == [t |-> "fn", f |-> f]
VClass(c) == [t |-> "class", cl |-> c]
VObj(o) == [t |-> "obj", ob |-> o]
VBound(o, f) == [t |-> "bound", ob |-> o, f |-> f]
VGo(g) == [t |-> "go", g |-> g]
VUnset(e) == [t |-> "unset", e |-> e]
VType(k) == [t |-> "type", k |-> k]
VSlice(k, a, o, n) == [t |-> "slice", k |-> k, a |-> a, o |-> o, n |-> n]
VMap(k, e, id) == [t |-> "map", k |-> k, e |-> e, id |-> id]
\* --- numbers ----------------------------------------------------------------------------
Mag(x) == IF x < 0 THEN -x ELSE x
FMAX == 32768
DMAX == 1024
IMAX == 536870912
RECURSIVE MkFlt(_, _)
MkFlt(n, d) == IF n = 0 THEN [t |-> "float", n |-> 0, d |-> 1]
               ELSE IF d > 1 /\ n % 2 = 0 THEN MkFlt(n \div 2, d \div 2)
               ELSE IF Mag(n) > FMAX \/ d > DMAX THEN Unclear ELSE [t |-> "float", n |-> n, d |-> d]
MkInt(i) == VInt(i)
\* truncating division
TDiv(a, b) == LET q == Mag(a) \div Mag(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
IsNum(v) == v.t \in {"int", "float"}
FNum(v) == IF v.t = "int" THEN v.i ELSE v.n
FDen(v) == IF v.t = "int" THEN 1 ELSE IF v.d = -1 THEN 1 ELSE v.d
NegZero == [t |-> "float", n |-> 0, d |-> -1]
NaN == [t |-> "float", n |-> 0, d |-> 0]
Infinite(neg) == [t |-> "float", n |-> IF neg THEN -1 ELSE 1, d |-> 0]
IsNaN(v) == v = NaN
IsInf(v) == v.t = "float" /\ FDen(v) = 0 /\ v.n # 0
IsZero(v) == FNum(v) = 0 /\ ~IsNaN(v)
IsNeg(v) == FNum(v) < 0 \/ v = NegZero
Zero(neg) == IF neg THEN NegZero ELSE [t |-> "float", n |-> 0, d |-> 1]
FOK(v) == v.t = "float" \/ Mag(v.i) <= FMAX
RECURSIVE OddPart(_)
OddPart(x) == IF x % 2 = 0 THEN OddPart(x \div 2) ELSE x
FQuo(n1, d1, n2, d2) ==
  IF n2 = 0 THEN Unclear
  ELSE LET num == IF n2 < 0 THEN -(n1 * d2) ELSE n1 * d2
           o == OddPart(Mag(n2))
       IN IF num % o # 0 THEN Unclear ELSE MkFlt(num \div o, (Mag(n2) \div o) * d1)
IntOp(op, a, b) ==
  CASE op = "+" -> IF Mag(a) > IMAX \/ Mag(b) > IMAX THEN Unclear ELSE VInt(a + b)
    [] op = "-" -> IF Mag(a) > IMAX \/ Mag(b) > IMAX THEN Unclear ELSE VInt(a - b)
    [] op = "*" -> IF Mag(a) > FMAX \/ Mag(b) > FMAX THEN Unclear ELSE VInt(a * b)
    [] op = "/" -> IF b = 0 THEN Wrong ELSE VInt(TDiv(a, b))
    [] op = "%" -> IF b = 0 THEN Wrong ELSE VInt(a - b * TDiv(a, b))
FNeg(v) == IF v.t = "int" THEN MkFlt(-v.i, 1)
           ELSE IF IsNaN(v) THEN NaN ELSE IF IsInf(v) THEN Infinite(~IsNeg(v)) ELSE IF IsZero(v) THEN Zero(~IsNeg(v)) ELSE MkFlt(-v.n, v.d)
FltOp(op, a, b) ==
  IF op = "%" THEN Wrong
  ELSE IF ~FOK(a) \/ ~FOK(b) THEN Unclear
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE LET n1 == FNum(a)
           d1 == FDen(a)
           n2 == FNum(b)
           d2 == FDen(b)
           neg2 == IF op = "-" THEN ~IsNeg(b) ELSE IsNeg(b)        \* of what is added
           neg == IsNeg(a) # IsNeg(b)
       IN CASE op \in {"+", "-"} ->
               (IF IsInf(a) THEN (IF IsInf(b) /\ IsNeg(a) # neg2 THEN NaN ELSE a)
                ELSE IF IsInf(b) THEN Infinite(neg2)
                ELSE IF IsZero(a) /\ IsZero(b) THEN Zero(IsNeg(a) /\ (IF op = "-" THEN b # NegZero ELSE b = NegZero))
                ELSE IF op = "+" THEN MkFlt(n1 * d2 + n2 * d1, d1 * d2) ELSE MkFlt(n1 * d2 - n2 * d1, d1 * d2))
            [] op = "*" -> (IF IsInf(a) \/ IsInf(b) THEN (IF IsZero(a) \/ IsZero(b) THEN NaN ELSE Infinite(neg))
                            ELSE IF IsZero(a) \/ IsZero(b) THEN Zero(neg) ELSE MkFlt(n1 * n2, d1 * d2))
            [] op = "/" -> (IF IsInf(a) THEN (IF IsInf(b) THEN NaN ELSE Infinite(neg))
                            ELSE IF IsInf(b) THEN Zero(neg)
                            ELSE IF IsZero(b) THEN (IF IsZero(a) THEN NaN ELSE Infinite(neg))
                            ELSE IF IsZero(a) THEN Zero(neg) ELSE FQuo(n1, d1, n2, d2))
Arith(op, a, b) ==
  IF a.t = "int" /\ b.t = "int" THEN IntOp(op, a.i, b.i)
  ELSE IF IsNum(a) /\ IsNum(b) THEN FltOp(op, a, b)
  ELSE IF op = "+" /\ a.t = "str" /\ b.t = "str" THEN VStr(a.s \o b.s)
  ELSE Wrong
\* --- comparisons ------------------------------------------------------------------------
Low(a, b) == IF a < b THEN a ELSE b
\* bytewise, from position j on
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, j) == IF j > Len(b) THEN FALSE ELSE IF j > Len(a) THEN TRUE
                     ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE LessFrom(a, b, j + 1)
Wide(v) == IF v.t = "byte" THEN VInt(v.y) ELSE v
FLess(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN FALSE
               ELSE IF IsInf(a) THEN IsNeg(a) /\ a # b ELSE IF IsInf(b) THEN ~IsNeg(b)
               ELSE FNum(a) * FDen(b) < FNum(b) * FDen(a)
Less(a, b) == IF a.t = "int" /\ b.t = "int" THEN VBool(a.i < b.i)
              ELSE IF IsNum(a) /\ IsNum(b) THEN (IF FOK(a) /\ FOK(b) THEN VBool(FLess(a, b)) ELSE Unclear)
              ELSE IF a.t = "str" /\ b.t = "str" THEN VBool(LessFrom(a.s, b.s, 1))
              ELSE Wrong
Negated(v) == IF v.t = "bool" THEN VBool(~v.b) ELSE v
AtMost(a, b) == IF NaN \in {a, b} THEN (IF IsNum(a) /\ IsNum(b) THEN VBool(FALSE) ELSE Wrong) ELSE Negated(Less(b, a))
\* the identity of errors, bound methods and Go functions is left open
Same(a, b) ==
  IF a.t # b.t THEN (IF {a.t, b.t} \subseteq {"go", "unset"} \/ {a.t, b.t} \subseteq {"err", "undef"} THEN Unclear ELSE VBool(FALSE))
  ELSE CASE a.t = "slice" -> IF a.k = b.k THEN Wrong ELSE VBool(FALSE)
         [] a.t = "map" -> IF a.k = b.k /\ a.e = b.e THEN Wrong ELSE VBool(FALSE)
         [] a.t \in {"go", "unset", "err", "bound"} -> Unclear
         [] a.t = "float" -> VBool(~IsNaN(a) /\ (a = b \/ (IsZero(a) /\ IsZero(b))))
         [] OTHER -> VBool(a = b)
Compare(op, a, b) ==
  CASE op = "<" -> Less(Wide(a), Wide(b))
    [] op = ">" -> Less(Wide(b), Wide(a))
    [] op = "<=" -> AtMost(Wide(a), Wide(b))
    [] op = ">=" -> AtMost(Wide(b), Wide(a))
    [] op = "==" -> Same(a, b)
    [] op = "!=" -> Negated(Same(a, b))
Binary(op, a, b) == IF op \in {"+", "-", "*", "/", "%"} THEN Arith(op, a, b) ELSE Compare(op, a, b)
Unary(op, a) ==
  CASE op = "-" -> (IF a.t = "int" THEN VInt(-a.i) ELSE IF a.t = "float" THEN FNeg(a) ELSE Wrong)
    [] op = "!" -> (IF a.t = "bool" THEN VBool(~a.b) ELSE Wrong)
    [] op = "+" -> a
\* --- how programs are written -----------------------------------------------------------
\* binding strength: 0 statement, 1 ||, 2 &&, 3 comparison, 4 + -, 5 * / %, 6 operand, 7 operand that takes atoms
Strength(nd) ==
  IF nd.p > 0 THEN 7
  ELSE CASE nd.k = "or" -> 1
         [] nd.k = "and" -> 2
         [] nd.k = "bin" -> (IF nd.o \in {"+", "-"} THEN 4 ELSE IF nd.o \in {"*", "/", "%"} THEN 5 ELSE 3)
         [] nd.k \in {"var", "fn", "slice", "call", "mref", "idx", "sub"} -> 7
         [] nd.k \in {"assign", "massign", "inc", "dec", "opas", "return", "defer", "bad"} -> 0
         [] OTHER -> 6
Sub2(N, nd, a, b) == Strength(N[nd.c[1]]) >= a /\ Strength(N[nd.c[2]]) >= b
AllExpr(N, s) == \A j \in DOMAIN s : Strength(N[s[j]]) >= 1
WellFormedNode(N, nd) ==
  CASE nd.k = "bin" -> LET s == Strength([nd EXCEPT !.p = 0]) IN Sub2(N, nd, s, s + 1)
    [] nd.k = "and" -> Strength(N[nd.c[1]]) >= 2 /\ Strength(N[nd.r]) >= 3
    [] nd.k = "or" -> Strength(N[nd.c[1]]) >= 1 /\ Strength(N[nd.r]) >= 2
    [] nd.k = "un" -> Strength(N[nd.c[1]]) >= 6
    [] nd.k \in {"call", "mref", "idx", "sub"} -> Strength(N[nd.c[1]]) = 7 /\ AllExpr(N, nd.c)
    [] nd.k = "if" -> AllExpr(N, nd.cond)
    [] nd.k = "switch" -> AllExpr(N, nd.cond) /\ (nd.subj # 0 => Strength(N[nd.subj]) >= 1)
    [] nd.k = "defer" -> Strength(N[nd.r]) >= 1
    [] nd.k \in {"lit", "var", "for", "fn", "class", "recover", "main", "doc", "inc", "dec", "bad"} -> TRUE
    [] OTHER -> AllExpr(N, nd.c)
WellFormed(N) == \A j \in DOMAIN N : WellFormedNode(N, N[j])

RECURSIVE Joined(_, _)
\* sequences of words with a separator
Joined(ws, sep) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<sep>> \o Joined(Tail(ws), sep)
RECURSIVE Parens(_, _)
Parens(w, p) == IF p = 0 THEN w ELSE Parens(<<"(">> \o w \o <<")">>, p - 1)
Flat(ws) == FoldLeft(LAMBDA a, w : a \o w, <<>>, ws)
Names(ps) == Joined([j \in DOMAIN ps |-> <<ps[j]>>], ",")
Params(ps, va) == <<"(">> \o Names(ps) \o (IF va THEN <<"...">> ELSE <<>>) \o <<")">>
\* the words of a node, given those of the nodes before it
WordsOf(W, nd) ==
  LET C == [j \in DOMAIN nd.c |-> W[nd.c[j]]]
      body(b) == <<"{">> \o (IF b = 0 THEN <<>> ELSE W[b]) \o <<"}">>
      trail == IF nd.tc THEN <<",">> ELSE <<>>            \* a comma after the last element
      w == CASE nd.k = "lit" -> <<nd.x>>
             [] nd.k = "var" -> <<nd.s>>
             [] nd.k = "un" -> <<nd.o>> \o C[1]
             [] nd.k = "bin" -> C[1] \o <<nd.o>> \o C[2]
             [] nd.k = "and" -> C[1] \o <<"&&">> \o W[nd.r]
             [] nd.k = "or" -> C[1] \o <<"||">> \o W[nd.r]
             [] nd.k = "call" -> C[1] \o <<"(">> \o Joined(Tail(C), ",") \o (IF nd.va THEN <<"...">> ELSE <<>>) \o trail \o <<")">>
             [] nd.k = "mref" -> C[1] \o <<".", nd.s>>
             [] nd.k = "idx" -> C[1] \o <<"[">> \o C[2] \o <<"]">>
             [] nd.k = "sub" -> C[1] \o <<"[">> \o (IF nd.lo THEN C[2] ELSE <<>>) \o <<":">> \o (IF nd.hi THEN C[Len(C)] ELSE <<>>) \o <<"]">>
             [] nd.k = "slice" -> <<"[">> \o Joined(C, ",") \o trail \o <<"]">>
             [] nd.k = "map" -> <<"{">> \o Joined([j \in 1 .. Len(C) \div 2 |-> C[2 * j - 1] \o <<":">> \o C[2 * j]], ",") \o trail \o <<"}">>
             [] nd.k = "fn" -> <<"fn">> \o Params(nd.ps, nd.va) \o body(nd.b)
             [] nd.k = "if" -> Flat([j \in DOMAIN nd.cond |-> <<IF j = 1 THEN "if" ELSE "elif">> \o W[nd.cond[j]] \o body(nd.body[j])])
                               \o (IF nd.els < 0 THEN <<>> ELSE <<"else">> \o body(nd.els))
             [] nd.k = "switch" -> <<"switch">> \o (IF nd.subj = 0 THEN <<>> ELSE W[nd.subj]) \o <<"{">>
                               \o Flat([j \in DOMAIN nd.cond |-> <<"case">> \o W[nd.cond[j]] \o <<":">> \o (IF nd.body[j] = 0 THEN <<>> ELSE W[nd.body[j]])])
                               \o (IF nd.els < 0 THEN <<>> ELSE <<"default", ":">> \o (IF nd.els = 0 THEN <<>> ELSE W[nd.els])) \o <<"}">>
             [] nd.k = "for" -> <<"for">> \o Joined([j \in DOMAIN nd.parts |-> W[nd.parts[j]]], ";") \o body(nd.b)
             [] nd.k = "new" -> <<"new">> \o C[1] \o (IF nd.va THEN <<"(">> \o Joined(Tail(C), ",") \o <<")">> ELSE <<>>)
             [] nd.k = "class" -> <<"class", "{">> \o Flat([j \in DOMAIN nd.ms |->
                                     <<"fn", nd.ms[j].s>> \o Params(nd.ms[j].ps, nd.ms[j].va) \o body(nd.ms[j].b) \o (IF nd.ms[j].semi THEN <<";">> ELSE <<>>)]) \o <<"}">>
             [] nd.k = "recover" -> <<"recover", "(", ")">>
             [] nd.k = "main" -> <<"main">> \o body(nd.b)
             [] nd.k = "assign" -> <<nd.s, "=">> \o C[1]
             [] nd.k = "massign" -> Names(nd.ps) \o <<"=">> \o C[1]
             [] nd.k = "inc" -> <<nd.s, "++">>
             [] nd.k = "dec" -> <<nd.s, "--">>
             [] nd.k = "opas" -> <<nd.s, nd.o \o "=">> \o C[1]
             [] nd.k = "return" -> <<"return">> \o Flat(C)
             [] nd.k = "defer" -> <<"defer">> \o W[nd.r]
             [] nd.k = "doc" -> Joined([j \in DOMAIN nd.items |-> IF nd.items[j] = 0 THEN <<>> ELSE W[nd.items[j]]], ";")
             [] nd.k = "bad" -> <<nd.x>>
  IN Parens(w, nd.p)
Words(N) == FoldLeft(LAMBDA W, nd : Append(W, WordsOf(W, nd)), <<>>, N)
\* --- the machine ------------------------------------------------------------------------
\* k: frames [f: what waits, n: node (or scope, object), e: scope, i: progress, vs: values so far]
\* c: "ev" (evaluate node n in scope e), "val" (v is the value), "thr" (v is thrown: [x |-> "ret"], [x |-> "pan", v |-> value] or
\*    [x |-> "syn"], where the text is not one of the language: the rest isn't run, but what was put off is)
\* envs: scopes [vars: name -> value or [t |-> "ext", e |-> scope], par, ret, rec, defs]
\* fns, cls, objs, arrs, maps: what values refer to; log: what the host has seen; tot: how often the host was called
LOGMAX == 40
Scope(par, vars) == [vars |-> vars, par |-> par, ret |-> VNil, rec |-> <<>>, defs |-> <<>>]
NoVars == <<>>
Machine == [k |-> <<>>, c |-> "idle", n |-> 0, e |-> 1, v |-> VNil, envs |-> <<Scope(0, NoVars)>>, fns |-> <<>>, cls |-> <<>>,
            objs |-> <<>>, arrs |-> <<>>, maps |-> <<>>, log |-> <<>>, tot |-> 0, st |-> "idle"]
FrameOf(f, n, e, i, vs) == [f |-> f, n |-> n, e |-> e, i |-> i, vs |-> vs]
Under(m, fr) == [m EXCEPT !.k = Append(@, fr)]
TopF(m) == m.k[Len(m.k)]
Drop1(m) == [m EXCEPT !.k = SubSeq(@, 1, Len(@) - 1)]
Go(m, n, e) == [m EXCEPT !.c = "ev", !.n = n, !.e = e]
Panics(m, v) == [m EXCEPT !.c = "thr", !.v = [x |-> "pan", v |-> v]]
Fails(m) == Panics(m, VErr(<<>>))
Give(m, r) == IF r.t = "!" THEN Fails(m) ELSE IF r.t = "?" THEN [m EXCEPT !.st = "unclear"] ELSE [m EXCEPT !.c = "val", !.v = r]
Lost1(m) == [m EXCEPT !.st = "unclear"]
\* --- scopes -----------------------------------------------------------------------------
Knows(m, e, s) == s \in DOMAIN m.envs[e].vars
Without(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]
With(f, s, v) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN v ELSE f[x]]
\* a reference to an outer variable ends when that variable does
Forget(m, e, s) == IF Knows(m, e, s) /\ m.envs[e].vars[s].t = "ext" /\ ~Knows(m, m.envs[e].vars[s].e, s)
                   THEN [m EXCEPT !.envs[e].vars = Without(@, s)] ELSE m
Holder(m, e, s) == IF m.envs[e].vars[s].t = "ext" THEN m.envs[e].vars[s].e ELSE e
\* the nearest scope from e outwards that knows s: <<machine, scope or 0>>
RECURSIVE Nearest(_, _, _)
Nearest(m, e, s) == IF e = 0 THEN <<m, 0>>
                    ELSE LET m1 == Forget(m, e, s) IN IF Knows(m1, e, s) THEN <<m1, e>> ELSE Nearest(m1, m1.envs[e].par, s)
Private(s) == s[1] = 95
Write(m, h, s, v) == [m EXCEPT !.envs[h].vars = With(@, s, v)]
BuiltinNames == {"append", "delete", "get", "len", "cap", "mkmap", "mapFrom", "mapOf", "panic", "panicf", "set", "slice", "sliceFrom",
                 "sliceOf", "string", "sub", "type", "float", "int", "byte", "max", "min", "h", "hi", "hf", "hs", "h2"}
Refer(m, e, nd) ==
  IF nd.s = "unset" THEN Give(m, VUnset(e))
  ELSE LET m0 == Forget(m, e, nd.b) IN
       IF Knows(m0, e, nd.b) THEN Give(m0, m0.envs[Holder(m0, e, nd.b)].vars[nd.b])
       ELSE LET q == IF Private(nd.b) THEN <<m0, 0>> ELSE Nearest(m0, m0.envs[e].par, nd.b) IN
            IF q[2] # 0 THEN LET h == Holder(q[1], q[2], nd.b) IN Give(Write(q[1], e, nd.b, [t |-> "ext", e |-> h]), q[1].envs[h].vars[nd.b])
            ELSE Give(q[1], CASE nd.s = "true" -> VBool(TRUE) [] nd.s = "false" -> VBool(FALSE) [] nd.s = "nil" -> VNil [] nd.s = "undefined" -> VUndef
                              [] nd.s \in BuiltinNames -> VGo(nd.s) [] OTHER -> Wrong)
\* where an assignment goes: <<machine, scope or 0>>
Target(m, e, s) ==
  LET m0 == Forget(m, e, s) IN
  IF Knows(m0, e, s) THEN <<m0, Holder(m0, e, s)>>
  ELSE IF Private(s) THEN <<m0, e>>
  ELSE LET q == Nearest(m0, m0.envs[e].par, s) IN IF q[2] # 0 THEN <<q[1], 0>> ELSE <<q[1], e>>
Assigned(m, e, s, v) == LET q == Target(m, e, s) IN IF q[2] = 0 THEN Fails(q[1]) ELSE Give(Write(q[1], q[2], s, v), v)
\* x += v, x++: only variables of the scope, own or used before
Modified(m, e, s, f(_)) ==
  LET m0 == Forget(m, e, s) IN
  IF ~Knows(m0, e, s) THEN Fails(m0)
  ELSE LET h == Holder(m0, e, s)
           r == f(m0.envs[h].vars[s])
       IN IF r.t \in {"!", "?"} THEN Give(m0, r) ELSE Give(Write(m0, h, s, r), r)
Bumped(v, by) == IF v.t = "int" THEN VInt(v.i + by) ELSE IF v.t = "byte" THEN VByte((v.y + by) % 256) ELSE Wrong
\* --- arrays and slices ------------------------------------------------------------------
\* an array [e: elements up to its capacity, g: it has grown (more capacity than known), s: it may share memory with another,
\* u: what follows its elements may be used by another]
NewArr(m, e, g) == [m EXCEPT !.arrs = Append(@, [e |-> e, g |-> g, s |-> FALSE, u |-> FALSE])]
Slice0(m, k, e) == <<NewArr(m, e, FALSE), VSlice(k, Len(m.arrs) + 1, 0, Len(e))>>
Elem(m, v, j) == m.arrs[v.a].e[v.o + j]
Elems(m, v) == SubSeq(m.arrs[v.a].e, v.o + 1, v.o + v.n)
Room(m, v) == Len(m.arrs[v.a].e) - v.o          \* known capacity
Basic == {"int", "float", "string", "byte", "bool", "var"}
ZeroOf(k) == CASE k = "int" -> VInt(0) [] k = "float" -> MkFlt(0, 1) [] k = "string" -> VStr(<<>>) [] k = "byte" -> VByte(0) [] k = "bool" -> VBool(FALSE)
               [] k = "var" -> VNil [] OTHER -> Unclear
TypeName(v) == CASE v.t = "str" -> "string" [] v.t = "slice" -> "[]" \o v.k [] v.t = "map" -> v.k \o ":" \o v.e
                 [] v.t \in {"fn", "class", "obj", "bound", "int", "float", "byte", "bool"} -> v.t [] OTHER -> "?"
\* a value stored as an element of kind k
Stored(k, v) == IF v.t = "nil" THEN ZeroOf(k) ELSE IF k = "var" THEN v ELSE IF k \notin Basic THEN Unclear ELSE IF TypeName(v) = k THEN v ELSE Wrong
KindOf(v) == CASE v.t \in {"int", "float"} -> v.t [] v.t = "str" -> "string" [] v.t = "nil" -> "nil" [] OTHER -> "other"
\* the common kind of values: int, float, string or mixed (var)
Common(vs) == LET ks == {KindOf(vs[j]) : j \in DOMAIN vs} IN
  IF ks = {"int"} THEN "int" ELSE IF ks = {"float"} \/ ks = {"int", "float"} THEN "float" ELSE IF ks = {"string"} THEN "string" ELSE "var"
AsFloat(v) == IF v.t = "int" THEN (IF Mag(v.i) > FMAX THEN Unclear ELSE MkFlt(v.i, 1)) ELSE v
Lifted(k, v) == IF k = "float" THEN AsFloat(v) ELSE v
SliceLit(m, vs) ==
  IF vs = <<>> THEN Slice0(m, "var", <<>>)
  ELSE LET k == Common(vs)
           es == [j \in DOMAIN vs |-> Lifted(k, vs[j])]
       IN IF \E j \in DOMAIN es : es[j].t = "?" THEN <<m, Unclear>> ELSE Slice0(m, k, es)
\* writing elements one by one, up to the first that cannot be stored: <<machine, it went well: value t>>
Put(m, a, at, v) == IF m.arrs[a].s THEN <<m, Unclear>> ELSE <<[m EXCEPT !.arrs[a].e[at] = v], VNil>>
AppendKind(k, v) == IF k = "float" THEN (IF v.t \in {"int", "float"} THEN AsFloat(v) ELSE Wrong) ELSE Stored(k, v)
Appended(m, v, vs) ==
  IF v.t # "slice" THEN <<m, Wrong>>
  ELSE IF vs = <<>> THEN <<m, v>>
  ELSE LET es == [j \in DOMAIN vs |-> AppendKind(v.k, vs[j])]
           bads == {j \in DOMAIN es : es[j].t \in {"!", "?"}}
           n == Len(vs)
           arr == m.arrs[v.a]
           fits == v.o + v.n + n <= Len(arr.e)
           first == CHOOSE j \in bads : \A h \in bads : j <= h
           in == [m EXCEPT !.arrs[v.a].e = [j \in DOMAIN @ |-> IF j > v.o + v.n /\ j <= v.o + v.n + n /\ (bads = {} \/ j < v.o + v.n + first) THEN es[j - v.o - v.n] ELSE @[j]]]
           grown == NewArr(m, Elems(m, v) \o es, TRUE)
           id == Len(m.arrs) + 1
       IN IF \E j \in bads : es[j].t = "?" THEN <<m, Unclear>>
          ELSE IF fits THEN (IF arr.s THEN <<m, Unclear>> ELSE <<in, IF bads = {} THEN VSlice(v.k, v.a, v.o, v.n + n) ELSE Wrong>>)
          ELSE IF v.k = "float" /\ v.o + v.n < Len(arr.e) THEN <<m, Unclear>>         \* fills up the old array first, or not
          ELSE IF bads # {} THEN (IF arr.g THEN <<m, Unclear>> ELSE <<m, Wrong>>)
          ELSE IF arr.g /\ (arr.u \/ v.o + v.n < Len(arr.e)) THEN <<m, Unclear>>
          ELSE IF arr.g THEN <<[grown EXCEPT !.arrs[v.a].s = TRUE, !.arrs[v.a].u = TRUE, !.arrs[id].s = TRUE], VSlice(v.k, id, 0, v.n + n)>>
          ELSE <<grown, VSlice(v.k, id, 0, v.n + n)>>
SubSliceOf(m, v, lo, hi) ==          \* lo, hi: values; nil: not given
  LET bad(x) == x.t \notin {"int", "nil"} IN
  IF v.t \notin {"slice", "str"} \/ bad(lo) \/ bad(hi) THEN Wrong
  ELSE LET n == IF v.t = "str" THEN Len(v.s) ELSE v.n
           cp == IF v.t = "str" THEN n ELSE Room(m, v)
           i == IF lo.t = "nil" THEN 0 ELSE lo.i
           j == IF hi.t = "nil" THEN n ELSE hi.i
       IN IF i < 0 \/ i > j THEN Wrong
          ELSE IF j > cp THEN (IF v.t = "slice" /\ m.arrs[v.a].g THEN Unclear ELSE Wrong)
          ELSE IF v.t = "str" THEN VStr(SubSeq(v.s, i + 1, j)) ELSE VSlice(v.k, v.a, v.o + i, j - i)
\* --- maps -------------------------------------------------------------------------------
NewMap(m, k, e, f) == <<[m EXCEPT !.maps = Append(@, f)], VMap(k, e, Len(m.maps) + 1)>>
KeyIn(k, v) == (k = "string" /\ v.t = "str") \/ (k = "int" /\ v.t = "int")
KeyOf(v) == IF v.t = "str" THEN v.s ELSE v.i
MapLit(m, vs) ==
  IF Len(vs) % 2 = 1 THEN <<m, Wrong>>
  ELSE IF vs = <<>> THEN NewMap(m, "string", "var", <<>>)
  ELSE LET n == Len(vs) \div 2
           kk == Common([j \in 1 .. n |-> vs[2 * j - 1]])
           ek == Common([j \in 1 .. n |-> vs[2 * j]])
           e(j) == Lifted(ek, vs[2 * j])
           add(f, j) == IF e(j).t = "undef" THEN f ELSE With(f, KeyOf(vs[2 * j - 1]), e(j))
       IN IF kk \notin {"string", "int"} THEN <<m, Wrong>>
          ELSE IF \E j \in 1 .. n : e(j).t = "?" THEN <<m, Unclear>>
          ELSE NewMap(m, kk, ek, FoldLeft(add, <<>>, [j \in 1 .. n |-> j]))
Fetch(m, v, key) ==
  CASE v.t = "map" -> (IF ~KeyIn(v.k, key) THEN Wrong ELSE IF KeyOf(key) \in DOMAIN m.maps[v.id] THEN m.maps[v.id][KeyOf(key)] ELSE VUndef)
    [] v.t = "slice" -> (IF key.t # "int" THEN Wrong ELSE IF key.i < 0 \/ key.i >= v.n THEN Wrong ELSE Elem(m, v, key.i + 1))
    [] v.t = "str" -> (IF key.t # "int" THEN Wrong ELSE IF key.i < 0 \/ key.i >= Len(v.s) THEN Wrong ELSE VByte(v.s[key.i + 1]))
    [] OTHER -> Wrong
\* one element: <<machine, result>>
Store1(m, v, key, x) ==
  CASE v.t = "map" ->
         (IF ~KeyIn(v.k, key) THEN <<m, Wrong>>
          ELSE IF x.t = "undef" THEN <<[m EXCEPT !.maps[v.id] = Without(@, KeyOf(key))], VNil>>
          ELSE LET s == Stored(v.e, x) IN IF s.t \in {"!", "?"} THEN <<m, s>> ELSE <<[m EXCEPT !.maps[v.id] = With(@, KeyOf(key), s)], VNil>>)
    [] v.t = "slice" ->
         (IF key.t # "int" THEN <<m, Wrong>>
          ELSE IF key.i < 0 \/ key.i >= v.n THEN <<m, Wrong>>
          ELSE LET s == Stored(v.k, x) IN IF s.t \in {"!", "?"} THEN <<m, s>> ELSE Put(m, v.a, v.o + key.i + 1, s))
    [] v.t = "obj" ->
         (IF key.t # "str" THEN <<m, Wrong>>
          ELSE IF key.s \in DOMAIN m.cls[m.objs[v.ob].cl] THEN <<m, Wrong>>
          ELSE <<[m EXCEPT !.objs[v.ob].vars = With(@, key.s, x)], VNil>>)
    [] OTHER -> <<m, Wrong>>
\* set(v, k1, x1, k2, x2, ...): one after the other, up to the first failure
SetAll(m, v, ps) ==
  IF Len(ps) % 2 = 1 THEN <<m, Wrong>>
  ELSE IF v.t \notin {"map", "slice", "obj"} THEN <<m, Wrong>>
  ELSE FoldLeft(LAMBDA a, j : IF a[2].t \in {"!", "?"} THEN a ELSE Store1(a[1], v, ps[2 * j - 1], ps[2 * j]), <<m, VNil>>, [j \in 1 .. Len(ps) \div 2 |-> j])
\* types by name
TypeOfName(v) == IF v.t = "type" THEN v.k
  ELSE IF v.t # "str" THEN "!"
  ELSE CASE v.s = <<105, 110, 116>> -> "int" [] v.s = <<98, 111, 111, 108>> -> "bool" [] v.s = <<102, 108, 111, 97, 116>> -> "float"
         [] v.s = <<115, 116, 114, 105, 110, 103>> -> "string" [] v.s = <<98, 121, 116, 101>> -> "byte" [] v.s = <<118, 97, 114>> -> "var"
         [] v.s = <<115, 116, 114, 105, 110, 103, 58, 105, 110, 116>> -> "string:int"
         [] v.s = <<115, 116, 114, 105, 110, 103, 58, 102, 108, 111, 97, 116>> -> "string:float"
         [] v.s = <<115, 116, 114, 105, 110, 103, 58, 115, 116, 114, 105, 110, 103>> -> "string:string"
         [] v.s = <<115, 116, 114, 105, 110, 103, 58, 118, 97, 114>> -> "string:var"
         [] OTHER -> "!"
MapTypes == [string |-> [int |-> "string:int", float |-> "string:float", string |-> "string:string", var |-> "string:var", bool |-> "string:bool", byte |-> "string:byte"],
             int |-> [int |-> "int:int", float |-> "int:float", string |-> "int:string", var |-> "int:var", bool |-> "int:bool", byte |-> "int:byte"]]
MapKinds == {<<k, e>> : k \in {"string", "int"}, e \in Basic}
Made(m, ty) ==      \* mkmap
  LET ks == {p \in MapKinds : MapTypes[p[1]][p[2]] = ty} IN
  IF ks # {} THEN LET p == CHOOSE q \in ks : TRUE IN NewMap(m, p[1], p[2], <<>>)
  ELSE IF ty \in Basic \cup {"!"} \/ SubSeq(ty, 1, 2) = "[]" THEN <<m, Wrong>> ELSE <<m, Unclear>>
MadeSlice(m, ty, args) ==
  IF ty = "!" THEN <<m, Wrong>>
  ELSE IF Len(args) >= 1 /\ args[1].t # "int" THEN <<m, Wrong>>
  ELSE IF Len(args) >= 2 /\ args[2].t # "int" THEN <<m, Wrong>>
  ELSE LET n == IF args = <<>> THEN 0 ELSE args[1].i
           cp == IF args = <<>> THEN 0 ELSE IF Len(args) = 1 THEN n ELSE args[2].i
       IN IF n < 0 \/ cp < n THEN <<m, Wrong>>
          ELSE IF cp > 100 \/ ty \notin Basic THEN <<m, Unclear>>
          ELSE LET q == Slice0(m, ty, [j \in 1 .. cp |-> ZeroOf(ty)]) IN <<q[1], [q[2] EXCEPT !.n = n]>>
\* --- built-ins --------------------------------------------------------------------------
RECURSIVE Extreme(_, _, _)
Extreme(vs, best, mx) == IF vs = <<>> THEN best
  ELSE LET l == IF mx THEN Less(best, Head(vs)) ELSE Less(Head(vs), best) IN
       IF l.t = "?" THEN l ELSE Extreme(Tail(vs), IF l.b THEN Head(vs) ELSE best, mx)
Best(vs, mx) == IF vs = <<>> THEN VInt(0)
  ELSE IF Common(vs) \notin {"int", "float"} THEN Wrong
  ELSE LET es == [j \in DOMAIN vs |-> Lifted(Common(vs), vs[j])] IN
       IF \E j \in DOMAIN es : es[j].t = "?" THEN Unclear ELSE Extreme(Tail(es), es[1], mx)
\* the bytes of a character
Utf(c) == IF c < 0 \/ (c >= 55296 /\ c <= 57343) \/ c > 1114111 THEN <<239, 191, 189>>
  ELSE IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Truncated(v) == IF v.n >= 0 THEN v.n \div FDen(v) ELSE -((-v.n) \div v.d)
Convert(g, v) ==
  CASE g = "int" -> (CASE v.t = "int" -> v [] v.t = "float" -> (IF FDen(v) = 0 THEN Unclear ELSE VInt(Truncated(v))) [] v.t = "byte" -> VInt(v.y) [] OTHER -> Wrong)
    [] g = "float" -> (CASE v.t = "float" -> v [] v.t = "int" -> AsFloat(v) [] v.t = "byte" -> MkFlt(v.y, 1) [] OTHER -> Wrong)
    [] g = "byte" -> (CASE v.t = "byte" -> v [] v.t = "int" -> VByte(v.i % 256)
                        [] v.t = "float" -> (IF FDen(v) = 0 THEN Unclear ELSE IF Truncated(v) < 0 \/ Truncated(v) > 255 THEN Unclear ELSE VByte(Truncated(v))) [] OTHER -> Wrong)
    [] g = "string" -> (CASE v.t = "int" -> VStr(Utf(v.i)) [] v.t = "byte" -> VStr(Utf(v.y)) [] OTHER -> Wrong)
Arity1 == {"len", "cap", "int", "float", "byte", "string", "panic", "type", "sliceOf", "hi", "hf", "hs"}
CountOK(g, n) == CASE g \in Arity1 -> n = 1 [] g \in {"get", "delete", "mapOf"} -> n = 2 [] g = "sub" -> n = 3 [] g = "h2" -> n = 0
                   [] g \in {"append", "set", "mkmap", "slice", "panicf"} -> n >= 1 [] OTHER -> TRUE
Pure(m, r) == <<m, r>>
\* the host's functions: h sees its arguments and gives the last one back; hi(int), hf(float), hs(string) convert theirs, h2() has two results
Built(m, g, vs) ==
  CASE g = "string" /\ vs[1].t = "slice" -> Pure(m, IF vs[1].k = "byte" THEN LET es == Elems(m, vs[1]) IN VStr([j \in DOMAIN es |-> es[j].y]) ELSE Wrong)
    [] g \in {"int", "float", "byte"} \/ (g = "string" /\ vs[1].t # "slice") -> Pure(m, Convert(g, vs[1]))
    [] g = "len" -> Pure(m, CASE vs[1].t = "nil" -> VInt(0) [] vs[1].t = "str" -> VInt(Len(vs[1].s)) [] vs[1].t = "slice" -> VInt(vs[1].n)
                              [] vs[1].t = "map" -> VInt(Cardinality(DOMAIN m.maps[vs[1].id])) [] OTHER -> Wrong)
    [] g = "cap" -> Pure(m, CASE vs[1].t = "nil" -> VInt(0) [] vs[1].t = "slice" -> (IF m.arrs[vs[1].a].g THEN Unclear ELSE VInt(Room(m, vs[1]))) [] OTHER -> Wrong)
    [] g = "append" -> Appended(m, vs[1], Tail(vs))
    [] g = "get" -> Pure(m, Fetch(m, vs[1], vs[2]))
    [] g = "set" -> SetAll(m, vs[1], Tail(vs))
    [] g = "delete" -> (IF vs[1].t # "map" THEN <<m, Wrong>> ELSE Store1(m, vs[1], vs[2], VUndef))
    [] g = "mkmap" -> (IF \E j \in 2 .. Len(vs) : vs[j].t # "int" THEN <<m, Wrong>> ELSE Made(m, TypeOfName(vs[1])))
    [] g = "slice" -> MadeSlice(m, TypeOfName(vs[1]), Tail(vs))
    [] g = "sliceFrom" -> SliceLit(m, vs)
    [] g = "mapFrom" -> MapLit(m, vs)
    [] g = "sliceOf" -> Pure(m, IF TypeOfName(vs[1]) = "!" THEN Wrong ELSE VType("[]" \o TypeOfName(vs[1])))
    [] g = "mapOf" -> LET k == TypeOfName(vs[1])
                          e == TypeOfName(vs[2])
                      IN Pure(m, IF k = "!" \/ e = "!" THEN Wrong ELSE IF k \in {"string", "int"} /\ e \in Basic THEN VType(MapTypes[k][e]) ELSE Unclear)
    [] g = "type" -> Pure(m, IF vs[1].t = "nil" THEN VNil ELSE IF TypeName(vs[1]) = "?" THEN Unclear ELSE VType(TypeName(vs[1])))
    [] g = "sub" -> Pure(m, SubSliceOf(m, vs[1], vs[2], vs[3]))
    [] g = "max" -> Pure(m, Best(vs, TRUE))
    [] g = "min" -> Pure(m, Best(vs, FALSE))
    [] g = "hi" -> Pure(m, IF vs[1].t = "int" THEN VInt(vs[1].i + 1) ELSE Wrong)
    [] g = "hf" -> Pure(m, CASE vs[1].t \in {"int", "float"} -> FltOp("/", AsFloat(vs[1]), VInt(2)) [] vs[1].t = "byte" -> MkFlt(vs[1].y, 2) [] OTHER -> Wrong)
    [] g = "hs" -> Pure(m, IF vs[1].t = "str" THEN VStr(<<60>> \o vs[1].s \o <<62>>) ELSE Wrong)
    [] g = "h2" -> Slice0(m, "var", <<VInt(1), VStr(<<98>>)>>)
    [] OTHER -> Pure(m, Unclear)
\* --- what the host sees of a value ------------------------------------------------------
KeyLess(a, b) == LessFrom(a, b, 1)
SortedKeys(k, f) == IF k = "string" THEN SetToSortSeq(DOMAIN f, KeyLess) ELSE SetToSortSeq(DOMAIN f, LAMBDA a, b : a < b)
RECURSIVE Shown(_, _, _)
Shown(m, v, deep) ==
  CASE v.t \in {"int", "float", "str", "byte", "bool", "nil", "undef", "err", "type"} -> v
    [] v.t \in {"fn", "class", "obj", "bound"} -> [t |-> v.t]
    [] v.t \in {"go", "unset"} -> [t |-> "go"]
    [] v.t = "slice" -> (IF deep = 0 THEN [t |-> "deep"] ELSE [t |-> "slice", k |-> v.k, e |-> LET es == Elems(m, v) IN [j \in DOMAIN es |-> Shown(m, es[j], deep - 1)]])
    [] v.t = "map" -> (IF deep = 0 THEN [t |-> "deep"]
                       ELSE LET f == m.maps[v.id]
                                ks == SortedKeys(v.k, f)
                            IN [t |-> "map", k |-> v.k \o ":" \o v.e, e |-> [j \in DOMAIN ks |-> [key |-> ks[j], val |-> Shown(m, f[ks[j]], deep - 1)]]])
DEEP == 4
ShownVars(m) == LET f == m.envs[1].vars
                    ks == SetToSortSeq(DOMAIN f, KeyLess)
                IN [j \in DOMAIN ks |-> [name |-> ks[j], val |-> Shown(m, f[ks[j]], DEEP)]]
\* --- calls ------------------------------------------------------------------------------
NewEnv(m, par, vars) == [m EXCEPT !.envs = Append(@, Scope(par, vars))]
Bound0(ps, vs, n) == FoldLeft(LAMBDA f, j : With(f, ps[j], vs[j]), <<>>, [j \in 1 .. n |-> j])
CallFn(m, f, vs) ==
  LET fn == m.fns[f]
      n == Len(fn.ps)
  IN IF IF fn.va THEN Len(vs) < n - 1 ELSE Len(vs) # n THEN Fails(m)
     ELSE IF fn.b = 0 THEN Give(m, VNil)
     ELSE LET rest == Slice0(m, "var", SubSeq(vs, n, Len(vs)))
              m1 == IF fn.va THEN NewEnv(rest[1], fn.par, With(Bound0(fn.ps, vs, n - 1), fn.ps[n], rest[2]))
                    ELSE NewEnv(m, fn.par, Bound0(fn.ps, vs, n))
              id == Len(m.envs) + 1
          IN Go(Under(m1, FrameOf("call", id, m.e, 0, <<>>)), fn.b, id)
Call1(m, g, vs) ==
  CASE g.t = "fn" -> CallFn(m, g.f, vs)
    [] g.t = "bound" -> CallFn(m, g.f, <<VObj(g.ob)>> \o vs)
    [] g.t = "unset" -> (IF Len(vs) # 1 THEN Fails(m) ELSE IF vs[1].t # "str" THEN Fails(m)
                         ELSE Give([m EXCEPT !.envs[g.e].vars = Without(@, vs[1].s)], VNil))
    [] g.t = "go" ->
         (IF ~CountOK(g.g, Len(vs)) THEN Fails(m)
          ELSE IF g.g = "h" THEN
               (IF m.tot >= LOGMAX THEN Panics(m, VInt(99))
                ELSE Give([m EXCEPT !.log = Append(@, [j \in DOMAIN vs |-> Shown(m, vs[j], DEEP)]), !.tot = @ + 1], IF vs = <<>> THEN VNil ELSE vs[Len(vs)]))
          ELSE IF g.g = "panic" THEN Panics(m, CASE vs[1].t = "str" -> VErr(vs[1].s) [] vs[1].t = "err" -> vs[1] [] vs[1].t \in {"undef", "nil"} -> VErr(<<>>) [] OTHER -> vs[1])
          ELSE IF g.g = "panicf" THEN (IF vs[1].t # "str" THEN Fails(m) ELSE IF Len(vs) > 1 THEN Lost1(m) ELSE Panics(m, VErr(vs[1].s)))
          ELSE LET q == Built(m, g.g, vs) IN Give(q[1], q[2]))
    [] OTHER -> Fails(m)
Called1(m, nd, vs) ==       \* vs: what is called, arguments
  IF ~nd.va THEN Call1(m, vs[1], Tail(vs))
  ELSE IF Len(vs) = 1 THEN Fails(m)
  ELSE LET last == vs[Len(vs)] IN
       IF last.t # "slice" THEN Fails(m) ELSE Call1(m, vs[1], SubSeq(vs, 2, Len(vs) - 1) \o Elems(m, last))
Member(m, v, s) ==
  CASE v.t = "obj" -> LET o == m.objs[v.ob] IN
         (IF s \in DOMAIN o.vars THEN o.vars[s] ELSE IF s \in DOMAIN m.cls[o.cl] THEN VBound(v.ob, m.cls[o.cl][s]) ELSE Wrong)
    [] v.t = "class" -> (IF s \in DOMAIN m.cls[v.cl] THEN VFn(m.cls[v.cl][s]) ELSE Wrong)
    [] v.t = "map" -> (IF v.k # "string" THEN Wrong ELSE IF s \in DOMAIN m.maps[v.id] THEN m.maps[v.id][s] ELSE Wrong)
    [] v.t \in {"fn", "bound", "err", "undef", "type"} -> Unclear
    [] OTHER -> Wrong
\* the exit of a scope: its deferred code, last first, then what it exits with
\* the frame on top is [f |-> "exit" | "quit" | "top", n |-> scope]
ExitOn(m) ==
  LET fr == TopF(m)
      s == m.envs[fr.n]
  IN IF s.defs # <<>> THEN Go([m EXCEPT !.envs[fr.n].defs = Tail(@)], s.defs[1], fr.n)
     ELSE LET m1 == [Drop1(m) EXCEPT !.envs[fr.n].rec = <<>>] IN
          IF fr.f = "top" THEN [m1 EXCEPT !.st = IF s.rec = <<>> THEN (IF fr.vs[1].t = "!" THEN "err" ELSE "ok") ELSE IF s.rec[1].t = "err" THEN "err" ELSE "raw",
                                          !.v = IF s.rec # <<>> THEN s.rec[1] ELSE IF fr.vs[1].t = "!" THEN VErr(<<>>) ELSE fr.vs[1]]
          ELSE IF s.rec # <<>> THEN Panics(m1, s.rec[1])
          ELSE IF fr.f = "exit" THEN Give(m1, s.ret)
          ELSE IF fr.vs[1].t = "nil" THEN [m1 EXCEPT !.st = "exit", !.v = VInt(0)]
          ELSE IF fr.vs[1].t = "int" THEN [m1 EXCEPT !.st = "exit", !.v = fr.vs[1]]
          ELSE Fails(m1)
Quit(m, e, v) == ExitOn(Under([m EXCEPT !.envs[e].rec = <<>>], FrameOf("quit", e, e, 0, <<v>>)))
Exits(m, kind, rec, v) ==        \* the frame on top (of a call, or the program) turns into that of its exit
  LET fr == TopF(m) IN ExitOn([m EXCEPT !.k[Len(m.k)] = FrameOf(kind, fr.n, fr.e, 0, <<v>>), !.envs[fr.n].rec = rec, !.e = fr.e])
Construct(m, vs) ==
  IF vs[1].t # "class" THEN Fails(m)
  ELSE LET fns == m.cls[vs[1].cl]
           m1 == [m EXCEPT !.objs = Append(@, [cl |-> vs[1].cl, vars |-> <<>>])]
           id == Len(m1.objs)
           init == <<95, 105, 110, 105, 116>>
       IN IF init \in DOMAIN fns THEN CallFn(Under(m1, FrameOf("new", id, m.e, 0, <<>>)), fns[init], <<VObj(id)>> \o Tail(vs))
          ELSE Give(m1, VObj(id))
This == <<116, 104, 105, 115>>
Fun(ps, va, b, par) == [ps |-> ps, va |-> va, b |-> b, par |-> par]
Declare(m, nd, e) ==
  LET n0 == Len(m.fns)
      fs == [j \in DOMAIN nd.ms |-> Fun(<<This>> \o nd.ms[j].bs, nd.ms[j].va, nd.ms[j].b, e)]
      names == FoldLeft(LAMBDA f, j : With(f, nd.ms[j].nb, n0 + j), <<>>, [j \in DOMAIN nd.ms |-> j])
  IN Give([m EXCEPT !.fns = @ \o fs, !.cls = Append(@, names)], VClass(Len(m.cls) + 1))
Multi(m, e, ps, v) ==
  IF v.t # "slice" THEN Fails(m)
  ELSE IF v.n # Len(ps) THEN Fails(m)
  ELSE LET r == FoldLeft(LAMBDA a, j : IF a[2] = 0 THEN a
                                       ELSE LET q == Target(a[1], e, ps[j]) IN IF q[2] = 0 THEN q ELSE <<Write(q[1], q[2], ps[j], Elem(q[1], v, j)), 1>>,
                         <<m, 1>>, [j \in DOMAIN ps |-> j])
       IN IF r[2] = 0 THEN Fails(r[1]) ELSE Give(r[1], v)
\* all children have their values
Apply(m, nd, e, vs) ==
  CASE nd.k = "bin" -> Give(m, Binary(nd.o, vs[1], vs[2]))
    [] nd.k = "un" -> Give(m, Unary(nd.o, vs[1]))
    [] nd.k = "call" -> Called1(m, nd, vs)
    [] nd.k = "mref" -> Give(m, Member(m, vs[1], nd.b))
    [] nd.k = "idx" -> Give(m, Fetch(m, vs[1], vs[2]))
    [] nd.k = "sub" -> Give(m, SubSliceOf(m, vs[1], IF nd.lo THEN vs[2] ELSE VNil, IF nd.hi THEN vs[Len(vs)] ELSE VNil))
    [] nd.k = "slice" -> LET q == SliceLit(m, vs) IN Give(q[1], q[2])
    [] nd.k = "map" -> LET q == MapLit(m, vs) IN Give(q[1], q[2])
    [] nd.k = "new" -> Construct(m, vs)
    [] nd.k = "assign" -> Assigned(m, e, nd.b, vs[1])
    [] nd.k = "massign" -> Multi(m, e, nd.bs, vs[1])
    [] nd.k = "opas" -> Modified(m, e, nd.b, LAMBDA x : Arith(nd.o, x, vs[1]))
    [] nd.k = "inc" -> Modified(m, e, nd.b, LAMBDA x : Bumped(x, 1))
    [] nd.k = "dec" -> Modified(m, e, nd.b, LAMBDA x : Bumped(x, -1))
    [] nd.k = "return" -> LET v == IF vs = <<>> THEN VNil ELSE vs[1]
                              m1 == [m EXCEPT !.envs[e].ret = v]
                          IN IF m.envs[e].par = 0 THEN Quit(m1, e, v) ELSE [m1 EXCEPT !.c = "thr", !.v = [x |-> "ret"]]
Strict == {"bin", "un", "call", "mref", "idx", "sub", "slice", "map", "new", "assign", "massign", "opas", "inc", "dec", "return"}
\* branch: the code of a body (0: none)
Branch(m, b, e) == IF b <= 0 THEN Give(m, VNil) ELSE Go(m, b, e)
Cases1(m, nd, e, i, v) == IF i > Len(nd.cond) THEN Branch(m, nd.els, e) ELSE Go(Under(m, FrameOf("switch", m.n, e, i, <<v>>)), nd.cond[i], e)
\* a loop: phase 2 condition, 3 body, 4 step
RECURSIVE Loop(_, _, _, _, _)
Loop(m, nd, n, e, i) ==
  LET stay(j) == Under(m, FrameOf("for", n, e, j, <<>>))
      a == Len(nd.parts)
  IN CASE i = 2 -> (IF a = 0 THEN Loop(m, nd, n, e, 3) ELSE Go(stay(2), nd.parts[IF a = 3 THEN 2 ELSE 1], e))
       [] i = 3 -> (IF nd.b = 0 THEN Loop(m, nd, n, e, 4) ELSE Go(stay(3), nd.b, e))
       [] i = 4 -> (IF a < 3 THEN Loop(m, nd, n, e, 2) ELSE Go(stay(4), nd.parts[3], e))
Evaluate(N, m) ==
  LET nd == N[m.n]
      e == m.e
  IN CASE nd.k = "lit" -> Give(m, nd.v)
       [] nd.k = "var" -> Refer(m, e, nd)
       [] nd.k \in Strict -> (IF nd.c = <<>> THEN Apply(m, nd, e, <<>>) ELSE Go(Under(m, FrameOf("kids", m.n, e, 1, <<>>)), nd.c[1], e))
       [] nd.k \in {"and", "or"} -> Go(Under(m, FrameOf("logic", m.n, e, 0, <<>>)), nd.c[1], e)
       [] nd.k = "doc" -> (IF Len(nd.items) = 1 THEN Go(m, nd.items[1], e) ELSE Go(Under(m, FrameOf("doc", m.n, e, 1, <<>>)), nd.items[1], e))
       [] nd.k = "if" -> Go(Under(m, FrameOf("if", m.n, e, 1, <<>>)), nd.cond[1], e)
       [] nd.k = "switch" -> (IF nd.subj = 0 THEN Cases1(m, nd, e, 1, VBool(TRUE)) ELSE Go(Under(m, FrameOf("subject", m.n, e, 0, <<>>)), nd.subj, e))
       [] nd.k = "for" -> (IF Len(nd.parts) \notin {0, 1, 3} THEN Fails(m)
                           ELSE IF Len(nd.parts) = 3 THEN Go(Under(m, FrameOf("for", m.n, e, 1, <<>>)), nd.parts[1], e) ELSE Loop(m, nd, m.n, e, 2))
       [] nd.k = "fn" -> Give([m EXCEPT !.fns = Append(@, Fun(nd.bs, nd.va, nd.b, e))], VFn(Len(m.fns) + 1))
       [] nd.k = "class" -> Declare(m, nd, e)
       [] nd.k = "defer" -> Give([m EXCEPT !.envs[e].defs = <<nd.r>> \o @], VNil)
       [] nd.k = "recover" -> LET p == m.envs[e].par IN
            (IF p = 0 THEN Give(m, VNil) ELSE Give([m EXCEPT !.envs[p].rec = <<>>], IF m.envs[p].rec = <<>> THEN VNil ELSE m.envs[p].rec[1]))
       [] nd.k = "main" -> CallFn([Under(m, FrameOf("main", 0, e, 0, <<>>)) EXCEPT !.fns = Append(@, Fun(<<>>, FALSE, nd.b, e))], Len(m.fns) + 1, <<>>)
       [] nd.k = "bad" -> [m EXCEPT !.c = "thr", !.v = [x |-> "syn"]]
\* a value reaches the frame on top
Receive(N, m0) ==
  LET fr == TopF(m0)
      m == [Drop1(m0) EXCEPT !.e = fr.e, !.n = fr.n]
      v == m0.v
      e == fr.e
      nd == N[fr.n]
  IN CASE fr.f = "kids" -> LET vs == Append(fr.vs, v) IN
            (IF fr.i = Len(nd.c) THEN Apply(m, nd, e, vs) ELSE Go(Under(m, FrameOf("kids", fr.n, e, fr.i + 1, vs)), nd.c[fr.i + 1], e))
       [] fr.f = "logic" -> (IF v.t # "bool" THEN Fails(m) ELSE IF v.b = (nd.k = "or") THEN Give(m, v) ELSE Go(m, nd.r, e))
       [] fr.f = "doc" -> (IF fr.i = Len(nd.items) THEN Give(m, v)
                           ELSE LET nx == nd.items[fr.i + 1]
                                    m1 == Under(m, FrameOf("doc", fr.n, e, fr.i + 1, <<>>))
                                IN IF nx = 0 THEN Give(m1, VNil) ELSE IF fr.i + 1 = Len(nd.items) THEN Go(m, nx, e) ELSE Go(m1, nx, e))
       [] fr.f = "if" -> (IF v.t # "bool" THEN Fails(m)
                          ELSE IF v.b THEN Branch(m, nd.body[fr.i], e)
                          ELSE IF fr.i = Len(nd.cond) THEN Branch(m, nd.els, e)
                          ELSE Go(Under(m, FrameOf("if", fr.n, e, fr.i + 1, <<>>)), nd.cond[fr.i + 1], e))
       [] fr.f = "subject" -> Cases1(m, nd, e, 1, v)
       [] fr.f = "switch" -> LET q == Same(fr.vs[1], v) IN
            (IF q.t # "bool" THEN Give(m, q) ELSE IF q.b THEN Branch(m, nd.body[fr.i], e) ELSE Cases1(m, nd, e, fr.i + 1, fr.vs[1]))
       [] fr.f = "for" -> (IF fr.i = 2 THEN (IF v.t # "bool" THEN Fails(m) ELSE IF v.b THEN Loop(m, nd, fr.n, e, 3) ELSE Give(m, VNil))
                           ELSE Loop(m, nd, fr.n, e, IF fr.i = 4 THEN 2 ELSE fr.i + 1))
       [] fr.f = "new" -> Give(m, VObj(fr.n))
       [] fr.f = "main" -> Quit(m, e, v)
       [] fr.f = "call" -> Exits(m0, "exit", <<>>, VNil)
       [] fr.f = "begin" -> Exits(m0, "top", <<>>, v)
       [] fr.f \in {"exit", "quit", "top"} -> ExitOn([m0 EXCEPT !.e = e])
Guards == {"call", "begin", "exit", "quit", "top"}
RECURSIVE Unwound(_)
Unwound(m) == IF TopF(m).f \in Guards THEN m ELSE Unwound(Drop1(m))
\* something thrown reaches the innermost call, or deferred code
Catch(m0) ==
  LET m == Unwound(m0)
      fr == TopF(m)
      x == m0.v
  IN CASE fr.f = "call" -> Exits(m, "exit", IF x.x = "pan" THEN <<x.v>> ELSE m.envs[fr.n].rec, VNil)
       [] fr.f = "begin" -> Exits(m, "top", IF x.x = "pan" THEN <<x.v>> ELSE <<>>, IF x.x = "syn" THEN Wrong ELSE Unclear)
       [] OTHER -> ExitOn([m EXCEPT !.e = fr.e, !.envs[fr.n].rec = IF x.x = "pan" THEN <<x.v>> ELSE @])
QStep(N, m) == CASE m.c = "ev" -> Evaluate(N, m) [] m.c = "val" -> Receive(N, m) [] m.c = "thr" -> Catch(m)
Running(m) == m.st = "run"
\* an evaluation of document d starts; the host's variables and everything made before stay
Begin1(m, d) == [Go([m EXCEPT !.k = <<FrameOf("begin", 1, 1, 0, <<>>)>>, !.st = "run", !.log = <<>>, !.tot = 0], d, 1) EXCEPT !.envs[1].rec = <<>>]
\* a text that has no words runs nothing
Unread(m) == [m EXCEPT !.k = <<>>, !.st = "err", !.v = VErr(<<>>), !.log = <<>>, !.tot = 0]
\* --- invariants -------------------------------------------------------------------------
Ids(s) == DOMAIN s
ValueOK(m, v) ==
  CASE v.t = "fn" -> v.f \in Ids(m.fns) [] v.t = "class" -> v.cl \in Ids(m.cls) [] v.t \in {"obj", "bound"} -> v.ob \in Ids(m.objs)
    [] v.t = "slice" -> v.a \in Ids(m.arrs) /\ v.n >= 0 /\ v.o + v.n <= Len(m.arrs[v.a].e)
    [] v.t = "map" -> v.id \in Ids(m.maps) [] v.t = "ext" -> v.e \in Ids(m.envs) [] OTHER -> v.t \notin {"!", "?"}
\* an alias stands for a variable of an enclosing scope, and is no alias itself
RECURSIVE Encloses(_, _, _)
Encloses(m, a, e) == e # 0 /\ (m.envs[e].par = a \/ Encloses(m, a, m.envs[e].par))
ScopesOK(m) == \A e \in Ids(m.envs) :
  LET s == m.envs[e] IN
  /\ s.par < e
  /\ \A x \in DOMAIN s.vars : LET v == s.vars[x] IN
       /\ ValueOK(m, v)
       /\ v.t = "ext" => Encloses(m, v.e, e) /\ ~Private(x) /\ (Knows(m, v.e, x) => m.envs[v.e].vars[x].t # "ext")
\* deferred code waits, and a panic is kept, only in scopes that are still running
LiveScopes(m) == {1} \cup {m.k[j].n : j \in {h \in DOMAIN m.k : m.k[h].f \in {"call", "exit", "quit"}}}
DefersOK(m) == \A e \in Ids(m.envs) : (m.envs[e].defs # <<>> \/ m.envs[e].rec # <<>>) => e \in LiveScopes(m)
ObjectsOK(m) == \A o \in Ids(m.objs) : DOMAIN m.objs[o].vars \cap DOMAIN m.cls[m.objs[o].cl] = {}
QlangOK(m) == (m.st # "unclear") => ScopesOK(m) /\ DefersOK(m) /\ ObjectsOK(m)
=============================================================================
