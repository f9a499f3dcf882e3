------------------------------- MODULE LexMC --------------------------------
(* Every text of LEN characters over an alphabet in every mode given:        *)
(* the tokenizer of Lexer.tla is explored, its outcome is compared with the   *)
(* declarative rules below, and its predictions are printed for replay.       *)
(* Texts are numbered in base Len(Alphabet); LO, STRIDE, NUM select.          *)
EXTENDS Lexer, Json, IOUtils, TLC, FiniteSets

LEN == atoi(IOEnv.LEN)
Lo == atoi(IOEnv.LO)
Stride == atoi(IOEnv.STRIDE)
Num == atoi(IOEnv.NUM)
Modes == CASE IOEnv.MODES = "all" -> 0 .. 3 [] IOEnv.MODES = "semi" -> {2, 3} [] OTHER -> {0, 2}
DoPrint == IOEnv.PRINT = "1"

\* <<code point, bytes, class>>
Ascii(S) == [n \in DOMAIN S |-> <<S[n], 1, 0>>]
General == Ascii(<<97, 101, 105, 120, 48, 49, 56, 46, 43, 45, 42, 47, 35, 10, 13, 32, 34, 39, 96, 92, 61, 60, 38, 94, 33, 59, 41, 123, 64, 36, 0>>)
           \o <<<<233, 2, 1>>, <<1633, 2, 2>>, <<BOM, 3, 0>>, <<-2, 1, 0>>, <<8470, 3, 0>>>>
Numbers == Ascii(<<48, 49, 55, 56, 57, 46, 101, 120, 105, 43, 97, 70>>)
Comments == Ascii(<<97, 47, 42, 35, 10, 32, 13, 40, 59>>)
Quotes == Ascii(<<34, 39, 96, 92, 110, 120, 52, 117, 10, 97>>)
Operators == Ascii(<<43, 45, 42, 47, 37, 38, 124, 94, 60, 62, 61, 33, 46, 58, 63, 126>>)
Alphabet == CASE IOEnv.ALPHA = "general" -> General [] IOEnv.ALPHA = "numbers" -> Numbers
              [] IOEnv.ALPHA = "comments" -> Comments [] IOEnv.ALPHA = "quotes" -> Quotes [] IOEnv.ALPHA = "operators" -> Operators
K == Len(Alphabet)

RECURSIVE Pow(_, _), Digits(_, _), Offsets(_, _, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Total == Pow(K, LEN)
Digits(x, n) == IF n = 0 THEN <<>> ELSE <<(x % K) + 1>> \o Digits(x \div K, n - 1)
Offsets(w, i, o) == IF i > Len(w) THEN <<>> ELSE <<o>> \o Offsets(w, i + 1, o + Alphabet[w[i]][2])
RECURSIVE Sum(_, _)
Sum(w, i) == IF i > Len(w) THEN 0 ELSE Alphabet[w[i]][2] + Sum(w, i + 1)
Text(w) == [src |-> "", c |-> [i \in DOMAIN w |-> Alphabet[w[i]][1]], o |-> Offsets(w, 1, 0),
            q |-> [i \in DOMAIN w |-> Alphabet[w[i]][3]], size |-> Sum(w, 1)]
Words == [j \in 0 .. Num - 1 |-> Digits((Lo + j * Stride) % Total, LEN)]
Texts == [j \in 0 .. Num - 1 |-> Text(Words[j])]

VARIABLES ix, mode, m, toks, done
vars == <<ix, mode, m, toks, done>>
X == Texts[ix]
Mode == [cm |-> mode \in {1, 3}, sm |-> mode \in {2, 3}]
Plain(XX, i, j) == IDENT

Init == /\ ix \in 0 .. Num - 1
        /\ mode \in Modes
        /\ m = LexStart(Texts[ix])
        /\ toks = <<>> /\ done = FALSE
Step == /\ m.st = "run"
        /\ m' = LexStep(X, Mode, Plain, m)
        /\ toks' = IF m'.st = "run" THEN toks \o m'.out ELSE toks
        /\ UNCHANGED <<ix, mode, done>>
Report == /\ m.st # "run" /\ ~done
          /\ done' = TRUE
          /\ DoPrint => PrintT("@@R " \o ToJson([w |-> Words[ix], mode |-> mode, st |-> m.st,
                toks |-> [n \in DOMAIN toks |-> <<toks[n].k, toks[n].s, toks[n].e, toks[n].lit>>]]))
          /\ UNCHANGED <<ix, mode, m, toks>>
Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>done

\* --- what must hold of the outcome, stated without reference to how it was computed -------------
Good == m.st = "done"
Idx(o) == CHOOSE i \in 1 .. Len(X.c) + 1 : Off(X, i) = o
Written == SelectSeq(toks, LAMBDA t : t.lit # "nl")
Words0 == SelectSeq(Written, LAMBDA t : t.k # COMMENT)          \* without comments
Inserted == SelectSeq(toks, LAMBDA t : t.lit = "nl")

InOrder == \A a, b \in DOMAIN Written : a < b => Written[a].s < Written[a].e /\ Written[a].e <= Written[b].s
\* only blanks, line ends, comments (unless they are tokens) and a leading byte-order mark are left out
RECURSIVE GapOK(_, _, _)
GapOK(i, j, cm) ==
  IF i = j THEN TRUE
  ELSE IF i > j THEN FALSE
  ELSE IF Blank(At(X, i)) \/ At(X, i) = NL THEN GapOK(i + 1, j, cm)
  ELSE IF cm THEN FALSE
  ELSE IF At(X, i) = 35 \/ (At(X, i) = 47 /\ At(X, i + 1) = 47) THEN GapOK(ToNewline(X, i), j, cm)
  ELSE IF At(X, i) = 47 /\ At(X, i + 1) = 42 THEN BlockEnd(X, i + 2) # 0 /\ GapOK(BlockEnd(X, i + 2), j, cm)
  ELSE FALSE
First == IF At(X, 1) = BOM THEN 2 ELSE 1
NothingLost ==
  Good => /\ InOrder
          /\ LET n == Len(Written)
                 from(a) == IF a = 0 THEN First ELSE Idx(Written[a].e)
                 to(a) == IF a = n THEN Len(X.c) + 1 ELSE Idx(Written[a + 1].s)
             IN \A a \in 0 .. n : GapOK(from(a), to(a), Mode.cm)
\* one ';' after a token that calls for it if a line end follows before the next token; else none
RECURSIVE NonBlank(_)
NonBlank(i) == IF Blank(At(X, i)) THEN NonBlank(i + 1) ELSE i
SemiRule ==
  Good => LET n == Len(Words0)
              gapEnd(a) == IF a = n THEN Len(X.c) + 1 ELSE Idx(Words0[a + 1].s)
              due(a) == Mode.sm /\ SemiAfter(Words0[a].k) /\ (a = n \/ HasNL(X, Idx(Words0[a].e), gapEnd(a)))
              Due == {a \in 1 .. n : due(a)}
          IN /\ Len(Inserted) = Cardinality(Due)
             /\ \A a \in Due : \E t \in DOMAIN Inserted : Inserted[t].s = Off(X, NonBlank(Idx(Words0[a].e)))
LongestMatch ==
  Good => \A a \in DOMAIN Written :
            LET t == Written[a]
                i == Idx(t.s)
            IN /\ t.k = IDENT => ~IdentAt(X, Idx(t.e))
               /\ (t.k > 32) => \A j \in OpsAt(X, i) : Len(OpCodes[j][2]) <= t.e - t.s
RejectsForbidden == Good => ~\E i \in DOMAIN X.c : Forbidden(X, i)
=============================================================================
