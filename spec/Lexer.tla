------------------------------- MODULE Lexer --------------------------------
(* The tokenizer of tpl/scanner.go: lexical grammar, semicolon insertion,    *)
(* positions and lexical errors.                                            *)
(*                                                                          *)
(* A text is [src, c, o, q, size]; for each character                        *)
(*   c its code point, or -2 for a byte that is not UTF-8; o its byte offset *)
(*   q 1 for a non-ASCII letter, 2 for a non-ASCII digit, 0 otherwise        *)
(*     (or q = <<>> if there are none)                                       *)
(* src is the text with one character per byte.                              *)
(* mode: [cm |-> comments are tokens, sm |-> semicolons are inserted]        *)
(* A state m: [i next character, semi, st "run"|"bad"|"done", infos, out]    *)
(*   semi : a line end here would insert a semicolon                         *)
(*   infos: //line directives so far, <<offset, file name, line>>            *)
(*   out  : <<>> or <<token>> emitted by the last step                       *)
(*   w    : what comes next (a function of the text and the rest)            *)
(* A token is [k kind, s start offset, e end offset, lit how its literal is  *)
(* written: "none", "src" (source text), "strip" (without CR), "nl"]         *)
EXTENDS Integers, Sequences, TLC, Tokens

NL == 10
CR == 13
BOM == 65279
At(X, i) == IF i >= 1 /\ i <= Len(X.c) THEN X.c[i] ELSE -1
Off(X, i) == IF i <= Len(X.o) THEN X.o[i] ELSE X.size
Class(X, i) == IF i <= Len(X.q) THEN X.q[i] ELSE 0

Digit(c) == c >= 48 /\ c <= 57
Octal(c) == c >= 48 /\ c <= 55
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
LetterAt(X, i) == LET c == At(X, i) IN (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ Class(X, i) = 1
IdentAt(X, i) == LetterAt(X, i) \/ Digit(At(X, i)) \/ Class(X, i) = 2
Blank(c) == c = 32 \/ c = 9 \/ c = CR

\* a character that no text may contain: NUL, invalid UTF-8, a byte-order mark inside the text
Forbidden(X, i) == LET c == At(X, i) IN c = 0 \/ c = -2 \/ (c = BOM /\ Off(X, i) > 0)

RECURSIVE WhileIdent(_, _), WhileBase(_, _, _), WhileBlank(_, _), ToNewline(_, _), BlockEnd(_, _), HasNL(_, _, _), AnyForbidden(_, _, _)
WhileIdent(X, i) == IF IdentAt(X, i) THEN WhileIdent(X, i + 1) ELSE i
WhileBase(X, i, b) == IF HexVal(At(X, i)) < b THEN WhileBase(X, i + 1, b) ELSE i
WhileBlank(X, i) == IF Blank(At(X, i)) THEN WhileBlank(X, i + 1) ELSE i
ToNewline(X, i) == IF At(X, i) \in {NL, -1} THEN i ELSE ToNewline(X, i + 1)
\* position behind the first "*/" at or after i, or 0
BlockEnd(X, i) == IF At(X, i) = -1 THEN 0 ELSE IF At(X, i) = 42 /\ At(X, i + 1) = 47 THEN i + 2 ELSE BlockEnd(X, i + 1)
HasNL(X, i, j) == IF i >= j THEN FALSE ELSE At(X, i) = NL \/ HasNL(X, i + 1, j)
AnyForbidden(X, i, j) == IF i >= j THEN FALSE ELSE Forbidden(X, i) \/ AnyForbidden(X, i + 1, j)

\* --- numbers: [e end, k kind, ok] ------------------------------------------------
\* from the exponent on; k is the kind so far
Exponent(X, i, k) ==
  LET sign == IF At(X, i + 1) \in {43, 45} THEN 1 ELSE 0
      e1 == IF At(X, i) \in {69, 101} THEN WhileBase(X, i + 1 + sign, 10) ELSE i
      k1 == IF At(X, i) \in {69, 101} THEN FLOAT ELSE k
  IN IF At(X, e1) = 105 THEN [e |-> e1 + 1, k |-> IMAG, ok |-> TRUE] ELSE [e |-> e1, k |-> k1, ok |-> TRUE]
Fraction(X, i) ==
  IF At(X, i) = 46 THEN Exponent(X, WhileBase(X, i + 1, 10), FLOAT) ELSE Exponent(X, i, INT)
Number(X, i) ==
  IF At(X, i) = 46 THEN Exponent(X, WhileBase(X, i + 1, 10), FLOAT)
  ELSE IF At(X, i) # 48 THEN Fraction(X, WhileBase(X, i, 10))
  ELSE IF At(X, i + 1) \in {88, 120}
       THEN LET e == WhileBase(X, i + 2, 16) IN [e |-> e, k |-> INT, ok |-> e > i + 2]
  ELSE LET d == WhileBase(X, i + 1, 10)            \* all digits
           o == WhileBase(X, i + 1, 8)             \* octal digits
       IN IF At(X, d) \in {46, 101, 69, 105} THEN Fraction(X, d)
          ELSE [e |-> d, k |-> INT, ok |-> o = d]

\* --- quoted literals: end position, or 0 if malformed --------------------------------
RECURSIVE Hex(_, _, _, _)
Hex(X, i, n, v) == IF n = 0 THEN v ELSE Hex(X, i + 1, n - 1, v * 16 + HexVal(At(X, i)))
AllBase(X, i, n, b) == \A j \in 0 .. n - 1 : HexVal(At(X, i + j)) < b
CodePoint(v) == v <= 1114111 /\ ~(v >= 55296 /\ v < 57344)
\* position behind the escape sequence whose '\' is at i, or 0
Escape(X, i, q) ==
  LET c == At(X, i + 1) IN
  CASE c \in {97, 98, 102, 110, 114, 116, 118, 92} \cup {q} -> i + 2
    [] Octal(c) -> IF AllBase(X, i + 1, 3, 8)
                      /\ HexVal(At(X, i + 1)) * 64 + HexVal(At(X, i + 2)) * 8 + HexVal(At(X, i + 3)) <= 255
                   THEN i + 4 ELSE 0
    [] c = 120 -> IF AllBase(X, i + 2, 2, 16) THEN i + 4 ELSE 0
    [] c = 117 -> IF AllBase(X, i + 2, 4, 16) /\ CodePoint(Hex(X, i + 2, 4, 0)) THEN i + 6 ELSE 0
    [] c = 85 -> IF AllBase(X, i + 2, 8, 16) /\ HexVal(At(X, i + 2)) = 0 /\ HexVal(At(X, i + 3)) = 0
                    /\ CodePoint(Hex(X, i + 4, 6, 0))
                 THEN i + 10 ELSE 0
    [] OTHER -> 0
RECURSIVE StringEnd(_, _), RawEnd(_, _)
StringEnd(X, i) ==            \* i behind the opening quote
  LET c == At(X, i) IN
  IF c \in {NL, -1} THEN 0
  ELSE IF c = 34 THEN i + 1
  ELSE IF c = 92 THEN (LET e == Escape(X, i, 34) IN IF e = 0 THEN 0 ELSE StringEnd(X, e))
  ELSE StringEnd(X, i + 1)
RawEnd(X, i) == IF At(X, i) = -1 THEN 0 ELSE IF At(X, i) = 96 THEN i + 1 ELSE RawEnd(X, i + 1)
RuneEnd(X, i) ==              \* exactly one character or escape between the quotes
  LET c == At(X, i)
      e == IF c = 92 THEN Escape(X, i, 39) ELSE IF c \in {NL, -1, 39} THEN 0 ELSE i + 1
  IN IF e # 0 /\ At(X, e) = 39 THEN e + 1 ELSE 0

\* --- operators: longest match ------------------------------------------------------
OpAt(X, i, j) == LET t == OpCodes[j][2] IN \A n \in DOMAIN t : At(X, i + n - 1) = t[n]
OpsFrom == TLCEval([c \in {OpCodes[j][2][1] : j \in DOMAIN OpCodes} |-> {j \in DOMAIN OpCodes : OpCodes[j][2][1] = c}])
OpsAt(X, i) == IF At(X, i) \in DOMAIN OpsFrom THEN {j \in OpsFrom[At(X, i)] : OpAt(X, i, j)} ELSE {}
LongestOp(X, i) == LET S == OpsAt(X, i) IN CHOOSE j \in S : \A h \in S : Len(OpCodes[h][2]) <= Len(OpCodes[j][2])

\* --- semicolons ----------------------------------------------------------------------
\* kinds after which a line end inserts a semicolon
SemiAfter(k) == k \in {IDENT, INT, FLOAT, IMAG, CHAR, STR, 41, 93, 125, 146, 147} \/ k >= USER
\* does the rest of the line from i on hold nothing but blanks and comments? (i at a blank, comment, line end or token)
RECURSIVE LineEnds(_, _)
LineEnds(X, i) ==
  LET j == WhileBlank(X, i)
      c == At(X, j)
  IN CASE c \in {NL, -1, 35} -> TRUE
       [] c = 47 /\ At(X, j + 1) = 47 -> TRUE
       [] c = 47 /\ At(X, j + 1) = 42 -> LET e == BlockEnd(X, j + 2) IN
                                         e # 0 /\ (HasNL(X, j, e) \/ LineEnds(X, e))
       [] OTHER -> FALSE

\* --- //line directives -----------------------------------------------------------------
LinePrefix == <<47, 47, 108, 105, 110, 101, 32>>        \* "//line "
LineStart(X, i) == i = 1 \/ At(X, i - 1) = NL
RECURSIVE LastColon(_, _, _), Atoi(_, _, _, _)
LastColon(X, i, j) == IF j < i THEN 0 ELSE IF At(X, j) = 58 THEN j ELSE LastColon(X, i, j - 1)
Atoi(X, i, j, v) == IF i >= j THEN v ELSE IF Digit(At(X, i)) /\ v < 100000000 THEN Atoi(X, i + 1, j, v * 10 + At(X, i) - 48) ELSE -1
\* white space as strings are trimmed
Space(c) == c \in {32, 9, 10, 11, 12, 13, 133, 160}
RECURSIVE TrimL(_, _, _), TrimR(_, _, _)
TrimL(X, i, j) == IF i < j /\ Space(At(X, i)) THEN TrimL(X, i + 1, j) ELSE i
TrimR(X, i, j) == IF i < j /\ Space(At(X, j - 1)) THEN TrimR(X, i, j - 1) ELSE j
\* the directive in the comment i..j-1: <<>> or <<file name, line>>
Directive(X, i, j) ==
  IF ~(LineStart(X, i) /\ j - i >= 7 /\ \A n \in 1 .. 7 : At(X, i + n - 1) = LinePrefix[n]) THEN <<>>
  ELSE LET k == LastColon(X, i, j - 1)
           from == IF At(X, k + 1) = 43 THEN k + 2 ELSE k + 1
           v == IF k > 0 /\ from < j THEN Atoi(X, from, j, 0) ELSE -1
       IN IF v <= 0 \/ k < i + 7 THEN <<>>
          ELSE LET a == TrimL(X, i + 7, k)
                   b == TrimR(X, a, k)
               IN <<SubSeq(X.src, Off(X, a) + 1, Off(X, b)), v>>
\* the directive applies from the next line on, if there is one
AddInfo(X, infos, i, j) ==
  LET d == Directive(X, i, j)
      at == Off(X, j) + 1
  IN IF d # <<>> /\ at < X.size /\ (infos = <<>> \/ infos[Len(infos)][1] < at)
     THEN Append(infos, <<at, d[1], d[2]>>) ELSE infos

\* --- the machine ---------------------------------------------------------------------------

Tok(X, k, i, j, lit) == [k |-> k, s |-> Off(X, i), e |-> Off(X, j), lit |-> lit]
Emit(m, t, i, semi) == [m EXCEPT !.i = i, !.semi = semi, !.out = <<t>>]
Skip(m, i) == [m EXCEPT !.i = i, !.out = <<>>]
LexBad(m) == [m EXCEPT !.st = "bad", !.out = <<>>]

\* what comes next (for named actions)
LexKind(X, m) ==
  LET c == At(X, m.i) IN
  IF m.st # "run" THEN "halt"
  ELSE IF Forbidden(X, m.i) THEN "forbidden"
  ELSE IF Blank(c) THEN "blank"
  ELSE IF c = NL THEN (IF m.semi THEN "newline-semi" ELSE "newline")
  ELSE IF c = -1 THEN (IF m.semi THEN "eof-semi" ELSE "eof")
  ELSE IF c = 35 THEN (IF m.semi THEN "comment-semi" ELSE "sharp-comment")
  ELSE IF c = 47 /\ At(X, m.i + 1) \in {47, 42}
       THEN IF m.semi /\ LineEnds(X, m.i) THEN "comment-semi"
            ELSE IF At(X, m.i + 1) = 47 THEN "line-comment" ELSE "block-comment"
  ELSE IF LetterAt(X, m.i) THEN "ident"
  ELSE IF Digit(c) \/ (c = 46 /\ Digit(At(X, m.i + 1))) THEN "number"
  ELSE IF c = 34 THEN "string"
  ELSE IF c = 39 THEN "rune"
  ELSE IF c = 96 THEN "raw-string"
  ELSE IF OpsAt(X, m.i) # {} THEN "operator"
  ELSE "illegal"

Look(X, m) == [m EXCEPT !.w = LexKind(X, m)]
LexStart(X) == Look(X, [i |-> IF At(X, 1) = BOM THEN 2 ELSE 1, semi |-> FALSE, st |-> "run", infos |-> <<>>, out |-> <<>>, w |-> ""])

\* KW(X, i, j): kind of the identifier i..j-1 (a keyword or IDENT)
LexStep(X, mode, KW(_, _, _), m) ==
  LET i == m.i
      what == m.w
      after(k) == mode.sm /\ SemiAfter(k)
      literal(k, j, lit) == IF j = 0 \/ AnyForbidden(X, i, j) THEN LexBad(m) ELSE Emit(m, Tok(X, k, i, j, lit), j, after(k))
      comment(j, lit) == IF AnyForbidden(X, i, j) THEN LexBad(m)
                         ELSE IF mode.cm THEN Emit(m, Tok(X, COMMENT, i, j, lit), j, FALSE)
                         ELSE [Skip(m, j) EXCEPT !.semi = FALSE]
      next == CASE what \in {"forbidden", "illegal"} -> LexBad(m)
       [] what = "blank" -> Skip(m, WhileBlank(X, i))
       [] what = "newline" -> Skip(m, i + 1)
       [] what = "newline-semi" -> Emit(m, Tok(X, SEMI, i, i + 1, "nl"), i, FALSE)
       [] what \in {"eof-semi", "comment-semi"} -> Emit(m, Tok(X, SEMI, i, i, "nl"), i, FALSE)
       [] what = "eof" -> [m EXCEPT !.st = "done", !.out = <<Tok(X, EOFK, i, i, "none")>>]
       [] what = "sharp-comment" -> comment(ToNewline(X, i), "src")
       [] what = "line-comment" -> LET j == ToNewline(X, i) IN [comment(j, "strip") EXCEPT !.infos = AddInfo(X, @, i, j)]
       [] what = "block-comment" -> LET j == BlockEnd(X, i + 2) IN IF j = 0 THEN LexBad(m) ELSE comment(j, "strip")
       [] what = "ident" -> LET j == WhileIdent(X, i) IN literal(KW(X, i, j), j, "src")
       [] what = "number" -> LET n == Number(X, i) IN IF n.ok THEN literal(n.k, n.e, "src") ELSE LexBad(m)
       [] what = "string" -> literal(STR, StringEnd(X, i + 1), "src")
       [] what = "raw-string" -> literal(STR, RawEnd(X, i + 1), "strip")
       [] what = "rune" -> literal(CHAR, RuneEnd(X, i + 1), "src")
       [] what = "operator" -> LET op == OpCodes[LongestOp(X, i)]
                                   j == i + Len(op[2])
                               IN Emit(m, Tok(X, op[1], i, j, IF op[1] = SEMI THEN "src" ELSE "none"), j, after(op[1]))
  IN Look(X, next)

\* --- positions -----------------------------------------------------------------------------
\* --- file names: path cleaning -----------------------------------------------------------
RECURSIVE Segments(_, _, _), Lexical(_, _, _, _), JoinSegs(_, _)
Segments(p, i, seg) ==
  IF i > Len(p) THEN <<seg>>
  ELSE LET ch == SubSeq(p, i, i) IN IF ch = "/" THEN <<seg>> \o Segments(p, i + 1, "") ELSE Segments(p, i + 1, seg \o ch)
Lexical(segs, i, rooted, out) ==
  IF i > Len(segs) THEN out
  ELSE Lexical(segs, i + 1, rooted,
    LET g == segs[i] IN
    CASE g = "" \/ g = "." -> out
      [] g = ".." -> IF out # <<>> /\ out[Len(out)] # ".." THEN SubSeq(out, 1, Len(out) - 1)
                     ELSE IF rooted THEN out ELSE Append(out, g)
      [] OTHER -> Append(out, g))
JoinSegs(segs, i) == IF i > Len(segs) THEN "" ELSE (IF i = 1 THEN "" ELSE "/") \o segs[i] \o JoinSegs(segs, i + 1)
CleanPath(p) ==
  LET rooted == Len(p) > 0 /\ SubSeq(p, 1, 1) = "/"
      s == JoinSegs(Lexical(Segments(p, 1, ""), 1, rooted, <<>>), 1)
  IN IF rooted THEN "/" \o s ELSE IF s = "" THEN "." ELSE s
\* the name a //line directive gives, in a text of directory dir ("" or ending in "/")
DirectiveFile(dir, name) == IF name = "" THEN "" ELSE IF SubSeq(name, 1, 1) = "/" THEN CleanPath(name) ELSE CleanPath(dir \o name)

\* nls: offsets of all newlines. A line begins after each newline that is followed by text.
NaturalLine(X, nls, o) == 1 + Len(SelectSeq(nls, LAMBDA x : x < o /\ x + 1 < X.size))
\* <<file name, line>> of offset o; name is the name of the text itself
Position(X, nls, infos, name, dir, o) ==
  LET before == SelectSeq(infos, LAMBDA f : f[1] <= o) IN
  IF before = <<>> THEN <<name, NaturalLine(X, nls, o)>>
  ELSE LET f == before[Len(before)]
           file == DirectiveFile(dir, f[2])
       IN <<file, f[3] + NaturalLine(X, nls, o) - NaturalLine(X, nls, f[1])>>
=============================================================================
