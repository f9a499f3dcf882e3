------------------------------- MODULE Texts --------------------------------
(* Whole texts: the tokens of a text under a scan mode and a keyword list.   *)
(* A token is [k, lit, s]: kind, literal, offset of its first byte.          *)
EXTENDS Lexer, TplText, TLC, SequencesExt

GrammarMode == [cm |-> FALSE, sm |-> TRUE]
ModeOf(n) == [cm |-> n \in {1, 3}, sm |-> n \in {2, 3}]

Slice(X, s, e) == SubSeq(X.src, s + 1, e)
RECURSIVE NoCR(_)
NoCR(s) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = "\r" THEN "" ELSE SubSeq(s, 1, 1)) \o NoCR(SubSeq(s, 2, Len(s)))
Literal(X, t) == CASE t.lit = "none" -> "" [] t.lit = "nl" -> "\n" [] t.lit = "src" -> Slice(X, t.s, t.e)
                   [] t.lit = "strip" -> NoCR(Slice(X, t.s, t.e))
\* all tokens of a text: <<accepted, tokens [k, lit, s]>>. A fold, as the cost of a recursion grows with its depth
Lexed(X, mode, kws) ==
  LET KW(XX, i, j) == LET w == Slice(XX, Off(XX, i), Off(XX, j)) IN
                      IF kws = <<>> \/ Index(kws, w) = 0 THEN IDENT ELSE USER + Index(kws, w) - 1
      Once(a, j) == IF a.m.st # "run" THEN a
                    ELSE LET n == TLCEval(LexStep(X, mode, KW, a.m)) IN
                         [m |-> n, out |-> IF n.st # "run" \/ n.out = <<>> THEN a.out
                                           ELSE LET t == n.out[1] IN Append(a.out, [k |-> t.k, lit |-> Literal(X, t), s |-> t.s])]
      z == FoldLeft(LAMBDA a, j : TLCEval(Once(a, j)), [m |-> LexStart(X), out |-> <<>>], [j \in 1 .. 2 * Len(X.c) + 4 |-> j])
  IN IF z.m.st = "done" THEN <<TRUE, z.out>> ELSE <<FALSE, <<>>>>
=============================================================================
