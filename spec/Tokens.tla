------------------------------ MODULE Tokens ------------------------------
(* Token kinds of tpl/token.go and their printed forms.                     *)
EXTENDS Integers, Sequences

ILLEGAL == 0
EOFK == 1
COMMENT == 2
IDENT == 3
INT == 4
FLOAT == 5
IMAG == 6
CHAR == 7
STR == 8
SEMI == 59

USER == 176           \* 0xb0: first keyword token of a grammar

\* operators: <<kind, text>>
OpTable == <<
  <<43, "+">>, <<45, "-">>, <<42, "*">>, <<47, "/">>, <<37, "%">>,
  <<38, "&">>, <<124, "|">>, <<94, "^">>,
  <<60, "<">>, <<62, ">">>, <<61, "=">>, <<33, "!">>,
  <<40, "(">>, <<91, "[">>, <<123, "{">>, <<44, ",">>, <<46, ".">>,
  <<41, ")">>, <<93, "]">>, <<125, "}">>, <<59, ";">>, <<58, ":">>,
  <<63, "?">>, <<126, "~">>, <<64, "@">>,
  <<129, "<<">>, <<130, ">>">>, <<131, "&^">>,
  <<132, "+=">>, <<133, "-=">>, <<134, "*=">>, <<135, "/=">>, <<136, "%=">>,
  <<137, "&=">>, <<138, "|=">>, <<139, "^=">>, <<140, "<<=">>, <<141, ">>=">>, <<142, "&^=">>,
  <<143, "&&">>, <<144, "||">>, <<145, "<-">>, <<146, "++">>, <<147, "--">>,
  <<148, "==">>, <<149, "!=">>, <<150, "<=">>, <<151, ">=">>, <<152, ":=">>, <<153, "...">> >>

\* the same, as code points
OpCodes == <<
  <<43, <<43>>>>, <<45, <<45>>>>, <<42, <<42>>>>, <<47, <<47>>>>, <<37, <<37>>>>, <<38, <<38>>>>,
  <<124, <<124>>>>, <<94, <<94>>>>, <<60, <<60>>>>, <<62, <<62>>>>, <<61, <<61>>>>, <<33, <<33>>>>,
  <<40, <<40>>>>, <<91, <<91>>>>, <<123, <<123>>>>, <<44, <<44>>>>, <<46, <<46>>>>, <<41, <<41>>>>,
  <<93, <<93>>>>, <<125, <<125>>>>, <<59, <<59>>>>, <<58, <<58>>>>, <<63, <<63>>>>, <<126, <<126>>>>,
  <<64, <<64>>>>, <<129, <<60, 60>>>>, <<130, <<62, 62>>>>, <<131, <<38, 94>>>>, <<132, <<43, 61>>>>, <<133, <<45, 61>>>>,
  <<134, <<42, 61>>>>, <<135, <<47, 61>>>>, <<136, <<37, 61>>>>, <<137, <<38, 61>>>>, <<138, <<124, 61>>>>, <<139, <<94, 61>>>>,
  <<140, <<60, 60, 61>>>>, <<141, <<62, 62, 61>>>>, <<142, <<38, 94, 61>>>>, <<143, <<38, 38>>>>, <<144, <<124, 124>>>>, <<145, <<60, 45>>>>,
  <<146, <<43, 43>>>>, <<147, <<45, 45>>>>, <<148, <<61, 61>>>>, <<149, <<33, 61>>>>, <<150, <<60, 61>>>>, <<151, <<62, 61>>>>,
  <<152, <<58, 61>>>>, <<153, <<46, 46, 46>>>> >>

NamedKinds == <<
  <<0, "ILLEGAL">>, <<1, "EOF">>, <<2, "COMMENT">>, <<3, "IDENT">>, <<4, "INT">>, <<5, "FLOAT">>,
  <<6, "IMAG">>, <<7, "CHAR">>, <<8, "STRING">> >>

\* the literal of a kind in grammar texts: IDENT, '+', "++"
KindLit ==
  [k \in {OpTable[i][1] : i \in DOMAIN OpTable} \cup {NamedKinds[i][1] : i \in DOMAIN NamedKinds} |->
     IF \E i \in DOMAIN NamedKinds : NamedKinds[i][1] = k
     THEN NamedKinds[CHOOSE i \in DOMAIN NamedKinds : NamedKinds[i][1] = k][2]
     ELSE LET s == OpTable[CHOOSE i \in DOMAIN OpTable : OpTable[i][1] = k][2] IN
          IF Len(s) = 1 THEN "'" \o s \o "'" ELSE "\"" \o s \o "\""]

\* a token of kind k is accepted where kind want is required
Accepts(want, k) == k = want \/ (k = INT /\ want = FLOAT)
===========================================================================
