------------------------------- MODULE Extract -------------------------------
(* The document an extractor collects (tpl/extractor).                       *)
(*                                                                           *)
(* A mark is name_Type; the ending "s" or "Array" makes it an array mark.    *)
(* Leaf marks (String Int Float Char Text) collect one value when their      *)
(* rule has matched; node marks collect what matches inside in a document of *)
(* its own, which is abandoned when the rule fails.                          *)
(*                                                                           *)
(* State D:                                                                  *)
(*   nd   nodes, 1 is the document: entries [t tag, n node (0: a leaf),      *)
(*        r array, v value], first one first                                 *)
(*   cur  the node being filled                                              *)
(*   tr   open nodes, innermost last: [cur, len] what was there before       *)
(*   err  "" or why the extraction fails: "bad" "raw"                        *)
(* Values are [k, s, m, a]: kind, text, members, elements.                   *)
EXTENDS Numbers

DocStart == [nd |-> <<<<>>>>, cur |-> 1, tr |-> <<>>, err |-> ""]

\* --- marks ------------------------------------------------------------------------
EndsIn(s, suf) == Len(s) >= Len(suf) /\ SubSeq(s, Len(s) - Len(suf) + 1, Len(s)) = suf
Less(s, n) == SubSeq(s, 1, Len(s) - n)
RECURSIVE LastUnder(_, _)
LastUnder(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "_" THEN i ELSE LastUnder(s, i - 1)
MarkOf(mark) ==
  LET s == EndsIn(mark, "s")
      arr == EndsIn(mark, "Array")
      base == IF s THEN Less(mark, 1) ELSE IF arr THEN Less(mark, 5) ELSE mark
      j == LastUnder(base, Len(base))
  IN [ok |-> j > 0, arr |-> s \/ arr, tag |-> SubSeq(base, 1, j - 1), typ |-> Rest(base, j + 1)]

\* --- values -----------------------------------------------------------------------
Value(k, s) == [k |-> k, s |-> s, m |-> <<>>, a |-> <<>>]
\* conversions give <<>> when there is no such value
Whole(lit) ==                        \* decimal, leading zeros allowed
  IF lit = "" \/ ~AllIn(lit, DOMAIN Digits) \/ ~FitsInt(Strip(lit)) THEN <<>> ELSE <<Value("int", Strip(lit))>>
RECURSIVE Trail(_)
Trail(s) == IF Len(s) > 1 /\ Ch(s, Len(s)) = "0" THEN Trail(Less(s, 1)) ELSE s
FloatText(lit) ==                    \* digits [. digits] [e sign digits]: d.ddde±xx, "" if it is none
  LET i == Span(lit, 1)
      dot == i <= Len(lit) /\ Ch(lit, i) = "."
      j == IF dot THEN Span(lit, i + 1) ELSE i
      e == j <= Len(lit) /\ Ch(lit, j) \in {"e", "E"}
      sgn == e /\ j < Len(lit) /\ Ch(lit, j + 1) \in {"+", "-"}
      k0 == IF sgn THEN j + 2 ELSE j + 1
      k == IF e THEN Span(lit, k0) ELSE j
      whole == SubSeq(lit, 1, i - 1)
      frac == IF dot THEN SubSeq(lit, i + 1, j - 1) ELSE ""
      all == whole \o frac
      mant == Strip(all)
      exp == IF e THEN NumIn(SubSeq(lit, k0, k - 1), 10, 0) * (IF sgn /\ Ch(lit, j + 1) = "-" THEN -1 ELSE 1) ELSE 0
      top == exp + Len(whole) - 1 - (Len(all) - Len(mant))
      ds == Trail(mant)
  IN IF all = "" \/ (e /\ k = k0) \/ k # Len(lit) + 1 THEN ""
     ELSE IF mant = "0" \/ top < -330 THEN "0"
     ELSE IF top > 308 THEN ""
     ELSE IF Len(ds) > 15 THEN "?"
     ELSE Ch(ds, 1) \o (IF Len(ds) > 1 THEN "." \o Rest(ds, 2) ELSE "") \o "e" \o ToString(top)
Real(lit) == LET f == FloatText(lit) IN IF f = "" THEN <<>> ELSE <<Value("float", f)>>

\* quoted texts: bytes; B is the table of all bytes
Byte(B, n) == SubSeq(B, n + 1, n + 1)
Utf8(B, n) ==
  IF n < 128 THEN Byte(B, n)
  ELSE IF n < 2048 THEN Byte(B, 192 + n \div 64) \o Byte(B, 128 + (n % 64))
  ELSE IF n < 65536 THEN Byte(B, 224 + n \div 4096) \o Byte(B, 128 + ((n \div 64) % 64)) \o Byte(B, 128 + (n % 64))
  ELSE Byte(B, 240 + n \div 262144) \o Byte(B, 128 + ((n \div 4096) % 64)) \o Byte(B, 128 + ((n \div 64) % 64)) \o Byte(B, 128 + (n % 64))
Simple == [a |-> 7, b |-> 8, f |-> 12, n |-> 10, r |-> 13, t |-> 9, v |-> 11]
\* the escape at s[i] = "\": [ok, n code, u wide, j next]
Esc(s, i, q) ==
  LET c == Ch(s, i + 1)
      no == [ok |-> FALSE, n |-> 0, u |-> FALSE, j |-> i]
      hex(w, wide) == LET h == SubSeq(s, i + 2, i + 1 + w) IN
                      IF Len(h) = w /\ AllIn(h, DOMAIN HexDigit) /\ (w < 8 \/ Ch(h, 1) = "0")
                      THEN LET n == NumIn(h, 16, 0) IN [ok |-> n <= 1114111 /\ (~wide \/ n \notin 55296 .. 57343), n |-> n, u |-> wide, j |-> i + 2 + w] ELSE no
  IN IF i = Len(s) THEN no
     ELSE IF c \in DOMAIN Simple THEN [ok |-> TRUE, n |-> Simple[c], u |-> FALSE, j |-> i + 2]
     ELSE IF c = "\\" THEN [ok |-> TRUE, n |-> 92, u |-> FALSE, j |-> i + 2]
     ELSE IF c = q THEN [ok |-> TRUE, n |-> IF q = "'" THEN 39 ELSE 34, u |-> FALSE, j |-> i + 2]
     ELSE IF c = "x" THEN hex(2, FALSE)
     ELSE IF c = "u" THEN hex(4, TRUE)
     ELSE IF c = "U" THEN hex(8, TRUE)
     ELSE IF c \in OctDigits
          THEN LET o == SubSeq(s, i + 1, i + 3) IN
               IF Len(o) = 3 /\ AllIn(o, OctDigits) /\ NumIn(o, 8, 0) < 256
               THEN [ok |-> TRUE, n |-> NumIn(o, 8, 0), u |-> FALSE, j |-> i + 4] ELSE no
     ELSE no
RECURSIVE Unquoted(_, _, _, _)
Unquoted(B, s, q, i) ==              \* <<ok, bytes>> of the quoted part from i
  IF i > Len(s) THEN <<TRUE, "">>
  ELSE IF Ch(s, i) = q THEN <<FALSE, "">>
  ELSE IF Ch(s, i) # "\\" THEN LET r == Unquoted(B, s, q, i + 1) IN <<r[1], Ch(s, i) \o r[2]>>
  ELSE LET e == Esc(s, i, q) IN
       IF ~e.ok THEN <<FALSE, "">>
       ELSE LET r == Unquoted(B, s, q, e.j) IN <<r[1], (IF e.u THEN Utf8(B, e.n) ELSE Byte(B, e.n)) \o r[2]>>
Inner(lit) == SubSeq(lit, 2, Len(lit) - 1)
Quoted(B, lit) ==                    \* STRING and CHAR literals, as the tokenizer accepts them
  IF Len(lit) < 2 \/ Ch(lit, 1) # Ch(lit, Len(lit)) THEN <<>>
  ELSE IF Ch(lit, 1) = "`" THEN <<Value("str", Inner(lit))>>
  ELSE IF Ch(lit, 1) \notin {"\"", "'"} THEN <<>>
  ELSE LET r == Unquoted(B, Inner(lit), Ch(lit, 1), 1) IN IF r[1] THEN <<Value("str", r[2])>> ELSE <<>>
OneByte(B, lit) ==                   \* the one character between the first and the last
  LET s == Inner(lit) IN
  IF Len(lit) < 3 \/ Ch(s, 1) = "'" THEN <<>>
  ELSE IF Ch(s, 1) = "\\" THEN LET e == Esc(s, 1, "'") IN
       IF e.ok /\ ~e.u /\ e.j > Len(s) THEN <<Value("byte", ToString(e.n))>> ELSE <<>>
  ELSE IF Len(s) > 1 THEN <<>>
  ELSE LET n == CHOOSE n \in 0 .. 255 : Byte(B, n) = s IN IF n < 128 THEN <<Value("byte", ToString(n))>> ELSE <<>>
Converted(B, typ, lit) ==
  CASE typ = "String" -> Quoted(B, lit)
    [] typ = "Int" -> Whole(lit)
    [] typ = "Float" -> Real(lit)
    [] typ = "Char" -> OneByte(B, lit)
    [] typ = "Text" -> <<Value("str", lit)>>
    [] OTHER -> <<>>
\* the conversion a host may bring along
Custom(typ, lit) == IF typ = "Nil" THEN <<Value("nil", "")>> ELSE IF typ \in {"Int", "Raw"} THEN <<>> ELSE <<Value("str", typ \o ":" \o lit)>>

\* --- collecting ---------------------------------------------------------------------
Entry(mk, n, v) == [t |-> mk.tag, n |-> n, r |-> mk.arr, v |-> v]
Put(D, e) == [D EXCEPT !.nd[D.cur] = Append(@, e)]
Leaf(D, mk, v) == Put(D, Entry(mk, 0, v))
OpenNode1(D, mk) ==
  LET new == Len(D.nd) + 1 IN
  [Put(D, Entry(mk, new, Value("nil", ""))) EXCEPT !.nd = Append(@, <<>>), !.cur = new,
                                                    !.tr = Append(@, [cur |-> D.cur, len |-> Len(D.nd[D.cur])])]
Last1(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
CloseNode1(D) == [D EXCEPT !.cur = Last1(D.tr).cur, !.tr = Front1(@)]
AbandonNode1(D) == LET t == Last1(D.tr) IN [D EXCEPT !.nd[t.cur] = SubSeq(@, 1, t.len), !.cur = t.cur, !.tr = Front1(@)]
FailAs(D, e) == [D EXCEPT !.err = e]

\* --- the document --------------------------------------------------------------------
\* The first entry of a name says what it is: a single value, or an array of all entries
\* that follow under this name, up to one of another sort.
Tags(es) == {es[j].t : j \in DOMAIN es}
SameSort(a, b) == a.r = b.r /\ (a.n = 0) = (b.n = 0)
RECURSIVE Run1(_)
Run1(es) == IF Len(es) > 1 /\ SameSort(es[1], es[2])
            THEN LET r == Run1(<<es[1]>> \o SubSeq(es, 3, Len(es))) IN <<es[1], es[2]>> \o Tail(r) ELSE <<es[1]>>
RECURSIVE DocOf(_, _)
DocOf(nd, x) ==
  LET es == nd[x]
      val(e) == IF e.n = 0 THEN e.v ELSE DocOf(nd, e.n)
      of(t) == LET mine == SelectSeq(es, LAMBDA e : e.t = t)
                   f == mine[1]
                   run == Run1(mine)
               IN IF ~f.r THEN val(f)
                  ELSE [Value(IF f.n = 0 THEN "arr" ELSE "narr", "") EXCEPT !.a = [j \in DOMAIN run |-> val(run[j])]]
  IN [Value("map", "") EXCEPT !.m = [t \in Tags(es) |-> of(t)]]
Doc(D) == DocOf(D.nd, 1)
\* is the value seen the one expected
RECURSIVE Like(_, _)
Like(o, v) ==
  /\ o.k = v.k
  /\ v.s = "?" \/ o.s = v.s
  /\ DOMAIN o.a = DOMAIN v.a /\ \A j \in DOMAIN v.a : Like(o.a[j], v.a[j])
  /\ DOMAIN o.m = DOMAIN v.m /\ \A t \in DOMAIN v.m : Like(o.m[t], v.m[t])

\* --- invariants of every state ----------------------------------------------------------
DocOK(D) ==
  /\ D.cur \in DOMAIN D.nd
  /\ \A j \in DOMAIN D.tr : D.tr[j].cur \in DOMAIN D.nd /\ D.tr[j].len < Len(D.nd[D.tr[j].cur])
  \* open nodes hang on one another, the innermost is the one being filled
  /\ \A j \in DOMAIN D.tr :
       LET e == D.nd[D.tr[j].cur][D.tr[j].len + 1] IN
       /\ e.n = IF j < Len(D.tr) THEN D.tr[j + 1].cur ELSE D.cur
       /\ Len(D.nd[D.tr[j].cur]) = D.tr[j].len + 1
  /\ D.tr = <<>> => D.cur = 1
  \* a node hangs in one place at most, and never in one made after it
  /\ \A x \in DOMAIN D.nd : \A i \in DOMAIN D.nd[x] : D.nd[x][i].n = 0 \/ D.nd[x][i].n > x
  /\ \A x, y \in DOMAIN D.nd : \A i \in DOMAIN D.nd[x], j \in DOMAIN D.nd[y] :
       (<<x, i>> # <<y, j>> /\ D.nd[x][i].n # 0) => D.nd[x][i].n # D.nd[y][j].n
=============================================================================
