------------------------------ MODULE ExtractMC ------------------------------
(* Words over what happens while a document is collected: a leaf (i), an     *)
(* array leaf (a), a node opened and closed (()), an array node opened and   *)
(* closed ([]), the innermost node abandoned (}), a value that cannot be     *)
(* converted (p), a cut that fails (!) and the end of an extraction (;). All *)
(* words of length MAXLEN over the chosen symbols are explored with the      *)
(* state of Extract.tla; in every state the document, with the open nodes    *)
(* kept and with the open nodes abandoned, is the one read off the word.     *)
(* Words are printed as predictions and replayed on a real extractor.        *)
EXTENDS Extract, Ticks, Json, IOUtils, FiniteSets

MAXLEN == atoi(IOEnv.MAXLEN)
Alphabet == {"i", "a", "(", ")", "[", "]", "}", "p", "!", ";"}
Chosen == TLCEval({s \in Alphabet : \E i \in 1 .. Len(IOEnv.SYMS) : SubSeq(IOEnv.SYMS, i, i) = s})
Tk == [CollectLeaf |-> 1, CollectElement |-> 2, OpenNode |-> 3, CloseNode |-> 4, AbandonNode |-> 5, Fails |-> 6, Ends |-> 7]
ASSUME TickStart(Tk)
Report == TickReport("ExtractMC", Tk)

VARIABLES D, cur, open, done, n
vars == <<D, cur, open, done, n>>
\* cur: symbols of the extraction going on; open: its open brackets; done: finished extractions [w, r, doc]
Init == D = DocStart /\ cur = <<>> /\ open = <<>> /\ done = <<>> /\ n = 0

XMark == MarkOf("x_Int")
ZMark == MarkOf("z_Strings")
NMark == MarkOf("n_Node")
KMark == MarkOf("k_NodeArray")
May(s) == n < MAXLEN /\ s \in Chosen
Sym(s) == n' = n + 1 /\ cur' = Append(cur, s)
Pos == ToString(Len(cur) + 1)
CollectLeaf == May("i") /\ Sym("i") /\ D' = Leaf(D, XMark, Value("int", Pos)) /\ Tick(Tk.CollectLeaf) /\ UNCHANGED <<open, done>>
CollectElement == May("a") /\ Sym("a") /\ D' = Leaf(D, ZMark, Value("str", Pos)) /\ Tick(Tk.CollectElement) /\ UNCHANGED <<open, done>>
OpenNode == \E s \in {"(", "["} :
  May(s) /\ Sym(s) /\ D' = OpenNode1(D, IF s = "(" THEN NMark ELSE KMark) /\ open' = Append(open, s) /\ Tick(Tk.OpenNode) /\ UNCHANGED done
Closer(o) == IF o = "(" THEN ")" ELSE "]"
CloseNode == /\ open # <<>>
             /\ LET s == Closer(Last1(open)) IN May(s) /\ Sym(s)
             /\ D' = CloseNode1(D) /\ open' = Front1(open) /\ Tick(Tk.CloseNode) /\ UNCHANGED done
AbandonNode == open # <<>> /\ May("}") /\ Sym("}") /\ D' = AbandonNode1(D) /\ open' = Front1(open) /\ Tick(Tk.AbandonNode) /\ UNCHANGED done
\* an extraction ends; the next one starts from an empty document
End(w, r, doc) == /\ done' = Append(done, [w |-> w, r |-> r, doc |-> doc])
                  /\ D' = DocStart /\ cur' = <<>> /\ open' = <<>> /\ n' = n + 1
NoDoc == Value("nil", "")
Fails == \E s \in {"p", "!"} : May(s) /\ End(Append(cur, s), "fail", NoDoc) /\ Tick(Tk.Fails)
EndsNow == IF open = <<>> THEN [w |-> cur, r |-> "ok", doc |-> Doc(D)] ELSE [w |-> cur, r |-> "fail", doc |-> NoDoc]
Ends == May(";") /\ End(EndsNow.w, EndsNow.r, EndsNow.doc) /\ Tick(Tk.Ends)
Next == CollectLeaf \/ CollectElement \/ OpenNode \/ CloseNode \/ AbandonNode \/ Fails \/ Ends
Spec == Init /\ [][Next]_vars

\* --- the document read off the word -----------------------------------------------------
Opens(s) == s \in {"(", "["}
Shuts(s) == s \in {")", "]", "}"}
RECURSIVE Partner(_, _, _)
Partner(w, j, depth) ==              \* where the bracket around j, at the given depth, is closed
  IF Shuts(w[j]) /\ depth = 0 THEN j ELSE Partner(w, j + 1, IF Opens(w[j]) THEN depth + 1 ELSE IF Shuts(w[j]) THEN depth - 1 ELSE depth)
Shut(w, j) == Partner(w, j + 1, 0)
\* positions of lo..hi that lie in no bracket opened there
RECURSIVE Direct(_, _, _)
Direct(w, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF Opens(w[lo]) THEN <<lo>> \o Direct(w, Shut(w, lo) + 1, hi)
  ELSE <<lo>> \o Direct(w, lo + 1, hi)
RECURSIVE Read1(_, _, _)
Read1(w, lo, hi) ==
  LET ps == Direct(w, lo, hi)
      at(s) == SelectSeq(ps, LAMBDA j : w[j] = s /\ (Opens(s) => w[Shut(w, j)] # "}"))
      sub(j) == Read1(w, j + 1, Shut(w, j) - 1)
      num(j) == Value("int", ToString(j))
      str(j) == Value("str", ToString(j))
      arr(k, js, f(_)) == [Value(k, "") EXCEPT !.a = [h \in DOMAIN js |-> f(js[h])]]
      has(s) == at(s) # <<>>
  IN [Value("map", "") EXCEPT !.m =
        [t \in {u \in {"x", "z", "n", "k"} : has(CASE u = "x" -> "i" [] u = "z" -> "a" [] u = "n" -> "(" [] u = "k" -> "[")} |->
           CASE t = "x" -> num(at("i")[1])
             [] t = "n" -> sub(at("(")[1])
             [] t = "z" -> arr("arr", at("a"), str)
             [] t = "k" -> arr("narr", at("["), sub)]]
Law(w) == Read1(w, 1, Len(w))

RECURSIVE Kept(_, _, _), Dropped(_, _, _)
Kept(d, w, o) == IF o = <<>> THEN Doc(d) = Law(w) ELSE Kept(CloseNode1(d), Append(w, Closer(Last1(o))), Front1(o))
Dropped(d, w, o) == IF o = <<>> THEN Doc(d) = Law(w) ELSE Dropped(AbandonNode1(d), Append(w, "}"), Front1(o))
DocumentLaw == Kept(D, cur, open) /\ Dropped(D, cur, open) /\ DocOK(D)
\* a word that ends with open nodes is printed with all of them closed, and with all of them abandoned
RECURSIVE KeptWord(_, _), DroppedWord(_, _)
KeptWord(w, o) == IF o = <<>> THEN w ELSE KeptWord(Append(w, Closer(Last1(o))), Front1(o))
DroppedWord(w, o) == IF o = <<>> THEN w ELSE DroppedWord(Append(w, "}"), Front1(o))
Say(w) == PrintT("@@R " \o ToJson(Append(done, [w |-> w, r |-> "ok", doc |-> Law(w)])))
Predict == n = MAXLEN => Say(KeptWord(cur, open)) /\ (open # <<>> => Say(DroppedWord(cur, open)))
=============================================================================
