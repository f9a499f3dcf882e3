------------------------------ MODULE TplConv --------------------------------
(* The command that converts files: for each file named, in order, its       *)
(* extension selects a grammar, the text is extracted to a document          *)
(* (Extract), and the document is written in the form asked for, to the      *)
(* standard output or to a file beside the input. The first file that cannot *)
(* be converted ends the run. All runs over the kinds of files and options   *)
(* are explored; each is printed as a prediction and replayed on the real    *)
(* command in a scratch tree.                                                *)
EXTENDS Extract, Ticks, Json, IOUtils, FiniteSets, SequencesExt

MAXFILES == atoi(IOEnv.MAXFILES)
Tk == [NoFiles |-> 1, Unreadable |-> 2, NoGrammar |-> 3, BadGrammar |-> 4, ExtractText |-> 5, RefuseText |-> 6, OpenOutput |-> 7, WriteDocument |-> 8,
       NoForm |-> 9, Finish |-> 10]
ASSUME TickStart(Tk)
Report == TickReport("TplConv", Tk)

\* what a file is: what its extension selects, and what happens in its text (symbols of ExtractMC; q: text with markup; r: leaf of the other grammar)
K(there, g, w) == [there |-> there, g |-> g, w |-> w]
Kinds == TLCEval([
  one     |-> K(TRUE, "w", <<"i">>),
  nodes   |-> K(TRUE, "w", <<"(", "i", "a", ")", "[", "a", "]", "[", "i", "]">>),
  dropped |-> K(TRUE, "w", <<"a", "[", "i", "a", "}", "a">>),
  markup  |-> K(TRUE, "w", <<"i", "q", "a", "q">>),
  empty   |-> K(TRUE, "w", <<>>),
  dotted  |-> K(TRUE, "w", <<"a", "i">>),
  other   |-> K(TRUE, "v", <<"r", "r">>),
  refused |-> K(TRUE, "w", <<"i", "p">>),
  unread  |-> K(TRUE, "w", <<"i", "(", "a">>),
  foreign |-> K(TRUE, "v", <<"r", "a">>),
  noext   |-> K(TRUE, "none", <<"i">>),
  inpath  |-> K(TRUE, "none", <<"i">>),
  stop    |-> K(TRUE, "none", <<"i">>),
  unknown |-> K(TRUE, "none", <<"i">>),
  badtpl  |-> K(TRUE, "bad", <<"i">>),
  missing |-> K(FALSE, "w", <<"i">>)])
\* forms: built in (json), templates, and those that are none
Forms == TLCEval([json |-> "json", default |-> "json", html |-> "page", htm |-> "other page", broken |-> "none", gone |-> "none", text |-> "none", xml |-> "none"])

VARIABLES args, form, ext, i, ph, doc, out, files, code
vars == <<args, form, ext, i, ph, doc, out, files, code>>
\* out: documents on the standard output; files: what is written beside each kind of input (op: "old", "new", "open")
Init == /\ \E n \in 0 .. MAXFILES : args \in [1 .. n -> DOMAIN Kinds]
        /\ form \in DOMAIN Forms /\ ext \in {"", "out"}
        /\ i = 0 /\ ph = "begin" /\ doc = DocStart /\ out = <<>> /\ files = [k \in Range(args) |-> [op |-> "old", doc |-> Value("nil", "")]] /\ code = 0
Cur == Kinds[args[i]]
Fixed == UNCHANGED <<args, form, ext>>
Ends(c) == ph' = "end" /\ code' = c
NoFiles == ph = "begin" /\ args = <<>> /\ Ends(1) /\ Tick(Tk.NoFiles) /\ Fixed /\ UNCHANGED <<i, doc, out, files>>
Begin == ph = "begin" /\ args # <<>> /\ i' = 1 /\ ph' = "read" /\ Fixed /\ UNCHANGED <<doc, out, files, code>>
Unreadable == ph = "read" /\ ~Cur.there /\ Ends(2) /\ Tick(Tk.Unreadable) /\ Fixed /\ UNCHANGED <<i, doc, out, files>>
NoGrammar == ph = "read" /\ Cur.there /\ Cur.g = "none" /\ Ends(2) /\ Tick(Tk.NoGrammar) /\ Fixed /\ UNCHANGED <<i, doc, out, files>>
BadGrammar == ph = "read" /\ Cur.there /\ Cur.g = "bad" /\ Ends(2) /\ Tick(Tk.BadGrammar) /\ Fixed /\ UNCHANGED <<i, doc, out, files>>
\* what the symbols of a text do
QText == "<b>&'x"
Does(D, s, j) == CASE s = "i" -> Leaf(D, MarkOf("x_Int"), Value("int", ToString(j)))
                   [] s = "a" -> Leaf(D, MarkOf("z_Strings"), Value("str", ToString(j)))
                   [] s = "q" -> Leaf(D, MarkOf("z_Strings"), Value("str", QText))
                   [] s = "r" -> Leaf(D, MarkOf("y_Ints"), Value("int", ToString(j)))
                   [] s = "(" -> OpenNode1(D, MarkOf("n_Node"))
                   [] s = "[" -> OpenNode1(D, MarkOf("k_NodeArray"))
                   [] s \in {")", "]"} -> CloseNode1(D)
                   [] s = "}" -> AbandonNode1(D)
                   [] OTHER -> FailAs(D, "fail")
Collected == FoldLeft(LAMBDA a, j : TLCEval([d |-> Does(a.d, Cur.w[j], j), b |-> a.b]), [d |-> DocStart, b |-> 0], [j \in DOMAIN Cur.w |-> j]).d
\* symbols the grammar does not know, values that cannot be converted, nodes left open: no document
Symbols(g) == IF g = "v" THEN {"r"} ELSE {"i", "a", "q", "(", ")", "[", "]", "}"}
Good == Range(Cur.w) \subseteq Symbols(Cur.g) /\ Collected.err = "" /\ Collected.tr = <<>>
Extracting == ph = "read" /\ Cur.there /\ Cur.g \in {"w", "v"}
ExtractText == Extracting /\ Good /\ doc' = Collected /\ ph' = "open" /\ Tick(Tk.ExtractText) /\ Fixed /\ UNCHANGED <<i, out, files, code>>
RefuseText == Extracting /\ ~Good /\ Ends(2) /\ Tick(Tk.RefuseText) /\ Fixed /\ UNCHANGED <<i, doc, out, files>>
\* the file to write is made; what it holds if the run ends now is left open
OpenOutput == ph = "open" /\ ph' = "write" /\ files' = (IF ext = "" THEN files ELSE [files EXCEPT ![args[i]].op = "open"])
              /\ Tick(Tk.OpenOutput) /\ Fixed /\ UNCHANGED <<i, doc, out, code>>
WriteDocument == /\ ph = "write" /\ Forms[form] # "none"
                 /\ out' = (IF ext = "" THEN Append(out, Doc(doc)) ELSE out)
                 /\ files' = (IF ext = "" THEN files ELSE [files EXCEPT ![args[i]] = [op |-> "new", doc |-> Doc(doc)]])
                 /\ i' = i + 1 /\ ph' = IF i < Len(args) THEN "read" ELSE "finish"
                 /\ Tick(Tk.WriteDocument) /\ Fixed /\ UNCHANGED <<doc, code>>
NoForm == ph = "write" /\ Forms[form] = "none" /\ Ends(2) /\ Tick(Tk.NoForm) /\ Fixed /\ UNCHANGED <<i, doc, out, files>>
Finish == ph = "finish" /\ Ends(0) /\ Tick(Tk.Finish) /\ Fixed /\ UNCHANGED <<i, doc, out, files>>
Next == NoFiles \/ Begin \/ Unreadable \/ NoGrammar \/ BadGrammar \/ ExtractText \/ RefuseText \/ OpenOutput \/ WriteDocument \/ NoForm \/ Finish
Spec == Init /\ [][Next]_vars

\* --- what the command guarantees --------------------------------------------------------
OneSink == (ext = "" => \A k \in DOMAIN files : files[k].op = "old") /\ (ext # "" => out = <<>>)
\* what is written is a prefix of what was asked for, and all of it exactly when the run succeeds
Prefix == /\ ext = "" => Len(out) = IF i = 0 THEN 0 ELSE IF ph = "end" /\ code = 0 THEN Len(args) ELSE i - 1
          /\ \A j \in DOMAIN args : j < i /\ ext # "" => files[args[j]].op \in {"new", "open"}
          /\ \A j \in DOMAIN args : j > i /\ (\A h \in 1 .. i : h < j => args[h] # args[j]) => files[args[j]].op = "old"
AllOrError == ph = "end" => (code = 0) = (i > Len(args) /\ args # <<>>)
DocumentOK == DocOK(doc)
Predict == ph = "end" => PrintT("@@R " \o ToJson([args |-> args, form |-> form, ext |-> ext, code |-> code, out |-> out, files |-> files]))
==============================================================================
