------------------------------- MODULE TplGen --------------------------------
(* The command that writes the static compiler of a grammar declared in a    *)
(* package: it removes the old output, reads the declarations of the package *)
(* in order, takes the first literal given to the name asked for, generates  *)
(* its code and writes it. A name without a literal is passed over; without  *)
(* any, or when the text is no grammar, the run fails and leaves no output.  *)
(* All short sequences of declarations are explored; each is printed as a    *)
(* prediction and replayed with the real command.                            *)
EXTENDS Ticks, Json, IOUtils, Sequences, Naturals, FiniteSets

MAXDECLS == atoi(IOEnv.MAXDECLS)
Tk == [RemoveOld |-> 1, PassOver |-> 2, Take |-> 3, NextDeclaration |-> 4, NotFound |-> 5, Refuse |-> 6, Write |-> 7]
ASSUME TickStart(Tk)
Report == TickReport("TplGen", Tk)

\* a declaration is a list of places where names get values; n: is it the name, v: what it gets
P(n, v) == [n |-> n, v |-> v]
Kinds == TLCEval([
  const    |-> <<P(TRUE, "lit")>>,
  var      |-> <<P(TRUE, "lit")>>,
  group    |-> <<P(FALSE, "lit"), P(TRUE, "lit"), P(FALSE, "lit")>>,
  several  |-> <<P(FALSE, "lit"), P(TRUE, "lit"), P(FALSE, "lit")>>,
  define   |-> <<P(FALSE, "lit"), P(TRUE, "lit")>>,
  assign   |-> <<P(TRUE, "none"), P(TRUE, "lit")>>,
  method   |-> <<P(TRUE, "lit")>>,
  twice    |-> <<P(TRUE, "call"), P(TRUE, "lit"), P(TRUE, "bad")>>,
  longer   |-> <<P(FALSE, "lit")>>,
  shorter  |-> <<P(FALSE, "lit")>>,
  cased    |-> <<P(FALSE, "lit"), P(FALSE, "lit")>>,
  novalue  |-> <<P(TRUE, "none")>>,
  iota     |-> <<P(FALSE, "call"), P(TRUE, "none")>>,
  call     |-> <<P(TRUE, "call")>>,
  pair     |-> <<P(FALSE, "call"), P(TRUE, "call")>>,
  defpair  |-> <<P(FALSE, "call"), P(TRUE, "call")>>,
  field    |-> <<>>,
  param    |-> <<>>,
  nobody   |-> <<>>,
  broken   |-> <<P(TRUE, "bad")>>])

VARIABLES decls, name, i, p, ph, took, code, old
vars == <<decls, name, i, p, ph, took, code, old>>
\* name: which name is asked for; i, p: declaration and place reached; took: the declaration whose literal is taken; old: the old output is there
Init == /\ \E n \in 0 .. MAXDECLS : decls \in [1 .. n -> DOMAIN Kinds]
        /\ name \in {"default", "given"}
        /\ i = 1 /\ p = 1 /\ ph = "begin" /\ took = 0 /\ code = 0 /\ old = TRUE
Fixed == UNCHANGED <<decls, name>>
RemoveOld == ph = "begin" /\ old' = FALSE /\ ph' = "search" /\ Tick(Tk.RemoveOld) /\ Fixed /\ UNCHANGED <<i, p, took, code>>
More == ph = "search" /\ i <= Len(decls)
Here == Kinds[decls[i]][p]
InDecl == More /\ p <= Len(Kinds[decls[i]])
Literal == Here.n /\ Here.v \in {"lit", "bad"}
PassOver == InDecl /\ ~Literal /\ p' = p + 1 /\ Tick(Tk.PassOver) /\ Fixed /\ UNCHANGED <<i, ph, took, code, old>>
Take == InDecl /\ Literal /\ took' = i /\ ph' = "generate" /\ Tick(Tk.Take) /\ Fixed /\ UNCHANGED <<i, p, code, old>>
NextDeclaration == More /\ ~InDecl /\ i' = i + 1 /\ p' = 1 /\ Tick(Tk.NextDeclaration) /\ Fixed /\ UNCHANGED <<ph, took, code, old>>
NotFound == ph = "search" /\ ~More /\ ph' = "end" /\ code' = 1 /\ Tick(Tk.NotFound) /\ Fixed /\ UNCHANGED <<i, p, took, old>>
Refuse == ph = "generate" /\ Here.v = "bad" /\ ph' = "end" /\ code' = 1 /\ Tick(Tk.Refuse) /\ Fixed /\ UNCHANGED <<i, p, took, old>>
Write == ph = "generate" /\ Here.v = "lit" /\ ph' = "written" /\ Tick(Tk.Write) /\ Fixed /\ UNCHANGED <<i, p, took, code, old>>
Next == RemoveOld \/ PassOver \/ Take \/ NextDeclaration \/ NotFound \/ Refuse \/ Write
Spec == Init /\ [][Next]_vars

Over == ph \in {"end", "written"}
Gives(k) == \E j \in DOMAIN Kinds[k] : Kinds[k][j].n /\ Kinds[k][j].v \in {"lit", "bad"}
\* declaratively: the declaration taken is the first that gives a literal
FirstTaken == Over => LET gs == {j \in DOMAIN decls : Gives(decls[j])} IN
  IF gs = {} THEN took = 0 /\ code = 1 ELSE took = (CHOOSE j \in gs : \A h \in gs : j <= h)
OldGone == ph # "begin" => ~old
WrittenOrError == Over => (ph = "written") = (code = 0)
Predict == Over => PrintT("@@R " \o ToJson([decls |-> decls, name |-> name, took |-> took, code |-> code]))
==============================================================================
