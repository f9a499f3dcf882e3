------------------------------- MODULE Script -------------------------------
(* An interpreter written in the script language (tpl/qlang/cl/interpreter): *)
(* its grammar, stack and table of functions come from methods of script     *)
(* objects. The engine is that of Interp.tla; what differs is how a mark     *)
(* chooses the argument of its function (by its last word, not by a          *)
(* parameter type), that a function's single result goes to a scripted       *)
(* stack, and that errors reach the caller unwrapped.                        *)
(*                                                                           *)
(* A binding has besides go: a function of the host (operands are converted  *)
(* to its parameter types); methods and functions of the script take         *)
(* anything.                                                                 *)
EXTENDS Interp

\* the mark from its last upper-case letter to its end
Uppers(s) == {j \in 1 .. Len(s) : Ch(s, j) \in Upper}
LastWord(s) == IF Uppers(s) = {} THEN "" ELSE LET j == CHOOSE j \in Uppers(s) : \A k \in Uppers(s) : k <= j IN SubSeq(s, j, Len(s))

ScrAdmissible(f) ==
  /\ f.shape = "func"
  /\ f.recv = "none" => f.p # <<>>
  /\ f.recv # "none" => Len(f.p) <= 1
ScrMarksOK(fns, marks) ==
  \A j \in DOMAIN marks : LET b == BindingOf(fns, marks[j]) IN
    IF b = 0 THEN marks[j] \in BuiltIn ELSE ScrAdmissible(fns[b])

\* errors keep no place; one of the match is a failed match for the caller
ScrRaise(E, msg) == Raise(E, "rt", msg, "?")
ScrOutcome(cls) == IF cls = "abort" THEN "fail" ELSE cls
ScrBack(E, f, cls) ==
  LET said(r) == Done1(Note(E, [e |-> "back", f |-> f.mark, r |-> "", a |-> <<r>>])) IN
  IF cls = "" THEN said("ok")
  ELSE IF f.mode = "ret" THEN (IF cls = "fail" THEN Raise(E, "abort", "", "") ELSE ScrRaise(E, IF cls = "nogrammar" THEN cls ELSE "*"))
  ELSE said(cls)

\* <<ok, shown, value>> of the argument behind the receiver
ScrSecond(E, ev, mark) ==
  IF IsLen(mark) THEN <<TRUE, "i" \o Dig(ev.l), Val("int", Dig(ev.l))>>
  ELSE LET w == LastWord(mark)
           t == CASE w = "Int" -> "int" [] w = "Float" -> "float64" [] OTHER -> "string"
       IN IF w = "Src" THEN <<TRUE, IF ev.n = 0 THEN "nil" ELSE "T" \o Seen(E, ev.x, ev.first, ev.n), Nil>>
          ELSE IF w = "Engine" THEN <<TRUE, "E", Nil>>
          ELSE IF ev.n = 0 THEN <<FALSE, "", Nil>>
          ELSE LET c == Convert(t, TextOf(E, ev.x).k[ev.first + 1].lit) IN
               IF c[1] THEN <<TRUE, Show1(c[2]), c[2]>> ELSE <<FALSE, "", Nil>>
ScrArgs(E, ev, mark, f) ==
  IF f.p = <<>> THEN <<TRUE, <<>>, Nil>>
  ELSE LET s == ScrSecond(E, ev, mark) IN IF s[1] THEN <<TRUE, <<s[2]>>, s[3]>> ELSE <<FALSE, <<>>, Nil>>

ScrBody(E0, rd, f, ev, v) ==
  LET E == Counted(E0, f.mark)
      fails == f.do = "fail" /\ (f.on = 0 \/ f.on = Calls(E, f.mark))
  IN CASE f.do = "push" -> Done1([E EXCEPT !.stk = Append(@, Val("int", Dig(f.on)))])
       [] f.do = "pusharg" -> Done1([E EXCEPT !.stk = Append(@, v)])
       [] f.do = "cap" -> Done1([E EXCEPT !.caps = Append(@, [x |-> ev.x, a |-> ev.first, b |-> ev.first + ev.n])])
       [] fails -> IF f.how = "other" THEN Raise(E, "raw", f.mark, "") ELSE ScrRaise(E, "E" \o f.mark)
       [] f.do = "run" /\ CanRun(E) ->
            LET c == CapAt(E, f.cap)
                E2 == [E EXCEPT !.fuel = @ - 1]
            IN IF ~Has(rd.rules, f.rule) THEN ScrBack(E2, f, "nogrammar")
               ELSE IF f.how = "nocode" THEN ScrBack(E2, f, "other")
               ELSE [E2 EXCEPT !.ev = <<>>, !.ip = f.ip, !.mute = 0,
                               !.fr = Append(@, Frame2(PegStart(Get(rd.rules, f.rule).n, 0), c.x, c.a, c.b, f, ev, E.ip, E.mute))]
       [] OTHER -> Done1(E)
ScrCalled(E, rd, mark, f) ==
  LET ev == E.ev[1]
      a == ScrArgs(E, ev, mark, f)
      r == IF f.recv = "stk" THEN "stk" ELSE "ip" \o Dig(E.ip)
  IN IF ~a[1] THEN ScrRaise(E, "*")
     ELSE ScrBody(Note(E, [e |-> "call", f |-> mark, r |-> r, a |-> a[2]]), rd, f, ev, a[3])

\* operands come off the scripted stack, the first result (or nil) goes onto it
ScrOnStack(E, rd, mark, f) ==
  LET ev == E.ev[1]
      n == Len(f.p)
      h == Len(E.stk)
  IN IF h < n THEN ScrRaise(E, "*")
     ELSE LET args == [j \in 1 .. n |-> IF f.go THEN Operand(E.stk[h - n + j], f.p[j]) ELSE <<TRUE, E.stk[h - n + j]>>]
              E2 == [E EXCEPT !.stk = SubSeq(@, 1, h - n)]
          IN IF \E j \in 1 .. n : ~args[j][1] THEN ScrRaise(E2, "*")
             ELSE LET E3 == Note(E2, [e |-> "call", f |-> mark, r |-> "none", a |-> [j \in 1 .. n |-> Show1(args[j][2])]])
                      E4 == ScrBody(E3, rd, f, ev, Nil)
                  IN IF E4.err # <<>> THEN E4
                     ELSE [E4 EXCEPT !.stk = Append(@, IF f.out = <<>> THEN Nil ELSE ResultOf(f.out[1], 1))]

ScrLeave(E) ==
  LET f == Top1(E)
      m == f.m
  IN IF m.md = "abort" THEN Raise(E, "abort", "", "")
     ELSE ScrBack(Restore(E), f.f, IF m.ok /\ m.c = f.b - f.a THEN "" ELSE "fail")
=============================================================================
