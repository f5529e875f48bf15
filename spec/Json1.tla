-------------------------------- MODULE Json1 --------------------------------
(***************************************************************************)
(* A reader of JSON, as a machine over code points with a stack.           *)
(*                                                                         *)
(* It reads the one value of a text, and no more may come after it.  Run   *)
(* ends in mode "done" if there is one, "bad" if the text goes wrong, and  *)
(* anything else if it stops too early.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Space == {32, 9, 10, 13}
Digit == 48..57
Hex   == Digit \cup (65..70) \cup (97..102)
Quote == 34  Back == 92  Comma == 44  Colon == 58  LBrack == 91  RBrack == 93  LBrace == 123  RBrace == 125  Minus == 45
Escapes == {34, 92, 47, 98, 102, 110, 114, 116}     \* " \ / b f n r t

True1 == <<114, 117, 101>>  False1 == <<97, 108, 115, 101>>  Null1 == <<117, 108, 108>>   \* after the first letter

(* mode, the enclosing containers (innermost first: "a" or "o"), whether   *)
(* the string being read is a key, and what is left of a literal.          *)
Start == [mode |-> "val", stack |-> << >>, key |-> FALSE, lit |-> << >>]

To(r, m)  == [r EXCEPT !.mode = m]
Bad(r)    == To(r, "bad")
(* A value has ended.                                                      *)
Ended(r)  == IF r.stack = << >> THEN To(r, "done") ELSE To(r, "after")
Open(r, k, m) == [r EXCEPT !.mode = m, !.stack = <<k>> \o @]
Close(r)  == Ended([r EXCEPT !.stack = Tail(@)])

AfterValue(r, ch) ==
  IF ch \in Space THEN To(r, "after")
  ELSE IF ch = Comma THEN To(r, IF r.stack[1] = "a" THEN "val" ELSE "key")
  ELSE IF ch = RBrack /\ r.stack[1] = "a" THEN Close(r)
  ELSE IF ch = RBrace /\ r.stack[1] = "o" THEN Close(r)
  ELSE Bad(r)

(* A number has ended at ch, which is not part of it.                      *)
NumberEnd(r, ch) == IF r.stack = << >> THEN (IF ch \in Space THEN To(r, "done") ELSE Bad(r)) ELSE AfterValue(r, ch)

Value(r, ch) ==
  CASE ch \in Space     -> r
    [] ch = Quote       -> [r EXCEPT !.mode = "str", !.key = FALSE]
    [] ch = LBrack      -> Open(r, "a", "first")
    [] ch = LBrace      -> Open(r, "o", "keyfirst")
    [] ch = Minus       -> To(r, "minus")
    [] ch = 48          -> To(r, "zero")
    [] ch \in 49..57    -> To(r, "int")
    [] ch = 116         -> [r EXCEPT !.mode = "lit", !.lit = True1]
    [] ch = 102         -> [r EXCEPT !.mode = "lit", !.lit = False1]
    [] ch = 110         -> [r EXCEPT !.mode = "lit", !.lit = Null1]
    [] OTHER            -> Bad(r)

Read(r, ch) ==
  CASE r.mode = "bad" -> r
    [] r.mode = "done" -> IF ch \in Space THEN r ELSE Bad(r)
    [] r.mode = "val"      -> Value(r, ch)
    [] r.mode = "first"    -> IF ch = RBrack THEN Close(r) ELSE IF ch \in Space THEN r ELSE Value(r, ch)
    [] r.mode \in {"key", "keyfirst"} ->
         IF ch \in Space THEN r
         ELSE IF ch = Quote THEN [r EXCEPT !.mode = "str", !.key = TRUE]
         ELSE IF ch = RBrace /\ r.mode = "keyfirst" THEN Close(r)
         ELSE Bad(r)
    [] r.mode = "colon"    -> IF ch \in Space THEN r ELSE IF ch = Colon THEN To(r, "val") ELSE Bad(r)
    [] r.mode = "after"    -> AfterValue(r, ch)
    [] r.mode = "str"      -> IF ch = Quote THEN (IF r.key THEN To(r, "colon") ELSE Ended(r))
                              ELSE IF ch = Back THEN To(r, "esc")
                              ELSE IF ch < 32 THEN Bad(r) ELSE r
    [] r.mode = "esc"      -> IF ch \in Escapes THEN To(r, "str") ELSE IF ch = 117 THEN To(r, "u1") ELSE Bad(r)
    [] r.mode = "u1"       -> IF ch \in Hex THEN To(r, "u2") ELSE Bad(r)
    [] r.mode = "u2"       -> IF ch \in Hex THEN To(r, "u3") ELSE Bad(r)
    [] r.mode = "u3"       -> IF ch \in Hex THEN To(r, "u4") ELSE Bad(r)
    [] r.mode = "u4"       -> IF ch \in Hex THEN To(r, "str") ELSE Bad(r)
    [] r.mode = "lit"      -> IF ch # r.lit[1] THEN Bad(r)
                              ELSE IF Len(r.lit) = 1 THEN Ended(r) ELSE [r EXCEPT !.lit = Tail(@)]
    [] r.mode = "minus"    -> IF ch = 48 THEN To(r, "zero") ELSE IF ch \in 49..57 THEN To(r, "int") ELSE Bad(r)
    [] r.mode = "zero"     -> IF ch = 46 THEN To(r, "dot") ELSE IF ch \in {69, 101} THEN To(r, "exp") ELSE NumberEnd(r, ch)
    [] r.mode = "int"      -> IF ch \in Digit THEN r ELSE IF ch = 46 THEN To(r, "dot") ELSE IF ch \in {69, 101} THEN To(r, "exp") ELSE NumberEnd(r, ch)
    [] r.mode = "dot"      -> IF ch \in Digit THEN To(r, "frac") ELSE Bad(r)
    [] r.mode = "frac"     -> IF ch \in Digit THEN r ELSE IF ch \in {69, 101} THEN To(r, "exp") ELSE NumberEnd(r, ch)
    [] r.mode = "exp"      -> IF ch \in Digit THEN To(r, "expd") ELSE IF ch \in {43, 45} THEN To(r, "exps") ELSE Bad(r)
    [] r.mode = "exps"     -> IF ch \in Digit THEN To(r, "expd") ELSE Bad(r)
    [] r.mode = "expd"     -> IF ch \in Digit THEN r ELSE NumberEnd(r, ch)

Run(text) == FoldLeft(Read, Start, text)

(* A text is a value.  At its end, a number outside of any                 *)
(* container is one.                                                       *)
Complete(text) == LET r == Run(text) IN r.mode = "done" \/ (r.stack = << >> /\ r.mode \in {"zero", "int", "frac", "expd"})
=============================================================================
