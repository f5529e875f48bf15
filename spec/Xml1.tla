-------------------------------- MODULE Xml1 --------------------------------
(***************************************************************************)
(* Whether a text is a whole XML element, as a machine over code points    *)
(* with a stack of open elements.  Around the element there may be         *)
(* processing instructions, but no text.  What is rare in a configuration  *)
(* (comments, entities, control characters) is left open: mode "odd".      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Space == {32, 9, 10, 13}
Lt == 60  Gt == 62  Slash == 47  Quest == 63  Bang == 33  Amp == 38  Quote == 34  Apos == 39  Equal == 61
Letter == (65..90) \cup (97..122) \cup {95}
NameChar == Letter \cup (48..57) \cup {45, 46}

Start == [mode |-> "text", stack |-> << >>, name |-> << >>]
To(r, m) == [r EXCEPT !.mode = m]

Open(r)  == [r EXCEPT !.mode = "text", !.stack = <<r.name>> \o @, !.name = << >>]
Single(r) == [r EXCEPT !.mode = IF r.stack = << >> THEN "done" ELSE "text", !.name = << >>]
Close(r) == IF r.stack = << >> \/ r.stack[1] # r.name THEN To(r, "bad")
            ELSE [r EXCEPT !.mode = IF Len(r.stack) = 1 THEN "done" ELSE "text", !.stack = Tail(@), !.name = << >>]
Odd(ch)  == ch = Amp \/ (ch < 32 /\ ch \notin Space) \/ ch > 126

Read(r, ch) ==
  IF r.mode \in {"bad", "odd"} THEN r
  ELSE IF Odd(ch) THEN To(r, "odd")
  ELSE CASE r.mode = "text"  -> IF ch = Lt THEN To(r, "lt") ELSE IF ch = Gt THEN To(r, "odd")
                                ELSE IF r.stack = << >> /\ ch \notin Space THEN To(r, "bad") ELSE r
         [] r.mode = "lt"    -> IF ch = Slash THEN [r EXCEPT !.mode = "end", !.name = << >>]
                                ELSE IF ch = Quest THEN To(r, "pi")
                                ELSE IF ch \in Letter THEN [r EXCEPT !.mode = "name", !.name = <<ch>>]
                                ELSE IF ch = Bang THEN To(r, "odd") ELSE To(r, "bad")
         [] r.mode = "pi"    -> IF ch = Quest THEN To(r, "piend") ELSE r
         [] r.mode = "piend" -> IF ch = Gt THEN To(r, "text") ELSE IF ch = Quest THEN r ELSE To(r, "pi")
         [] r.mode = "name"  -> IF ch \in NameChar THEN [r EXCEPT !.name = Append(@, ch)]
                                ELSE IF ch \in Space THEN To(r, "attrs")
                                ELSE IF ch = Slash THEN To(r, "single")
                                ELSE IF ch = Gt THEN Open(r) ELSE To(r, "odd")
         [] r.mode = "attrs" -> IF ch \in Space \/ ch \in NameChar \/ ch = Equal THEN r
                                ELSE IF ch = Quote THEN To(r, "dq") ELSE IF ch = Apos THEN To(r, "sq")
                                ELSE IF ch = Slash THEN To(r, "single")
                                ELSE IF ch = Gt THEN Open(r) ELSE To(r, "odd")
         [] r.mode = "dq"    -> IF ch = Quote THEN To(r, "attrs") ELSE IF ch = Lt THEN To(r, "odd") ELSE r
         [] r.mode = "sq"    -> IF ch = Apos THEN To(r, "attrs") ELSE IF ch = Lt THEN To(r, "odd") ELSE r
         [] r.mode = "single" -> IF ch = Gt THEN Single(r) ELSE To(r, "bad")
         [] r.mode = "end"   -> IF ch \in NameChar THEN [r EXCEPT !.name = Append(@, ch)]
                                ELSE IF ch \in Space THEN To(r, "endsp")
                                ELSE IF ch = Gt THEN Close(r) ELSE To(r, "odd")
         [] r.mode = "done"  -> IF ch = Lt THEN To(r, "after") ELSE IF ch \in Space THEN r ELSE To(r, "bad")
         [] r.mode = "after" -> IF ch = Quest THEN To(r, "api") ELSE IF ch = Bang THEN To(r, "odd") ELSE To(r, "bad")
         [] r.mode = "api"   -> IF ch = Quest THEN To(r, "apiend") ELSE r
         [] r.mode = "apiend" -> IF ch = Gt THEN To(r, "done") ELSE IF ch = Quest THEN r ELSE To(r, "api")
         [] r.mode = "endsp" -> IF ch \in Space THEN r ELSE IF ch = Gt THEN Close(r) ELSE To(r, "bad")

Run(text) == FoldLeft(Read, Start, text)

(* "whole", "odd" (can't say) or "broken".                                 *)
Fate(text) == LET m == Run(text).mode IN IF m = "done" THEN "whole" ELSE IF m = "odd" THEN "odd" ELSE "broken"
=============================================================================
