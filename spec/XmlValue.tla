------------------------------- MODULE XmlValue -------------------------------
(***************************************************************************)
(* What a configuration says: a reader of XML over code points that builds *)
(* the tree of elements.                                                   *)
(*                                                                         *)
(* An element is <<"e", name, set of <<attribute, value>>, content>>; its  *)
(* content is a sequence of elements and characters.  Comments and         *)
(* processing instructions say nothing; references and CDATA               *)
(* sections stand for their characters.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Space == {32, 9, 10, 13}
Lt == 60  Gt == 62  Slash == 47  Quest == 63  Bang == 33  Amp == 38  Quote == 34  Apos == 39  Equal == 61  Semi == 59  Hash == 35  Minus == 45  RBrack == 93
Letter == (65..90) \cup (97..122) \cup {95}
NameChar == Letter \cup (48..57) \cup {45, 46}
Hex == [ ch \in (48..57) \cup (65..70) \cup (97..102) |-> IF ch <= 57 THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87 ]

(* Named references: lt gt amp quot apos.                                  *)
Named == { <<<<108, 116>>, 60>>, <<<<103, 116>>, 62>>, <<<<97, 109, 112>>, 38>>, <<<<113, 117, 111, 116>>, 34>>, <<<<97, 112, 111, 115>>, 39>> }
CDataOpen == <<91, 67, 68, 65, 84, 65, 91>>       \* [CDATA[

(* frames are the open elements, innermost first; the outermost is the     *)
(* document.  tok is what has been read of a name, reference or markup;    *)
(* back is the mode a reference returns to.                                *)
NoElement == [name |-> << >>, attrs |-> {}, kids |-> << >>]
Begin == [mode |-> "text", frames |-> <<NoElement>>, cur |-> NoElement, attr |-> << >>, val |-> << >>, tok |-> << >>, back |-> ""]

To(x, m) == [x EXCEPT !.mode = m]
Bad(x)   == To(x, "bad")
Kid(x, k) == [x EXCEPT !.frames[1].kids = Append(@, k)]
Char(x, ch) == Kid(x, <<"c", ch>>)

Opened(x) == [x EXCEPT !.mode = "text", !.frames = <<x.cur>> \o @]
Single(x) == [Kid(x, <<"e", x.cur.name, x.cur.attrs, << >>>>) EXCEPT !.mode = "text"]
Closed(x) == IF Len(x.frames) = 1 \/ x.frames[1].name # x.tok THEN Bad(x)
             ELSE LET f == x.frames[1] IN [Kid([x EXCEPT !.frames = Tail(@)], <<"e", f.name, f.attrs, f.kids>>) EXCEPT !.mode = "text"]
AttrEnd(x) == IF \E p \in x.cur.attrs : p[1] = x.attr THEN Bad(x)
              ELSE [x EXCEPT !.cur.attrs = @ \cup {<<x.attr, x.val>>}, !.mode = "attrs"]

RECURSIVE Number(_, _, _)
Number(s, base, acc) == IF s = << >> THEN acc ELSE IF s[1] \notin DOMAIN Hex \/ Hex[s[1]] >= base \/ acc > 1200000 THEN -1 ELSE Number(Tail(s), base, acc * base + Hex[s[1]])
Reference(tok) ==
  IF Len(tok) > 1 /\ tok[1] = Hash
  THEN IF tok[2] = 120 THEN (IF Len(tok) = 2 THEN -1 ELSE Number(SubSeq(tok, 3, Len(tok)), 16, 0)) ELSE Number(Tail(tok), 10, 0)
  ELSE IF \E p \in Named : p[1] = tok THEN (CHOOSE p \in Named : p[1] = tok)[2] ELSE -1
Referred(x) == LET ch == Reference(x.tok) IN
  IF ch < 0 THEN Bad(x) ELSE IF x.back = "text" THEN To(Char(x, ch), "text") ELSE [x EXCEPT !.mode = x.back, !.val = Append(@, ch)]
Refer(x) == [x EXCEPT !.mode = "ref", !.tok = << >>, !.back = x.mode]

Take(x, ch) ==
  CASE x.mode = "bad"   -> x
    [] x.mode = "text"  -> IF ch = Lt THEN To(x, "lt") ELSE IF ch = Amp THEN Refer(x) ELSE Char(x, ch)
    [] x.mode = "ref"   -> IF ch = Semi THEN Referred(x) ELSE [x EXCEPT !.tok = Append(@, ch)]
    [] x.mode = "lt"    -> IF ch = Slash THEN [x EXCEPT !.mode = "end", !.tok = << >>]
                           ELSE IF ch = Quest THEN To(x, "pi")
                           ELSE IF ch = Bang THEN [x EXCEPT !.mode = "bang", !.tok = << >>]
                           ELSE IF ch \in Letter THEN [x EXCEPT !.mode = "name", !.cur = [NoElement EXCEPT !.name = <<ch>>]]
                           ELSE Bad(x)
    [] x.mode = "pi"    -> IF ch = Quest THEN To(x, "pi2") ELSE x
    [] x.mode = "pi2"   -> IF ch = Gt THEN To(x, "text") ELSE IF ch = Quest THEN x ELSE To(x, "pi")
    [] x.mode = "bang"  -> LET t == Append(x.tok, ch) IN
                           IF t = <<Minus, Minus>> THEN [x EXCEPT !.mode = "comment", !.tok = << >>]
                           ELSE IF t = CDataOpen THEN [x EXCEPT !.mode = "cdata", !.tok = << >>]
                           ELSE IF t = <<Minus>> \/ t = SubSeq(CDataOpen, 1, Len(t)) THEN [x EXCEPT !.tok = t]
                           ELSE Bad(x)
    [] x.mode = "comment" -> IF x.tok = <<Minus, Minus>> THEN (IF ch = Gt THEN To(x, "text") ELSE Bad(x))
                             ELSE [x EXCEPT !.tok = IF ch = Minus THEN Append(@, ch) ELSE << >>]
    [] x.mode = "cdata" -> IF ch = Gt /\ x.tok = <<RBrack, RBrack>> THEN To(x, "text")
                           ELSE IF ch = RBrack /\ x.tok = <<RBrack, RBrack>> THEN Char(x, ch)
                           ELSE IF ch = RBrack THEN [x EXCEPT !.tok = Append(@, ch)]
                           ELSE [FoldLeft(Char, x, Append(x.tok, ch)) EXCEPT !.tok = << >>]
    [] x.mode = "name"  -> IF ch \in NameChar THEN [x EXCEPT !.cur.name = Append(@, ch)]
                           ELSE IF ch \in Space THEN To(x, "attrs")
                           ELSE IF ch = Slash THEN To(x, "single")
                           ELSE IF ch = Gt THEN Opened(x) ELSE Bad(x)
    [] x.mode = "attrs" -> IF ch \in Space THEN x
                           ELSE IF ch \in Letter THEN [x EXCEPT !.mode = "attr", !.attr = <<ch>>]
                           ELSE IF ch = Slash THEN To(x, "single")
                           ELSE IF ch = Gt THEN Opened(x) ELSE Bad(x)
    [] x.mode = "attr"  -> IF ch \in NameChar THEN [x EXCEPT !.attr = Append(@, ch)]
                           ELSE IF ch \in Space THEN To(x, "equal")
                           ELSE IF ch = Equal THEN To(x, "value") ELSE Bad(x)
    [] x.mode = "equal" -> IF ch \in Space THEN x ELSE IF ch = Equal THEN To(x, "value") ELSE Bad(x)
    [] x.mode = "value" -> IF ch \in Space THEN x
                           ELSE IF ch = Quote THEN [x EXCEPT !.mode = "dq", !.val = << >>]
                           ELSE IF ch = Apos THEN [x EXCEPT !.mode = "sq", !.val = << >>] ELSE Bad(x)
    [] x.mode \in {"dq", "sq"} ->
         IF ch = (IF x.mode = "dq" THEN Quote ELSE Apos) THEN AttrEnd(x)
         ELSE IF ch = Amp THEN Refer(x) ELSE IF ch = Lt THEN Bad(x) ELSE [x EXCEPT !.val = Append(@, ch)]
    [] x.mode = "single" -> IF ch = Gt THEN Single(x) ELSE Bad(x)
    [] x.mode = "end"   -> IF ch \in NameChar THEN [x EXCEPT !.tok = Append(@, ch)]
                           ELSE IF ch \in Space THEN To(x, "endsp") ELSE IF ch = Gt THEN Closed(x) ELSE Bad(x)
    [] x.mode = "endsp" -> IF ch \in Space THEN x ELSE IF ch = Gt THEN Closed(x) ELSE Bad(x)

Built(text) == FoldLeft(Take, Begin, text)

(* Elements that have elements: the white space between those says nothing *)
(* and, but for elements of the same name, nor does their order.           *)
IsBlank(k) == k[1] = "c" /\ k[2] \in Space \cup {65279}
RECURSIVE Meaning(_)
Meaning(e) ==
  LET kids == SelectSeq(e[4], LAMBDA k : k[1] = "e") IN
  IF kids = << >> THEN e
  ELSE LET ms    == [ n \in DOMAIN kids |-> Meaning(kids[n]) ]
           names == { ms[n][2] : n \in DOMAIN ms }
           rest  == SelectSeq(e[4], LAMBDA k : k[1] = "c" /\ ~IsBlank(k))
       IN  <<"e", e[2], e[3], rest, { <<a, SelectSeq(ms, LAMBDA m : m[2] = a)>> : a \in names }>>

Whole(x) == x.mode = "text" /\ Len(x.frames) = 1 /\ LET ks == SelectSeq(x.frames[1].kids, LAMBDA k : ~IsBlank(k)) IN Len(ks) = 1 /\ ks[1][1] = "e"
Says(text) == Whole(Built(text))
ValueOf(text) == Meaning(SelectSeq(Built(text).frames[1].kids, LAMBDA k : k[1] = "e")[1])
=============================================================================
