----------------------------- MODULE MCNotation -----------------------------
(***************************************************************************)
(* The readers of JsonValue and XmlValue undo every way of writing: for    *)
(* all small values and all choices a writer has, reading gives the value. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

J == INSTANCE JsonValue
X == INSTANCE XmlValue

CONSTANTS JsonDepth, JsonChars, XmlChars

VARIABLES kind, value, text

(* --- JSON: all texts for a value, with at most one blank at a place.     *)
Ws == {<< >>, <<32>>}
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
U(n) == <<92, 117, HexDigit(n \div 4096), HexDigit((n \div 256) % 16), HexDigit((n \div 16) % 16), HexDigit(n % 16)>>
JChar(ch) == IF ch > 65535 THEN {<<ch>>, U(55296 + (ch - 65536) \div 1024) \o U(56320 + ((ch - 65536) % 1024))}
             ELSE {U(ch)} \cup (IF ch \in {34, 92} THEN {<<92, ch>>} ELSE IF ch = 47 THEN {<<ch>>, <<92, 47>>} ELSE IF ch = 10 THEN {<<92, 110>>} ELSE {<<ch>>})
RECURSIVE JChars(_), JTexts(_), JList(_, _)
JChars(s) == IF s = << >> THEN {<< >>} ELSE { a \o b : a \in JChar(s[1]), b \in JChars(Tail(s)) }
JString(s) == { <<34>> \o t \o <<34>> : t \in JChars(s) }
(* parts: a sequence of sets of texts, with commas between them.           *)
JList(parts, first) == IF parts = << >> THEN {<< >>}
                       ELSE { (IF first THEN << >> ELSE <<44>>) \o w \o t \o r : w \in Ws, t \in parts[1], r \in JList(Tail(parts), FALSE) }
Perms(S) == { f \in [1..Cardinality(S) -> S] : \A m, n \in DOMAIN f : m # n => f[m] # f[n] }
JTexts(v) ==
  CASE v[1] = "s" -> JString(v[2])
    [] v[1] = "l" -> {v[2]}
    [] v[1] = "a" -> { <<91>> \o t \o <<93>> : t \in JList([ n \in DOMAIN v[2] |-> JTexts(v[2][n]) ], TRUE) }
    [] v[1] = "o" -> UNION { { <<123>> \o t \o <<125>> : t \in JList([ n \in DOMAIN f |-> { k \o w \o <<58>> \o x : k \in JString(f[n][1]), w \in Ws, x \in JTexts(f[n][2]) } ], TRUE) }
                             : f \in Perms(v[2]) }

Strings == {<< >>} \cup { <<ch>> : ch \in JsonChars }
Leaves == { <<"s", s>> : s \in Strings } \cup { J!Null, <<"l", <<45, 49, 48>>>> }
JValues[d \in Nat] == IF d = 0 THEN Leaves
  ELSE LET V == JValues[d - 1] IN
       Leaves \cup { <<"a", s>> : s \in UNION { [1..n -> V] : n \in 0..2 } }
       \cup { <<"o", {}>> } \cup { <<"o", {<<k, v>>}>> : k \in Strings, v \in V }
       \cup { <<"o", {<<<<97>>, v>>, <<<<98>>, u>>}>> : v \in Leaves, u \in Leaves }

(* --- XML: an element with an attribute, a child and some text.           *)
XDec(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>> ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
XRefs(ch) == { <<38, 35>> \o XDec(ch) \o <<59>>, <<38, 35, 120, HexDigit(ch \div 16), HexDigit(ch % 16), 59>> }
             \cup { <<38>> \o p[1] \o <<59>> : p \in { q \in X!Named : q[2] = ch } }
XNothing == {<< >>, <<60, 33, 45, 45, 120, 45, 45, 62>>, <<60, 63, 120, 63, 62>>}      \* a comment, an instruction
XCData(s) == <<60, 33>> \o X!CDataOpen \o s \o <<93, 93, 62>>
RECURSIVE XText(_)
XText(s) == IF s = << >> THEN {<< >>}
            ELSE { a \o c \o b : a \in XRefs(s[1]) \cup {XCData(<<s[1]>>)} \cup (IF s[1] \in {60, 38} THEN {} ELSE {<<s[1]>>}), c \in XNothing, b \in XText(Tail(s)) }
RECURSIVE XVal(_, _)
XVal(s, q) == IF s = << >> THEN {<< >>}
              ELSE { a \o b : a \in XRefs(s[1]) \cup (IF s[1] \in {60, 38, q} THEN {} ELSE {<<s[1]>>}), b \in XVal(Tail(s), q) }
XAttr(a, s) == UNION { { w \o <<a>> \o w2 \o <<61>> \o w2 \o <<q>> \o t \o <<q>> : w \in {<<32>>, <<10, 9>>}, w2 \in Ws, t \in XVal(s, q) } : q \in {34, 39} }
(* e = [a, b: attributes' values (b's is 1), text, kids: children's texts]. *)
XKid(s) == { <<60, 107>> \o w \o <<62>> \o t \o <<60, 47, 107>> \o w \o <<62>> : w \in Ws, t \in XText(s) } \cup (IF s = << >> THEN {<<60, 107, 47, 62>>, <<60, 107, 32, 47, 62>>} ELSE {})
RECURSIVE XKids(_)
XKids(ks) == IF ks = << >> THEN Ws ELSE { w \o c \o k \o r : w \in Ws, c \in XNothing, k \in XKid(ks[1]), r \in XKids(Tail(ks)) }
XOther == <<32, 98, 61, 34, 49, 34>>                                                    \* b="1"
XAttrs(e) == IF e.kids # << >> THEN {<<32, 97, 61, 34, 34>> \o XOther}
             ELSE { x \o XOther : x \in XAttr(97, e.a) } \cup { XOther \o x : x \in XAttr(97, e.a) }
XTexts(e) == { <<60, 101>> \o as \o <<62>> \o c \o <<60, 47, 101, 62>> : as \in XAttrs(e), c \in IF e.kids = << >> THEN XText(e.text) ELSE XKids(e.kids) }
XStrings == {<< >>} \cup { <<ch>> : ch \in XmlChars }
Chars(s) == [ n \in DOMAIN s |-> <<"c", s[n]>> ]
XOf(e) == LET as == {<<<<97>>, e.a>>, <<<<98>>, e.b>>} IN
          IF e.kids = << >> THEN <<"e", <<101>>, as, Chars(e.text)>>
          ELSE <<"e", <<101>>, as, << >>, {<<<<107>>, [ n \in DOMAIN e.kids |-> <<"e", <<107>>, {}, Chars(e.kids[n])>> ]>>}>>
XValues == { [a |-> a, b |-> b, text |-> t, kids |-> << >>] : a \in XStrings, b \in {<<49>>}, t \in XStrings }
           \cup { [a |-> << >>, b |-> <<49>>, text |-> << >>, kids |-> ks] : ks \in { <<s>> : s \in XStrings } \cup { <<s, <<49>>>> : s \in XStrings } }

Init == \/ kind = "json" /\ value \in JValues[JsonDepth] /\ text = << >>
        \/ kind = "xml" /\ value \in XValues /\ text = << >>
Next == /\ text = << >> /\ UNCHANGED <<kind, value>>
        /\ text' \in IF kind = "json" THEN JTexts(value) ELSE XTexts(value)
Spec == Init /\ [][Next]_<<kind, value, text>>

Undone == text # << >> =>
  IF kind = "json" THEN J!Says(text) /\ J!ValueOf(text) = value
  ELSE X!Says(text) /\ X!ValueOf(text) = XOf(value)
=============================================================================
