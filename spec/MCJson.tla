-------------------------------- MODULE MCJson --------------------------------
(***************************************************************************)
(* The reader agrees with a grammar of JSON, on all texts of some length   *)
(* over some characters; and what is cut off anywhere is not complete.     *)
(***************************************************************************)
EXTENDS Json1, FiniteSets, TLC

CONSTANTS Chars, MaxLen

VARIABLE text

Init == text = << >>
Next == Len(text) < MaxLen /\ \E ch \in Chars : text' = Append(text, ch)
Spec == Init /\ [][Next]_text

Cut(s, a, b) == SubSeq(s, a, b)
RECURSIVE Trimmed(_)
Trimmed(s) == IF s = << >> THEN s ELSE IF s[1] \in Space THEN Trimmed(Tail(s)) ELSE IF s[Len(s)] \in Space THEN Trimmed(Front(s)) ELSE s

IsString(s) == Len(s) >= 2 /\ s[1] = Quote /\ s[Len(s)] = Quote /\ \A n \in 2..(Len(s) - 1) : s[n] # Quote /\ s[n] # Back /\ s[n] >= 32
IsNumber(s) == \/ s # << >> /\ (\A n \in DOMAIN s : s[n] \in Digit) /\ (s[1] # 48 \/ Len(s) = 1)
               \/ Len(s) > 1 /\ s[1] = Minus /\ (\A n \in 2..Len(s) : s[n] \in Digit) /\ (s[2] # 48 \/ Len(s) = 2)

RECURSIVE IsValue(_), IsElements(_), IsMembers(_)
IsValue(s) ==
  LET t == Trimmed(s) IN
  t # << >> /\
  \/ IsString(t) \/ IsNumber(t)
  \/ Len(t) >= 2 /\ t[1] = LBrack /\ t[Len(t)] = RBrack /\ (Trimmed(Cut(t, 2, Len(t) - 1)) = << >> \/ IsElements(Cut(t, 2, Len(t) - 1)))
  \/ Len(t) >= 2 /\ t[1] = LBrace /\ t[Len(t)] = RBrace /\ (Trimmed(Cut(t, 2, Len(t) - 1)) = << >> \/ IsMembers(Cut(t, 2, Len(t) - 1)))
IsElements(s) == IsValue(s) \/ \E n \in DOMAIN s : s[n] = Comma /\ IsValue(Cut(s, 1, n - 1)) /\ IsElements(Cut(s, n + 1, Len(s)))
IsMember(s)   == \E n \in DOMAIN s : s[n] = Colon /\ IsString(Trimmed(Cut(s, 1, n - 1))) /\ IsValue(Cut(s, n + 1, Len(s)))
IsMembers(s)  == IsMember(s) \/ \E n \in DOMAIN s : s[n] = Comma /\ IsMember(Cut(s, 1, n - 1)) /\ IsMembers(Cut(s, n + 1, Len(s)))

Agree == Complete(text) = IsValue(text)
(* Before an object or array is complete, it is not.                       *)
Sudden == (Trimmed(text) # << >> /\ Trimmed(text)[1] \in {LBrace, LBrack} /\ IsValue(text)) => \A n \in 0..(Len(Trimmed(text)) - 1) : ~Complete(Cut(Trimmed(text), 1, n))
=============================================================================
