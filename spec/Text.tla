------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text as sequences of Unicode code points.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

TAB == 9   LF == 10  CR == 13  SPACE == 32  QUOTE == 34  HASH == 35  PLUS == 43
COMMA == 44  MINUS == 45  DOT == 46  COLON == 58

IsSpace(ch) == ch \in 9..13 \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
(* What later files can't hold: the null character, and bytes that are no    *)
(* part of UTF-8, which are read as lone surrogates.                       *)
IsBad(ch) == ch = 0 \/ ch \in 56320..57343
IsDigit(ch) == ch \in 48..57

Lower(s) == [ n \in DOMAIN s |-> IF s[n] \in 65..90 THEN s[n] + 32 ELSE s[n] ]

RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # << >> /\ IsSpace(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # << >> /\ IsSpace(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))

(* Position of the first ch in s, 0 if there is none.                      *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, ch, n) == IF n > Len(s) THEN 0 ELSE IF s[n] = ch THEN n ELSE IndexFrom(s, ch, n + 1)
Index(s, ch) == IndexFrom(s, ch, 1)

Before(s, n) == SubSeq(s, 1, n - 1)
After(s, n)  == SubSeq(s, n + 1, Len(s))

(* Decimal numerals.  Integers are kept as text, as they can be larger     *)
(* than what TLC calculates with.                                          *)
AllDigits(s) == s # << >> /\ \A n \in DOMAIN s : IsDigit(s[n])
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s

RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = << >> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
NumLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))

MaxPos == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>  \* 9223372036854775807
MaxNeg == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>  \* 9223372036854775808

Signed(s) == s # << >> /\ s[1] \in {PLUS, MINUS}
Digits(s) == IF Signed(s) THEN Tail(s) ELSE s
IsInt(s)  == /\ AllDigits(Digits(s))
             /\ NumLe(NoZeros(Digits(s)), IF s[1] = MINUS THEN MaxNeg ELSE MaxPos)
CanonInt(s) == LET z == NoZeros(Digits(s))
               IN  IF s[1] = MINUS /\ z # <<48>> THEN <<MINUS>> \o z ELSE z
IsNegInt(s) == IsInt(s) /\ CanonInt(s)[1] = MINUS

RECURSIVE Numeral(_)
Numeral(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Numeral(n \div 10), 48 + (n % 10))
=============================================================================
