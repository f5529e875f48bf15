------------------------------- MODULE Status -------------------------------
(***************************************************************************)
(* What trees and machines that are run as tests have in common.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }

Running(st) == st \in {"WAIT_START", "WAIT_IN", "WAIT_OUT"}
Ended(st)   == ~Running(st)

ExitCode(st) == CASE st = "FAIL" -> 1 [] st = "BUG" -> 2 [] OTHER -> 0

Unset(p)   == [t \in Range(p.tests) |-> "unset"]
Stay(x)    == [x EXCEPT !.pub = << >>]
End(x, st) == [x EXCEPT !.st = st, !.pub = << >>]

(* Topics: lower case with underscores between words. *)
UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
IsUp(ch)  == \E n \in 1..26 : SubSeq(UpperCase, n, n) = ch
IsLow(ch) == \E n \in 1..26 : SubSeq(LowerCase, n, n) = ch
Down(ch)  == IF IsUp(ch) THEN LET n == CHOOSE m \in 1..26 : SubSeq(UpperCase, m, m) = ch IN SubSeq(LowerCase, n, n) ELSE ch
RECURSIVE TopicFrom(_, _, _)
TopicFrom(c, n, low) ==
  IF n > Len(c) THEN ""
  ELSE LET ch == SubSeq(c, n, n)
       IN (IF IsUp(ch) /\ low THEN "_" ELSE "") \o Down(ch) \o TopicFrom(c, n + 1, IsLow(ch))
Topic(c) == TopicFrom(c, 1, FALSE)

Topics(outs, ins) == { Topic(c) : c \in outs } \cup (IF ins # {} THEN {"input_accepted"} ELSE {})

(* The words outcomes are reported in.                                     *)
Word(o) == CASE o = "inc" -> "inconclusive" [] o = "pass" -> "passed" [] o = "fail" -> "failed" [] OTHER -> "unset"
SameOutcomes(x, o) == DOMAIN o.vd = DOMAIN x.vd /\ \A t \in DOMAIN x.vd : o.vd[t] = Word(x.vd[t])
Pubs(x) == [ j \in DOMAIN x.pub |-> <<Topic(x.pub[j][1]), x.pub[j][2]>> ]
=============================================================================
