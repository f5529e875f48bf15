------------------------------ MODULE Naming ------------------------------
(***************************************************************************)
(* How traces get their names: a trace keeps its name if it is free; a     *)
(* taken name is followed by the first number that makes it free; traces   *)
(* without name, or called "test", are numbered from 0.                    *)
(***************************************************************************)
EXTENDS Text, FiniteSets

TEST == <<116, 101, 115, 116>>

Numbered(base, k) == base \o Numeral(k)

RECURSIVE FirstFree(_, _, _)
FirstFree(taken, base, k) ==
  IF Numbered(base, k) \in taken THEN FirstFree(taken, base, k + 1) ELSE Numbered(base, k)

NameFor(taken, wanted) ==
  LET base == IF wanted = << >> THEN TEST ELSE wanted
  IN  IF base # TEST /\ base \notin taken THEN base ELSE FirstFree(taken, base, 0)

(* The names given to a sequence of traces wanting the given names.        *)
Names(wanted) ==
  LET step(acc, w) == LET n == NameFor(acc.taken, w)
                      IN  [taken |-> acc.taken \cup {n}, seq |-> Append(acc.seq, n)]
  IN  FoldLeft(step, [taken |-> {}, seq |-> << >>], wanted).seq
=============================================================================
