----------------------------- MODULE MCPosition -----------------------------
(***************************************************************************)
(* The driver of Driver.tla, run on the tree of a trace, is the machine of *)
(* Position.tla: its node is the position.                                 *)
(***************************************************************************)
EXTENDS MCDriver, FiniteSets

Input(e) == e.k = "in"

SentAt == { i \in DOMAIN tr : Input(tr[i]) /\ Cardinality({ j \in 1..i : Input(tr[j]) }) <= Len(sent) }

P == INSTANCE Position WITH
       Events <- { Ev(o[1], IF o[1] = "c" THEN "call" ELSE "out", o[2]) : o \in Outputs } \cup Alphabet,
       IsIn <- Input, k <- d.n - 1, st <- d.st, vd <- d.vd["t"], sent <- SentAt

Refines == P!Spec
SentIsScript == \A i \in DOMAIN sent : sent[i] = Sent(tr)[i]
=============================================================================
