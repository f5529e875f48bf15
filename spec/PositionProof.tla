--------------------------- MODULE PositionProof ---------------------------
(***************************************************************************)
(* Proofs, checked by the TLA+ proof system (tlapm), that the machine of   *)
(* Position.tla has the properties C01-C06 for traces of any length over   *)
(* any events in any environment: no bounds.                               *)
(***************************************************************************)
EXTENDS Position, TLAPS

THEOREM InitInv == Init => Inv
  BY DEF Init, Inv, RunningSt, EndedSt, OutcomeAt

THEOREM NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE Delay
  BY <1>1 DEF Delay, Enter, Inv, RunningSt, EndedSt, OutcomeAt, StatusAt, SendAt
<1>2. CASE Timeout
  BY <1>2 DEF Timeout, EndAs, Inv, RunningSt, EndedSt, OutcomeAt
<1>3. CASE Ack
  BY <1>3 DEF Ack, Enter, EndAs, Inv, RunningSt, EndedSt, OutcomeAt, StatusAt, SendAt
<1>4. ASSUME NEW e \in Events, Output(e) PROVE Inv'
  BY <1>4 DEF Output, Enter, EndAs, Inv, RunningSt, EndedSt, OutcomeAt, StatusAt, SendAt
<1>5. CASE UNCHANGED vars
  BY <1>5 DEF vars, Inv, OutcomeAt
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

THEOREM Invariant == Spec => []Inv
  BY InitInv, NextInv, PTL DEF Spec

THEOREM InvImplies == Inv => Sound /\ Complete /\ Position /\ Awaits /\ Stimuli
  BY DEF Inv, Sound, Complete, Position, Awaits, Stimuli, RunningSt, EndedSt, OutcomeAt

THEOREM Safety == Spec => [](Sound /\ Complete /\ Position /\ Awaits /\ Stimuli)
  BY Invariant, InvImplies, PTL

THEOREM Ends == Spec => Absorbing
<1>1. [Next]_vars => [st \notin EndedSt]_vars
  BY DEF Next, Delay, Timeout, Ack, Output, RunningSt, EndedSt
<1> QED
  BY <1>1, PTL DEF Spec, Absorbing

THEOREM Ordered == Spec => InOrder
<1>1. ASSUME Inv, Delay PROVE Grows
  BY <1>1 DEF Inv, Grows, Delay, Enter, SendAt, RunningSt, EndedSt
<1>2. ASSUME Inv, Timeout PROVE Grows
  BY <1>2 DEF Grows, Timeout, EndAs
<1>3. ASSUME Inv, st \in RunningSt, k + 1 \in 1..Len(tr), Enter(k + 1) PROVE Grows
  <2>1. \A j \in sent : j < k + 2
    BY <1>3 DEF Inv, RunningSt, EndedSt
  <2>2. CASE k + 1 # Len(tr) /\ IsIn(tr[k + 1 + 1])
    <3>1. sent' = sent \cup {k + 1 + 1} /\ k + 1 + 1 \in 1..Len(tr)
      BY <1>3, <2>2 DEF Inv, Enter, SendAt
    <3>2. \A j \in sent : j < k + 1 + 1
      BY <2>1, <1>3 DEF Inv
    <3>3. \E i \in 1..Len(tr) : IsIn(tr[i]) /\ sent' = sent \cup {i} /\ \A j \in sent : j < i
      BY <3>1, <3>2, <2>2
    <3> QED
      BY <3>3 DEF Grows
  <2>3. CASE ~(k + 1 # Len(tr) /\ IsIn(tr[k + 1 + 1]))
    BY <1>3, <2>3 DEF Grows, Enter, SendAt
  <2> QED
    BY <2>2, <2>3
<1>4. ASSUME Inv, Ack PROVE Grows
  <2>1. CASE st = "WAIT_IN" /\ Enter(k + 1)
    BY <1>3, <1>4, <2>1 DEF Inv, RunningSt, EndedSt
  <2>2. CASE EndAs("BUG")
    BY <2>2 DEF Grows, EndAs
  <2> QED
    BY <1>4, <2>1, <2>2 DEF Ack
<1>5. ASSUME Inv, NEW e \in Events, Output(e) PROVE Grows
  <2>1. CASE st = "WAIT_OUT" /\ Enter(k + 1)
    BY <1>3, <1>5, <2>1 DEF Inv, RunningSt, EndedSt
  <2>2. CASE EndAs("OFF_SCRIPT")
    BY <2>2 DEF Grows, EndAs
  <2> QED
    BY <1>5, <2>1, <2>2 DEF Output
<1>6. ASSUME UNCHANGED vars PROVE Grows
  BY <1>6 DEF Grows, vars
<1>7. Inv /\ [Next]_vars => [Grows]_vars
  BY <1>1, <1>2, <1>4, <1>5, <1>6 DEF Next
<1> QED
  BY <1>7, Invariant, PTL DEF Spec, InOrder, Grows
=============================================================================
