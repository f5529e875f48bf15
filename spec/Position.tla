------------------------------ MODULE Position ------------------------------
(***************************************************************************)
(* What the test generated for one trace does, said in terms of the        *)
(* position k reached in the trace alone - for traces of ANY length over   *)
(* ANY events, and every sequence of whatever the environment can do.      *)
(* That it has the properties C01-C06 is proved in PositionProof.tla.      *)
(* MCPosition checks that the tree-walking driver of Driver.tla, to which  *)
(* the real programs are bound, is an instance of it.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Events,   \* what can happen
          IsIn(_)   \* is it an input, that is, sent by the test?

VARIABLES tr,    \* the trace; its last event is the forbidden one
          k,     \* the number of its events that have taken place
          st,    \* status
          vd,    \* reported outcome
          sent,  \* the positions of the trace whose inputs were sent
          hist   \* what took place while the test was running

vars == <<tr, k, st, vd, sent, hist>>

RunningSt == {"WAIT_START", "WAIT_IN", "WAIT_OUT"}
EndedSt   == {"OFF_SCRIPT", "TIMEOUT", "FAIL", "BUG"}

OutcomeAt(j) == IF j = Len(tr) THEN "fail" ELSE IF j + 1 = Len(tr) THEN "pass" ELSE "inc"
StatusAt(j)  == IF j = Len(tr) THEN "FAIL" ELSE IF IsIn(tr[j + 1]) THEN "WAIT_IN" ELSE "WAIT_OUT"
SendAt(j)    == IF j # Len(tr) /\ IsIn(tr[j + 1]) THEN {j + 1} ELSE {}

Init ==
  /\ tr \in Seq(Events) /\ Len(tr) > 0
  /\ k = 0 /\ sent = {} /\ hist = << >>
  /\ IF IsIn(tr[1]) THEN st = "WAIT_START" /\ vd = "unset"
                    ELSE st = "WAIT_OUT" /\ vd = OutcomeAt(0)

Enter(j) == k' = j /\ st' = StatusAt(j) /\ vd' = OutcomeAt(j) /\ sent' = sent \cup SendAt(j)
EndAs(s) == st' = s /\ UNCHANGED <<k, vd, sent>>

Delay   == st = "WAIT_START" /\ Enter(0) /\ UNCHANGED <<tr, hist>>
Timeout == st \in RunningSt /\ EndAs("TIMEOUT") /\ UNCHANGED <<tr, hist>>
Ack     == \/ /\ st = "WAIT_IN" /\ Enter(k + 1)
              /\ hist' = Append(hist, tr[k + 1]) /\ UNCHANGED tr
           \/ /\ st \in RunningSt /\ st # "WAIT_IN" /\ EndAs("BUG")
              /\ UNCHANGED <<tr, hist>>
Output(e) == /\ ~IsIn(e)
             /\ st \in RunningSt
             /\ IF st = "WAIT_OUT" /\ e = tr[k + 1] THEN Enter(k + 1) ELSE EndAs("OFF_SCRIPT")
             /\ hist' = Append(hist, e) /\ UNCHANGED tr

Next == Delay \/ Timeout \/ Ack \/ \E e \in Events : Output(e)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties.                                                         *)
Sound    == st = "FAIL" => hist = tr                                                  \* C01
Complete == hist = tr => st = "FAIL"                                                  \* C02
Position == /\ st \in RunningSt \ {"WAIT_START"} =>                                   \* C03
                 /\ Len(hist) < Len(tr) /\ \A i \in 1..Len(hist) : hist[i] = tr[i]
                 /\ vd = IF Len(hist) + 1 = Len(tr) THEN "pass" ELSE "inc"
            /\ st = "WAIT_START" => vd = "unset" /\ hist = << >>
            /\ vd = "fail" <=> st = "FAIL"
Awaits   == /\ st = "WAIT_IN"  => IsIn(tr[Len(hist) + 1])                             \* C04
            /\ st = "WAIT_OUT" => ~IsIn(tr[Len(hist) + 1])
            /\ st = "OFF_SCRIPT" => /\ Len(hist) > 0
                                    /\ Len(hist) <= Len(tr) => hist[Len(hist)] # tr[Len(hist)]
Stimuli  == st \in RunningSt =>                                                       \* C06
              sent = { i \in 1..(IF st = "WAIT_IN" THEN Len(hist) + 1 ELSE Len(hist)) : IsIn(tr[i]) }
Absorbing == [][st \notin EndedSt]_vars                                               \* C05
InOrder   == [][sent' # sent => \E i \in 1..Len(tr) :                                 \* C06
                   IsIn(tr[i]) /\ sent' = sent \cup {i} /\ \A j \in sent : j < i]_vars

-----------------------------------------------------------------------------
(* The inductive invariant: k says it all.                                 *)
Inv ==
  /\ tr \in Seq(Events) /\ Len(tr) > 0
  /\ hist \in Seq(Events)
  /\ k \in 0..Len(tr)
  /\ st \in RunningSt \cup EndedSt
  /\ \A i \in 1..k : i \in DOMAIN hist /\ hist[i] = tr[i]
  /\ Len(hist) = IF st = "OFF_SCRIPT" THEN k + 1 ELSE k
  /\ st = "FAIL" <=> k = Len(tr)
  /\ st = "WAIT_START" => k = 0 /\ IsIn(tr[1])
  /\ st = "WAIT_IN"    => IsIn(tr[k + 1])
  /\ st = "WAIT_OUT"   => ~IsIn(tr[k + 1])
  /\ st = "OFF_SCRIPT" => hist[k + 1] # tr[k + 1]
  /\ vd \in {"unset", "inc", "pass", "fail"}
  /\ st = "WAIT_START" => vd = "unset"
  /\ st \in {"WAIT_IN", "WAIT_OUT", "FAIL"} => vd = OutcomeAt(k)
  /\ vd # "unset" => vd = OutcomeAt(k)
  /\ st \in {"WAIT_START", "WAIT_IN", "WAIT_OUT"} =>
        sent = { i \in 1..(IF st = "WAIT_IN" THEN k + 1 ELSE k) : IsIn(tr[i]) }
  /\ sent \subseteq 1..Len(tr)

Grows == sent' # sent => \E i \in 1..Len(tr) : IsIn(tr[i]) /\ sent' = sent \cup {i} /\ \A j \in sent : j < i
=============================================================================
