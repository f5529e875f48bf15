------------------------------ MODULE MCStages ------------------------------
(***************************************************************************)
(* Three stages in a pipe, run concurrently, each of which may refuse its  *)
(* input, or break down at any point of writing its output.  Only the last *)
(* one's exit status counts; it is enough, so long as no stage takes a     *)
(* part of an output for the whole of it, and none breaks down once it has *)
(* written everything.  What a stage writes is a text of Size pieces.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Size,          \* number of pieces of an output
          Sound          \* whether a stage only accepts a whole input

Stages == 1..3
VARIABLES got,    \* pieces read by each stage
          wrote,  \* pieces written
          st      \* "reading", "writing", "ok" or "failed"
vars == <<got, wrote, st>>

Init == /\ got = [k \in Stages |-> IF k = 1 THEN Size ELSE 0]
        /\ wrote = [k \in Stages |-> 0]
        /\ st = [k \in Stages |-> "reading"]

Ended(k) == st[k] \in {"ok", "failed"}
ReadMore(k) == k > 1 /\ st[k] = "reading" /\ got[k] < wrote[k - 1] /\ got' = [got EXCEPT ![k] = @ + 1] /\ UNCHANGED <<wrote, st>>
(* A stage decides when it has read a whole value, or its input has ended. *)
Decide(k) == /\ st[k] = "reading"
             /\ \/ got[k] = Size
                \/ k > 1 /\ Ended(k - 1) /\ got[k] = wrote[k - 1]
             /\ st' = [st EXCEPT ![k] = IF got[k] = Size \/ ~Sound THEN "writing" ELSE "failed"]
             /\ UNCHANGED <<got, wrote>>
Refuse(k) == st[k] = "reading" /\ st' = [st EXCEPT ![k] = "failed"] /\ UNCHANGED <<got, wrote>>
WriteMore(k) == st[k] = "writing" /\ wrote[k] < Size /\ wrote' = [wrote EXCEPT ![k] = @ + 1] /\ UNCHANGED <<got, st>>
Break(k) == st[k] = "writing" /\ wrote[k] < Size /\ st' = [st EXCEPT ![k] = "failed"] /\ UNCHANGED <<got, wrote>>
(* Writing to a reader that has gone away.                                 *)
Pipe(k) == k < 3 /\ st[k] = "writing" /\ Ended(k + 1) /\ wrote[k] < Size /\ st' = [st EXCEPT ![k] = "failed"] /\ UNCHANGED <<got, wrote>>
Done(k) == st[k] = "writing" /\ wrote[k] = Size /\ st' = [st EXCEPT ![k] = "ok"] /\ UNCHANGED <<got, wrote>>

Next == \E k \in Stages : ReadMore(k) \/ Decide(k) \/ Refuse(k) \/ WriteMore(k) \/ Break(k) \/ Pipe(k) \/ Done(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E k \in Stages : ReadMore(k) \/ Decide(k) \/ WriteMore(k) \/ Done(k))

(* If any stage fails, so does the pipeline.                               *)
Loud == st[3] = "ok" => \A k \in Stages : st[k] # "failed"
(* And it always ends.                                                     *)
Ends == <>(\A k \in Stages : Ended(k))
=============================================================================
