------------------------------- MODULE Stages -------------------------------
(***************************************************************************)
(* What a stage does with what it is given.                                *)
(*                                                                         *)
(* A run of a stage is [stage, rc, err (something was said on standard     *)
(* error), crash, out (code points), touched (rtcg-gen wrote a file)].     *)
(***************************************************************************)
EXTENDS Integers, Sequences

J == INSTANCE Json1
X == INSTANCE Xml1
T == INSTANCE TraceFile

Refused(r) == r.rc # 0 /\ r.err /\ ~r.crash /\ ~J!Complete(r.out)
Worked(r)  == r.rc = 0 /\ ~r.crash /\ (r.stage = "gen" \/ J!Complete(r.out))
Fine(r)    == Worked(r) \/ Refused(r)
(* Input that can't even be read leads to no generated file at all.        *)
Spurned(r) == Refused(r) /\ ~r.touched

(* The kinds of value in the suites stages give each other.                *)
TestKinds ==
  [suite |-> "object", test |-> "object", node |-> "object", id |-> "string", tests |-> "array", name |-> "string",
   outcome |-> "string", event |-> "string", next |-> "array"]
StmKinds ==
  [suite |-> "object", types |-> "object", type |-> "string", tests |-> "object", stm |-> "object", states |-> "array", state |-> "object",
   id |-> "string", sets |-> "array", set |-> "object", channel |-> "string", transitions |-> "array", transition |-> "object",
   value |-> "string", next |-> "string", verdicts |-> "object", outcome |-> "string", names |-> "array", name |-> "string"]
(* What must not be absent.                                                *)
Needed == {"test", "stm", "state", "states"}
Misfit(field, kind, kinds) == IF kind = "null" THEN field \in Needed ELSE kind # kinds[field]

(* Other things that are wrong, or right, with the way a stage is run.     *)
Faults == {"missing file", "directory", "unreadable file", "missing config", "unreadable config", "too few arguments", "too many arguments", "closed input",
           "full output", "missing user code", "unknown variant", "other root", "no initial state", "transition to nowhere", "empty states",
           "read error", "write error", "unwritable output", "file in the way", "directory in the way", "full file", "broken name"}
=============================================================================
