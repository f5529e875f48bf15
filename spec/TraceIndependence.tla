-------------------------- MODULE TraceIndependence --------------------------
(***************************************************************************)
(* Judges what was recorded of tests processed alone and with others.      *)
(***************************************************************************)
EXTENDS Independence, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Judge(r) ==
  IF ~r.ok THEN "failed"
  ELSE CASE r.kind = "read"    -> IF SameTests(r.alone, r.got) THEN "" ELSE "tests differ"
         [] r.kind = "machine" -> IF SameMachine(r.alone, r.got) THEN "" ELSE "machines differ"
         [] r.kind = "program" -> IF RangeOf(r.alone) = RangeOf(r.got) THEN "" ELSE "generated programs differ"
         [] r.kind = "repeat"  -> IF \A n \in DOMAIN r.results : r.results[n] = r.results[1] THEN "" ELSE "results differ from run to run"

Accept(r) == LET v == Judge(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
