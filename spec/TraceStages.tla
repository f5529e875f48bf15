----------------------------- MODULE TraceStages -----------------------------
(***************************************************************************)
(* Judges recorded runs of stages, and of the whole pipeline.              *)
(***************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Judge(r) ==
  CASE r.kind = "json" ->
         IF ~J!Complete(r.text) THEN (IF Spurned(r) THEN "" ELSE "broken JSON was not refused")
         ELSE IF r.clean THEN (IF Worked(r) THEN "" ELSE "good JSON was refused")
         ELSE IF Fine(r) THEN "" ELSE "neither worked nor refused"
    [] r.kind = "xml" ->
         IF X!Fate(r.text) = "broken" THEN (IF Spurned(r) THEN "" ELSE "a broken configuration was not refused")
         ELSE IF r.clean THEN (IF Worked(r) THEN "" ELSE "a good configuration was refused")
         ELSE IF Fine(r) THEN "" ELSE "neither worked nor refused"
    [] r.kind = "trace" ->
         IF T!Read(r.text).ok THEN (IF Worked(r) THEN "" ELSE "a good trace file was refused")
         ELSE IF Spurned(r) THEN "" ELSE "a broken trace file was not refused"
    [] r.kind = "value" ->
         IF Misfit(r.field, r.value, IF r.stage = "gen" THEN StmKinds ELSE TestKinds)
         THEN (IF Spurned(r) THEN "" ELSE "a " \o r.value \o " for " \o r.field \o " was not refused")
         ELSE IF Fine(r) THEN "" ELSE "neither worked nor refused"
    [] r.kind = "fault" ->
         IF r.fault \in Faults THEN (IF Refused(r) /\ (r.fault = "read error" => ~r.touched) THEN "" ELSE r.fault \o " was not reported")
         ELSE IF Worked(r) THEN "" ELSE r.fault \o " did not work"
    [] r.kind = "same" ->
         IF \A n \in DOMAIN r.results : r.results[n] = r.results[1] THEN "" ELSE "the ways to give input differ"
    [] r.kind = "pipe" ->     \* stages: whether each stage alone works on what it is given
         IF r.crash THEN "a crash" ELSE IF \A n \in DOMAIN r.stages : r.stages[n] THEN (IF r.rc = 0 THEN "" ELSE "the pipeline failed for no reason")
         ELSE IF r.rc # 0 /\ r.err THEN "" ELSE "the pipeline did not fail"

Accept(r) == LET v == Judge(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
