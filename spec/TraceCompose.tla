---------------------------- MODULE TraceCompose ----------------------------
(***************************************************************************)
(* Judges what was recorded of variants generated alone and together, and  *)
(* of stages run by hand and as a pipeline.                                *)
(***************************************************************************)
EXTENDS Compose, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Judge(r) ==
  CASE r.kind = "variants" -> IF ~r.ok THEN "a run failed"
                              ELSE IF ~SameParts(r.alone, r.got) THEN "a variant differs"
                              ELSE IF ~NothingElse(r.alone, r.got) THEN "files outside the variants" ELSE ""
    [] r.kind = "pipeline" -> IF \E n \in DOMAIN r.ways : ~SameRun(r.hand, r.ways[n]) THEN "the pipeline differs from its stages"
                              ELSE IF \E n \in DOMAIN r.ways : ~Tidy(r.ways[n]) THEN "the pipeline leaves something behind" ELSE ""

Accept(r) == LET v == Judge(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
