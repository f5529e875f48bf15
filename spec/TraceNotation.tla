---------------------------- MODULE TraceNotation ----------------------------
(***************************************************************************)
(* Judges what the stages made of texts that say the same.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

J == INSTANCE JsonValue
X == INSTANCE XmlValue
T == INSTANCE TraceFile

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

All(S) == Cardinality(S) = 1
Same(r) ==
  LET ts == { r.texts[n] : n \in DOMAIN r.texts } IN
  CASE r.kind = "traces"   -> All({ T!Read(t) : t \in ts })
    [] r.kind = "suite"    -> (\A t \in ts : J!Says(t)) /\ All({ J!Suite(t) : t \in ts })
    [] r.kind = "machines" -> (\A t \in ts : J!Says(t)) /\ All({ J!Machines(t) : t \in ts })
    [] r.kind = "config"   -> (\A t \in ts : X!Says(t)) /\ All({ X!ValueOf(t) : t \in ts })

Judge(r) ==
  IF ~Same(r) THEN "not the same"
  ELSE IF All({ r.results[n] : n \in DOMAIN r.results }) THEN "" ELSE "results differ"

Accept(r) == LET v == Judge(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
