------------------------------ MODULE TraceC08 ------------------------------
(***************************************************************************)
(* Conformance of rtcg-read-traces with Naming.  Every line of the log has *)
(* the names wanted by the traces of a file, in order, and the tests that  *)
(* came out: [name, id] with id the number of the trace it represents.     *)
(***************************************************************************)
EXTENDS Naming, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Accept(r) ==
  LET ns == Names(r.wanted)
  IN  /\ r.rc = 0
      /\ Len(r.tests) = Len(r.wanted)
      /\ { <<r.tests[n].name, r.tests[n].id>> : n \in DOMAIN r.tests } = { <<ns[n], n>> : n \in DOMAIN ns }

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ (Accept(Log[i']) \/ (PrintT(<<"REJECT", i', Names(Log[i'].wanted)>>) /\ FALSE))
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
