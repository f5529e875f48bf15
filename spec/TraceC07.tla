------------------------------ MODULE TraceC07 ------------------------------
(***************************************************************************)
(* Conformance of rtcg-read-traces with TraceFile.  Every line of the log  *)
(* has a file (code points) and what the program did with it: rc, out      *)
(* (whether it wrote anything) and tests, a list of                        *)
(* [name, events: list of written events] taken from the suite it wrote.   *)
(***************************************************************************)
EXTENDS TraceFile, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Expected(f) == { [name |-> t.name, events |-> [n \in DOMAIN t.events |-> Written(t.events[n])]] : t \in Named(Read(f).traces) }
Got(r)      == { [name |-> r.tests[n].name, events |-> r.tests[n].events] : n \in DOMAIN r.tests }

Accept(r) ==
  IF ~Read(r.file).ok THEN r.rc # 0 /\ ~r.out
  ELSE r.rc = 0 /\ Len(r.tests) = Len(Read(r.file).traces) /\ Got(r) = Expected(r.file)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ (Accept(Log[i']) \/ (PrintT(<<"REJECT", i', Read(Log[i'].file).ok>>) /\ FALSE))
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
