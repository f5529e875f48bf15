------------------------------ MODULE TraceC13 ------------------------------
(***************************************************************************)
(* Events through the whole pipeline.  Every line of the log has a trace   *)
(* file and what each stage made of it: rc1, tests (written events of each *)
(* test, in order), rc2, stms (events [c, k, v] on the way through each    *)
(* machine, in order, v being absent as <<-1>>), rc3.                      *)
(***************************************************************************)
EXTENDS TraceFile, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Range2(s) == { s[n] : n \in DOMAIN s }
EventsOf(f) == UNION { Range2(t.events) : t \in Range2(Read(f).traces) }

Valueless(f) == \E e \in EventsOf(f) : e.v.t = "none"
Conflict(f)  == \E e1, e2 \in EventsOf(f) : e1.c = e2.c /\ e1.v.t = "int" /\ e2.v.t = "text"

WantTests(f) == { [name |-> t.name, events |-> [n \in DOMAIN t.events |-> Written(t.events[n])]] : t \in Named(Read(f).traces) }
WantStms(f)  == { [name |-> t.name, events |-> [n \in DOMAIN t.events |->
                     [c |-> t.events[n].c, k |-> t.events[n].k, v |-> t.events[n].v.x]]] : t \in Named(Read(f).traces) }
ValuelessStms(f, none) ==
  { [name |-> t.name, events |-> [n \in DOMAIN t.events |->
       [c |-> t.events[n].c, k |-> t.events[n].k, v |-> IF t.events[n].v.t = "none" THEN none ELSE t.events[n].v.x]]] : t \in Named(Read(f).traces) }
AsSet(s) == { [name |-> s[n].name, events |-> s[n].events] : n \in DOMAIN s }

(* Judgement: "" if the record is fine, otherwise what is wrong.           *)
Verdict(r) ==
  LET f == r.file IN
  IF ~Read(f).ok THEN (IF r.rc1 # 0 /\ ~r.out1 THEN "" ELSE "unreadable event accepted")
  ELSE IF r.rc1 # 0 THEN "readable file rejected"
  ELSE IF AsSet(r.tests) # WantTests(f) THEN "meaning changed in the tests"
  ELSE IF Conflict(f) THEN ""
  ELSE IF Valueless(f)
       THEN IF r.rc2 = 1 THEN "valueless-event"
            ELSE IF r.rc2 # 0 THEN "the next stage crashes"
            ELSE IF AsSet(r.stms) \notin { ValuelessStms(f, none) : none \in { <<>>, <<-1>> } } THEN "meaning changed in the state machines"
            ELSE ""
  ELSE IF r.rc2 # 0 THEN "tests not readable by the next stage"
  ELSE IF AsSet(r.stms) # WantStms(f) THEN "meaning changed in the state machines"
  ELSE IF r.rc3 # 0 THEN "state machines not readable by the next stage"
  ELSE ""

Accept(r) == LET v == Verdict(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
