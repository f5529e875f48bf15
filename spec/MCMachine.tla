----------------------------- MODULE MCMachine -----------------------------
(***************************************************************************)
(* Every sane machine of a few states, cycles and all, under every         *)
(* environment.  The history variables path (the events that moved it) and *)
(* sent say what a machine is independently of how it is run.              *)
(***************************************************************************)
EXTENDS Machine, TLC

CONSTANTS States,     \* how many
          MaxSteps, Tests,
          Outcomes    \* that states may give

VARIABLES path, sent, steps

vars == <<q, path, sent, steps>>

Ids == 1..States
Tr(v, i)     == [v |-> v, next |-> i]
InSet(v, i)  == << [c |-> "a", k |-> "in", ts |-> <<Tr(v, i)>>] >>
(* Output sets: where each of the values leads, 0 being nowhere.           *)
OutSet(c, k, f) == LET vs == SelectSeq(<<"0", "1">>, LAMBDA v : f[v] # 0)
                   IN  IF vs = << >> THEN << >> ELSE << [c |-> c, k |-> k, ts |-> [j \in DOMAIN vs |-> Tr(vs[j], f[vs[j]])]] >>
Sets == { InSet("0", i) : i \in Ids }
        \cup { OutSet("b", "out", f) \o OutSet("c", "call", g) : f \in [{"0", "1"} -> Ids \cup {0}], g \in { [v \in {"0", "1"} |-> IF v = "0" THEN i ELSE 0] : i \in {0, 1} } }
Vds  == UNION { [T -> Outcomes] : T \in SUBSET Tests }

Machines == { m \in { [tests |-> (CHOOSE s \in [1..Cardinality(Tests) -> Tests] : Range(s) = Tests),
                        states |-> [i \in Ids |-> [id |-> i, sets |-> f[i], vd |-> g[i]]]] : f \in [Ids -> Sets], g \in [Ids -> Vds] } : TRUE }

ASSUME \A m \in Machines : Sane(m)

Init == /\ q \in { MStarted(m) : m \in Machines }
        /\ path = << >> /\ sent = q.pub /\ steps = 0

Tick == steps < MaxSteps /\ steps' = steps + 1 /\ sent' = sent \o q'.pub
Outputs == ({"b", "c"} \X {"0", "1"}) \cup {<<"b", "2">>}

Delay   == q' = MAfterDelay(q) /\ UNCHANGED path /\ Tick
Timeout == q' = MAfterTimeout(q) /\ UNCHANGED path /\ Tick
Ack     == /\ q' = MAfterAck(q) /\ Tick
           /\ path' = IF q.st = "WAIT_IN" THEN Append(path, <<"ack">>) ELSE path
Output  == \E o \in Outputs : /\ q' = MAfterOutput(q, o[1], o[2]) /\ Tick
                              /\ path' = IF Running(q.st) /\ q'.st # "OFF_SCRIPT" THEN Append(path, <<o[1], o[2]>>) ELSE path
Next == Delay \/ Timeout \/ Ack \/ Output
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The states a sequence of events goes through, as a relation.            *)
Leads(m, i, e, j) ==
  \E a \in DOMAIN m.states[i].sets : \E b \in DOMAIN m.states[i].sets[a].ts :
    LET x == m.states[i].sets[a] IN
    /\ x.ts[b].next = m.states[j].id
    /\ IF x.k = "in" THEN e = <<"ack">> ELSE e = <<x.c, x.ts[b].v>>
Runs(m) == { r \in [1..(Len(path) + 1) -> DOMAIN m.states] :
               r[1] = 1 /\ \A n \in DOMAIN path : Leads(m, r[n], path[n], r[n + 1]) }
TheRun == CHOOSE r \in Runs(q.prog) : TRUE

Entered == IF q.st = "WAIT_START" \/ (SendsIn(q.prog.states[1]) /\ path = << >> /\ sent = << >> /\ q.st # "FAIL") THEN {} ELSE DOMAIN TheRun

OneRun  == Cardinality(Runs(q.prog)) = 1 /\ TheRun[Len(path) + 1] = q.n
(* Each outcome is what the latest state to mention the test says.         *)
Latest  == \A t \in Range(q.prog.tests) :
             LET said == { n \in Entered : t \in DOMAIN q.prog.states[TheRun[n]].vd }
             IN  q.vd[t] = IF said = {} THEN "unset"
                           ELSE q.prog.states[TheRun[CHOOSE n \in said : \A l \in said : l <= n]].vd[t]
(* It fails when it enters a state that fails a test, and only then.       *)
Fails   == /\ q.st = "FAIL" <=> \E n \in Entered : FailsIn(q.prog.states[TheRun[n]])
           /\ q.st # "FAIL" => \A t \in DOMAIN q.vd : q.vd[t] # "fail"
(* What is sent is the inputs of the states gone through.                  *)
SentOk  == LET ins == SelectSeq([n \in DOMAIN TheRun |-> n], LAMBDA n : n \in Entered /\ SendsIn(q.prog.states[TheRun[n]]) /\ ~FailsIn(q.prog.states[TheRun[n]]))
           IN  sent = [j \in DOMAIN ins |-> LET x == q.prog.states[TheRun[ins[j]]].sets[1] IN <<x.c, x.ts[1].v>>]
Waiting == Running(q.st) => (q.st # "WAIT_OUT") = SendsIn(q.prog.states[q.n])
Absorbing == [][Ended(q.st) => q'.st = q.st /\ q'.vd = q.vd /\ q'.n = q.n /\ q'.pub = << >>]_vars
=============================================================================
