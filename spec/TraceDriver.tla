---------------------------- MODULE TraceDriver ----------------------------
(***************************************************************************)
(* Conformance of generated test programs with Driver.  Every line of the  *)
(* trace file is one compiled program with the tree of all schedules it    *)
(* was run under; node 1 is the empty schedule.  Each node has what was    *)
(* observed when the schedule ending there was run:                        *)
(*   st status, rc exit status, vd outcomes, pub publications of the last  *)
(*   step.                                                                 *)
(* The specification replays every schedule; Prop selects the property     *)
(* whose part of the observation is compared.                              *)
(*                                                                         *)
(* stop says whether the program stopped by itself.                        *)
(***************************************************************************)
EXTENDS Driver, TLC, TLCExt, Json, IOUtils

CONSTANTS Prop,   \* which property to decide
          Kind    \* "ros" or "animate"

VARIABLES i, at

vars == <<d, i, at>>

Log == ndJsonDeserialize(IOEnv.TRACE)

NoEv == [c |-> "", k |-> "none", v |-> ""]

(* The test tree of a forbidden trace. *)
Tree(name, s) ==
  [ tests |-> <<name>>,
    nodes |-> [ j \in 1..(Len(s) + 2) |->
      [ ev    |-> IF j = 1 \/ j = Len(s) + 2 THEN NoEv ELSE s[j - 1],
        out   |-> IF j = 1 THEN "unset" ELSE IF j = Len(s) + 2 THEN "fail" ELSE IF j = Len(s) + 1 THEN "pass" ELSE "inc",
        tests |-> <<name>>,
        next  |-> IF j = Len(s) + 2 THEN << >> ELSE <<j + 1>> ] ] ]

Prog(r) == IF r.tree THEN [tests |-> r.tests, nodes |-> r.nodes] ELSE Tree(r.name, r.script)

Subscriptions(p) == Topics(OutChans(p), InChans(p))

(* The state after one event of a schedule. *)
After(x, t) ==
  IF Kind = "animate"
  THEN CASE t.t = "D" -> AnimDelay(x)
         [] t.t = "T" -> AfterTimeout(x)
         [] t.t = "A" -> AnimAck(x)
         [] t.t = "O" -> AfterOutput(x, t.c, t.v)
         [] t.t = "N" -> Stay(x)           \* not something the program offers
         [] t.t = "G" -> AnimEof(x)        \* a value that cannot be read
  ELSE CASE t.t = "D" -> AfterDelay(x)
         [] t.t = "T" -> AfterTimeout(x)
         [] t.t = "A" -> AfterAck(x)
         [] t.t = "O" -> AfterOutput(x, t.c, t.v)
         [] t.t = "L" -> AfterAlone(x)

(* What is seen of a state: an animated program always reaches the end of  *)
(* its input.                                                              *)
Seen(x) == IF Kind = "animate" THEN AnimEof(x) ELSE x

Claims(o, t) == t \in DOMAIN o.vd /\ o.vd[t] = "failed"

(* Does observation o (whose predecessor is o0) agree with state y?        *)
Ok(y, o, o0, first, r) ==
  LET x == Seen(y) IN
  CASE Prop = "C01" -> /\ (o.st = "FAIL" \/ o.rc = 1) => x.st = "FAIL"
                       /\ \A t \in DOMAIN x.vd : Claims(o, t) => x.vd[t] = "fail"
    [] Prop = "C02" -> /\ x.st = "FAIL" => o.st = "FAIL" /\ o.rc = 1 /\ \A t \in DOMAIN x.vd : x.vd[t] = "fail" => Claims(o, t)
                       /\ Running(x.st) => o.st = x.st
    [] Prop = "C03" -> SameOutcomes(x, o)
    [] Prop = "C04" -> o.st = x.st /\ o.rc = ExitCode(x.st)
    [] Prop = "C05" -> (~first /\ Ended(o0.st) /\ o0.st # "CRASH")
                       => o.st = o0.st /\ o.rc = o0.rc /\ o.vd = o0.vd /\ o.pub = << >>
    [] Prop = "C06" -> /\ o.pub = Pubs(x)
                       /\ first => Range(r.subs) = Subscriptions(y.prog)
    [] Prop = "C23" -> /\ o.stop = Ended(o.st)
                       /\ (~first /\ o.t = "L") => Ended(o.st) /\ o.st = x.st /\ o.rc = ExitCode(x.st) /\ SameOutcomes(x, o) /\ o.pub = Pubs(x)
    [] Prop = "C20" -> o.st = x.st /\ o.rc = ExitCode(x.st) /\ SameOutcomes(x, o)

Check(y, j, o0, first) ==
  LET r == Log[i'] o == r.trie[j]
  IN  Ok(y, o, o0, first, r)
      \/ (PrintT(<<"REJECT", r.id, j, [st |-> Seen(y).st, vd |-> Seen(y).vd, pub |-> Pubs(Seen(y))]>>) /\ FALSE)

Init == i = 0 /\ at = 0 /\ d = [prog |-> [tests |-> << >>, nodes |-> << >>]]

Load == /\ at = 0 /\ i < Len(Log)
        /\ i' \in 1..Len(Log)
        /\ i = 0
        /\ at' = 1
        /\ d' = Started(Prog(Log[i']))
        /\ Check(d', 1, [st |-> ""], TRUE)

Walk == /\ at > 0
        /\ \E j \in Range(Log[i].trie[at].k) :
             /\ i' = i /\ at' = j
             /\ d' = After(d, Log[i].trie[j])
             /\ Check(d', j, Log[i].trie[at], FALSE)

Next == Load \/ Walk
Spec == Init /\ [][Next]_vars
=============================================================================
