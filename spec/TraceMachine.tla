---------------------------- MODULE TraceMachine ----------------------------
(***************************************************************************)
(* Conformance with Machine of programs generated from state machines.     *)
(* The records are like those of TraceDriver, with a machine instead of a  *)
(* tree.                                                                   *)
(***************************************************************************)
EXTENDS Machine, TLC, TLCExt, Json, IOUtils

CONSTANT Kind   \* "ros" or "animate"

VARIABLES i, at,
          trail     \* the states entered so far

vars == <<q, i, at, trail>>

Log == ndJsonDeserialize(IOEnv.TRACE)

After(x, t) ==
  CASE t.t = "D" -> MAfterDelay(x)
    [] t.t = "T" -> MAfterTimeout(x)
    [] t.t = "L" -> MAfterAlone(x)
    [] t.t = "A" -> IF Kind = "animate" /\ x.st # "WAIT_IN" THEN MStay(x) ELSE MAfterAck(x)
    [] t.t = "O" -> MAfterOutput(x, t.c, t.v)
    [] t.t = "N" -> MStay(x)
    [] t.t = "G" -> MAfterTimeout(x)

Seen(x) == IF Kind = "animate" THEN MAfterTimeout(x) ELSE x

Ok(y, tr, o, first, r) ==
  LET x == Seen(y) IN
  /\ o.st = x.st /\ o.rc = ExitCode(x.st) /\ SameOutcomes(x, o)
  /\ o.ent = tr
  /\ Kind = "ros" => /\ o.pub = Pubs(x)
                     /\ o.stop = Ended(x.st)
                     /\ first => Range(r.subs) = Topics(MOutChans(y.prog), MInChans(y.prog))

Check(y, j, first) ==
  LET r == Log[i'] IN
  Ok(y, trail', r.trie[j], first, r)
  \/ (PrintT(<<"REJECT", r.id, j, [st |-> Seen(y).st, vd |-> Seen(y).vd, pub |-> Pubs(Seen(y)), entered |-> trail']>>) /\ FALSE)

Init == i = 0 /\ at = 0 /\ trail = << >> /\ q = [prog |-> [tests |-> << >>, states |-> << >>]]

Load == /\ at = 0 /\ i = 0
        /\ i' \in 1..Len(Log)
        /\ at' = 1
        /\ Assert(Sane(Log[i'].machine), <<"not sane", Log[i'].id>>)
        /\ q' = MStarted(Log[i'].machine)
        /\ trail' = q'.log
        /\ Check(q', 1, TRUE)

Walk == /\ at > 0
        /\ \E j \in Range(Log[i].trie[at].k) :
             /\ i' = i /\ at' = j
             /\ q' = After(q, Log[i].trie[j])
             /\ trail' = trail \o q'.log
             /\ Check(q', j, FALSE)

Next == Load \/ Walk
Spec == Init /\ [][Next]_vars
=============================================================================
