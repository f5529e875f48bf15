------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The generated test program ("driver"): an input-enabled machine that    *)
(* walks a test tree while the system under test, the input channel and    *)
(* the timers do whatever they like.                                       *)
(*                                                                         *)
(* A program is a record                                                   *)
(*   [tests: Seq(STRING), nodes: Seq(Node)]        (node 1 is the root)    *)
(*   Node = [ev: [c,k,v], out: outcome, tests: Seq(STRING), next: Seq(Nat)]*)
(* where c is a channel name, k one of "in","out","call" ("none" for nodes *)
(* without event) and v a tagged value such as "i:5" or "e:Ok".            *)
(*                                                                         *)
(* The whole state of a running program is the record d:                   *)
(*   prog  - the program                                                   *)
(*   n     - the node reached (a node of the tree, hence a position in     *)
(*           every trace through it)                                       *)
(*   st    - its status                                                    *)
(*   vd    - the outcome currently reported for each test                  *)
(*   pub   - what was sent to the system under test by the last step       *)
(***************************************************************************)
EXTENDS Status

VARIABLE d

Kids(p, n)     == p.nodes[n].next
IsFailNode(p, n) == p.nodes[n].out = "fail"
LiveKids(p, n) == SelectSeq(Kids(p, n), LAMBDA m : ~IsFailNode(p, m))

HasFail(p, n)  == \E i \in DOMAIN Kids(p, n) : IsFailNode(p, Kids(p, n)[i])
InKids(p, n)   == SelectSeq(LiveKids(p, n), LAMBDA m : p.nodes[m].ev.k = "in")
HasIn(p, n)    == InKids(p, n) # << >>

(* Channels the program can observe, and those it can send on. *)
OutChans(p) == { p.nodes[m].ev.c : m \in { x \in DOMAIN p.nodes : p.nodes[x].ev.k \in {"out", "call"} } }
InChans(p)  == { p.nodes[m].ev.c : m \in { x \in DOMAIN p.nodes : p.nodes[x].ev.k = "in" } }

(* Outcomes on entering n: each continuation speaks for its own tests; the *)
(* last one to mention a test wins; all others keep what they had.         *)
RECURSIVE Announce(_, _, _)
Announce(p, kids, vd) ==
  IF kids = << >> THEN vd
  ELSE LET m == p.nodes[Head(kids)]
       IN  Announce(p, Tail(kids), [t \in DOMAIN vd |-> IF t \in Range(m.tests) THEN m.out ELSE vd[t]])

(* Entering a node: announce; fail if a failing continuation has been      *)
(* reached; otherwise send the input, if there is one, or wait.            *)
Enter(p, n, vd) ==
  LET nvd == Announce(p, Kids(p, n), vd)
  IN  IF HasFail(p, n) THEN [prog |-> p, n |-> n, st |-> "FAIL", vd |-> nvd, pub |-> << >>]
      ELSE IF HasIn(p, n)
           THEN LET e == p.nodes[Head(InKids(p, n))].ev
                IN  [prog |-> p, n |-> n, st |-> "WAIT_IN", vd |-> nvd, pub |-> << <<e.c, e.v>> >>]
           ELSE [prog |-> p, n |-> n, st |-> "WAIT_OUT", vd |-> nvd, pub |-> << >>]

Started(p) ==
  IF HasIn(p, 1)
  THEN [prog |-> p, n |-> 1, st |-> "WAIT_START", vd |-> Unset(p), pub |-> << >>]
  ELSE Enter(p, 1, Unset(p))

(***************************************************************************)
(* Steps, as functions of the state so that they can be composed.          *)
(***************************************************************************)
AfterDelay(x)   == IF x.st = "WAIT_START" THEN Enter(x.prog, x.n, x.vd) ELSE Stay(x)

AfterTimeout(x) == IF Running(x.st) THEN End(x, "TIMEOUT") ELSE Stay(x)

AfterAck(x) ==
  IF Ended(x.st) THEN Stay(x)
  ELSE IF x.st = "WAIT_IN" THEN Enter(x.prog, Head(InKids(x.prog, x.n)), x.vd)
  ELSE End(x, "BUG")

(* The continuation of n for an observed event, if any: the first match.   *)
Matches(p, n, c, v) ==
  SelectSeq(LiveKids(p, n), LAMBDA m : p.nodes[m].ev.k # "in" /\ p.nodes[m].ev.c = c /\ p.nodes[m].ev.v = v)

AfterOutput(x, c, v) ==
  IF Ended(x.st) THEN Stay(x)
  ELSE LET ms == Matches(x.prog, x.n, c, v)
       IN  IF x.st = "WAIT_OUT" /\ ms # << >> THEN Enter(x.prog, Head(ms), x.vd)
           ELSE End(x, "OFF_SCRIPT")

(* Left alone for long enough, a test starts by itself and then runs out of *)
(* time: the start delay is the shorter of the two.                        *)
AfterAlone(x) == LET y == AfterDelay(x) IN [AfterTimeout(y) EXCEPT !.pub = y.pub]

(* The animated program reads requests from its user.  It offers "ready"   *)
(* and "accept" only where they make sense, and stops reading at the end.  *)
AnimDelay(x)   == IF x.st = "WAIT_START" THEN AfterDelay(x) ELSE Stay(x)
AnimAck(x)     == IF x.st = "WAIT_IN" THEN AfterAck(x) ELSE Stay(x)
AnimEof(x)     == AfterTimeout(x)

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
Delay        == HasIn(d.prog, 1) /\ d' = AfterDelay(d)
Timeout      == d' = AfterTimeout(d)
Ack          == InChans(d.prog) # {} /\ d' = AfterAck(d)
Output(c, v) == c \in OutChans(d.prog) /\ d' = AfterOutput(d, c, v)
Garble       == d' = AnimEof(d)   \* the animated program's input ends or is unreadable
AReady       == d' = AnimDelay(d)
AAccept      == d' = AnimAck(d)

=============================================================================
