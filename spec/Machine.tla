------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* A state machine run as a test.                                          *)
(*                                                                         *)
(* A machine is a record [tests, states], as in Tests: states is a         *)
(* sequence of [id, sets, vd], the first being where it starts; a set      *)
(* [c, k, ts] has the transitions [v, next] of a channel, and vd maps      *)
(* tests to the outcomes the state gives them.  It may have cycles, states *)
(* that are entered from several others, and states nothing leads to.      *)
(*                                                                         *)
(* A running machine q has the fields of a running Driver; n is the index  *)
(* of the state it is in, and log names the states entered in the last     *)
(* step.                                                                   *)
(***************************************************************************)
EXTENDS Status

VARIABLE q

StateNo(m, id) == CHOOSE i \in DOMAIN m.states : m.states[i].id = id

InSets(s)    == SelectSeq(s.sets, LAMBDA x : x.k = "in")
SendsIn(s)   == InSets(s) # << >>
FailsIn(s)   == \E t \in DOMAIN s.vd : s.vd[t] = "fail"

MOutChans(m) == UNION { { x.c : x \in { y \in Range(m.states[i].sets) : y.k # "in" } } : i \in DOMAIN m.states }
MInChans(m)  == UNION { { x.c : x \in { y \in Range(m.states[i].sets) : y.k = "in" } } : i \in DOMAIN m.states }

MStay(x)    == [x EXCEPT !.pub = << >>, !.log = << >>]
MEnd(x, st) == [x EXCEPT !.st = st, !.pub = << >>, !.log = << >>]

MEnter(m, i, vd) ==
  LET s   == m.states[i]
      nvd == [t \in DOMAIN vd |-> IF t \in DOMAIN s.vd THEN s.vd[t] ELSE vd[t]]
  IN  IF FailsIn(s) THEN [prog |-> m, n |-> i, st |-> "FAIL", vd |-> nvd, log |-> <<s.id>>, pub |-> << >>]
      ELSE IF SendsIn(s)
           THEN LET x == Head(InSets(s))
                IN  [prog |-> m, n |-> i, st |-> "WAIT_IN", vd |-> nvd, log |-> <<s.id>>, pub |-> << <<x.c, Head(x.ts).v>> >>]
           ELSE [prog |-> m, n |-> i, st |-> "WAIT_OUT", vd |-> nvd, log |-> <<s.id>>, pub |-> << >>]

MStarted(m) ==
  IF SendsIn(m.states[1])
  THEN [prog |-> m, n |-> 1, st |-> "WAIT_START", vd |-> Unset(m), log |-> << >>, pub |-> << >>]
  ELSE MEnter(m, 1, Unset(m))

MAfterDelay(x)   == IF x.st = "WAIT_START" THEN MEnter(x.prog, x.n, x.vd) ELSE MStay(x)
MAfterTimeout(x) == IF Running(x.st) THEN MEnd(x, "TIMEOUT") ELSE MStay(x)
MAfterAlone(x)   == LET y == MAfterDelay(x) IN [MAfterTimeout(y) EXCEPT !.pub = y.pub, !.log = y.log]

MAfterAck(x) ==
  IF Ended(x.st) THEN MStay(x)
  ELSE IF x.st = "WAIT_IN"
       THEN MEnter(x.prog, StateNo(x.prog, Head(Head(InSets(x.prog.states[x.n])).ts).next), x.vd)
       ELSE MEnd(x, "BUG")

(* The states an output leads to from state s.                             *)
Targets(s, c, v) == UNION { { a.next : a \in { b \in Range(y.ts) : b.v = v } } : y \in { z \in Range(s.sets) : z.k # "in" /\ z.c = c } }

MAfterOutput(x, c, v) ==
  IF Ended(x.st) THEN MStay(x)
  ELSE LET ts == Targets(x.prog.states[x.n], c, v)
       IN  IF x.st = "WAIT_OUT" /\ ts # {} THEN MEnter(x.prog, StateNo(x.prog, CHOOSE a \in ts : TRUE), x.vd)
           ELSE MEnd(x, "OFF_SCRIPT")

(* What there is to machines for which all this has one meaning.           *)
Sane(m) ==
  /\ m.states # << >>
  /\ \A i, j \in DOMAIN m.states : i # j => m.states[i].id # m.states[j].id
  /\ \A i \in DOMAIN m.states : LET s == m.states[i] IN
       /\ DOMAIN s.vd \subseteq Range(m.tests)
       /\ SendsIn(s) => Len(s.sets) = 1 /\ Len(s.sets[1].ts) = 1
       /\ \A a, b \in DOMAIN s.sets : a # b /\ s.sets[a].c = s.sets[b].c
                                      => s.sets[a].k = s.sets[b].k /\ \A e \in Range(s.sets[a].ts), g \in Range(s.sets[b].ts) : e.v # g.v
       /\ \A a \in DOMAIN s.sets : LET ts == s.sets[a].ts IN
            /\ ts # << >>
            /\ \A e, f \in DOMAIN ts : e # f => ts[e].v # ts[f].v
            /\ \A e \in DOMAIN ts : \E j \in DOMAIN m.states : m.states[j].id = ts[e].next
=============================================================================
