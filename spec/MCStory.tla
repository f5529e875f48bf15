------------------------------ MODULE MCStory ------------------------------
(***************************************************************************)
(* Whoever has read the log of a run knows the run: where the machine is,  *)
(* its status, its outcomes, and what has been sent.                       *)
(***************************************************************************)
EXTENDS MCMachine

CONSTANT TellKind
S == INSTANCE Story

VARIABLE story, lt
svars == <<q, path, sent, steps, story, lt>>

SInit == Init /\ story = S!Opening(q) /\ lt = "S"
Event(t, y) == q' = y /\ story' = story \o S!Told(TellKind, q, t, y) /\ lt' = t.t /\ Tick /\ UNCHANGED path
SNext == \/ Event([t |-> "D"], MAfterDelay(q))
         \/ Event([t |-> "T"], MAfterTimeout(q))
         \/ Event([t |-> "L"], MAfterAlone(q))
         \/ Event([t |-> "A"], IF TellKind = "animate" /\ q.st # "WAIT_IN" THEN MStay(q) ELSE MAfterAck(q))
         \/ \E o \in Outputs : Event([t |-> "O", c |-> o[1], v |-> o[2]], MAfterOutput(q, o[1], o[2]))
SSpec == SInit /\ [][SNext]_svars

Entries == SelectSeq(story, LAMBDA x : x.f = "enter")
Last(s) == s[Len(s)]

RECURSIVE Outcome(_, _)
Outcome(es, t) == IF es = << >> THEN "unset"
                  ELSE IF \E x \in Last(es).ch : x[1] = t THEN (CHOOSE x \in Last(es).ch : x[1] = t)[2]
                  ELSE Outcome(SubSeq(es, 1, Len(es) - 1), t)
Where    == Entries # << >> => Last(Entries).s = q.prog.states[q.n].id
Outcomes_ == \A t \in Range(q.prog.tests) : Outcome(Entries, t) = Word(q.vd[t])
(* Each change starts from what the outcome was.                           *)
Chained  == \A n \in DOMAIN Entries : \A x \in Entries[n].ch : x[3] = Outcome(SubSeq(Entries, 1, n - 1), x[1]) /\ x[2] # x[3]
Told_    == LET l == IF story = << >> THEN "none" ELSE Last(story).f IN
            q.st = CASE l = "none"    -> "WAIT_START"
                     [] l = "timeout" -> "TIMEOUT"
                     [] l = "badack"  -> "BUG"
                     [] l = "off"     -> "OFF_SCRIPT"
                     [] l = "enter"   -> LET e == Last(story) IN
                                         IF \E t \in Range(q.prog.tests) : Outcome(Entries, t) = "failed" THEN "FAIL"
                                         ELSE IF e.snd # {} THEN "WAIT_IN" ELSE "WAIT_OUT"
Sent_    == LET es == SelectSeq(Entries, LAMBDA x : x.snd # {}) IN
            sent = [ n \in DOMAIN es |-> LET x == CHOOSE x \in es[n].snd : TRUE IN <<x[1], x[2]>> ]
(* Each state entered is one the last told of.                             *)
Foretold == \A n \in 2..Len(Entries) : \E x \in Entries[n - 1].snd \cup Entries[n - 1].opt : x[3] = Entries[n].s
(* The prompt offers what would not be answered with an apology.           *)
Offers   == Running(q.st) => LET m == S!Menu(q, [c \in {"a", "b", "c"} |-> "nat"]) IN
              m.ready = ~S!Sorry(q, [t |-> "D"]) /\ m.accept = ~S!Sorry(q, [t |-> "A"])
=============================================================================
