------------------------------ MODULE MCClock ------------------------------
(***************************************************************************)
(* Driver with a clock.  The two timers of a test are periodic; events can *)
(* come at any time, or not at all.  Shows that a test that is left alone  *)
(* does what AfterAlone says, that every test ends although nothing but    *)
(* its timers can be relied on, and that its program stops with it.        *)
(***************************************************************************)
EXTENDS Driver, TLC

CONSTANTS MaxLen, MaxSteps, DelaySec, TimeoutSec

ASSUME 0 < DelaySec /\ DelaySec < TimeoutSec

VARIABLES now, due,    \* time, and when each timer is due
          up,          \* whether the program is running
          x0, sent,    \* the state after the last event, and what has been sent since
          steps

vars == <<d, now, due, up, x0, sent, steps>>

Ev(c, k, v) == [c |-> c, k |-> k, v |-> v]
Alphabet == { Ev("a", "in", "0"), Ev("b", "out", "0"), Ev("b", "out", "1"), Ev("c", "call", "x") }
NoEv == Ev("", "none", "")
Outputs == { <<"b", "0">>, <<"b", "1">>, <<"c", "x">> }
Scripts == UNION { [1..k -> Alphabet] : k \in 1..MaxLen }
Tree(s) ==
  [ tests |-> <<"t">>,
    nodes |-> [ i \in 1..(Len(s) + 2) |->
      [ ev    |-> IF i = 1 \/ i = Len(s) + 2 THEN NoEv ELSE s[i - 1],
        out   |-> IF i = 1 THEN "unset" ELSE IF i = Len(s) + 2 THEN "fail" ELSE IF i = Len(s) + 1 THEN "pass" ELSE "inc",
        tests |-> <<"t">>,
        next  |-> IF i = Len(s) + 2 THEN << >> ELSE <<i + 1>> ] ] ]

Init == /\ \E s \in Scripts : d = Started(Tree(s))
        /\ now = 0 /\ due = [delay |-> DelaySec, timeout |-> TimeoutSec]
        /\ up = TRUE /\ x0 = d /\ sent = << >> /\ steps = 0

(* A timer expires when it is due, and no timer is overlooked.             *)
Fire(t) == /\ up
           /\ \A u \in DOMAIN due : due[t] <= due[u]
           /\ now' = due[t]
           /\ due' = [due EXCEPT ![t] = @ + (IF t = "delay" THEN DelaySec ELSE TimeoutSec)]
           /\ d' = IF t = "timeout" THEN AfterTimeout(d) ELSE AfterDelay(d)
           /\ sent' = sent \o d'.pub
           /\ UNCHANGED <<up, x0, steps>>

Event == /\ up /\ steps < MaxSteps /\ steps' = steps + 1
         /\ \/ InChans(d.prog) # {} /\ d' = AfterAck(d)
            \/ \E o \in Outputs : o[1] \in OutChans(d.prog) /\ d' = AfterOutput(d, o[1], o[2])
         /\ x0' = d' /\ sent' = << >>
         /\ UNCHANGED <<now, due, up>>

Stop == up /\ Ended(d.st) /\ up' = FALSE /\ UNCHANGED <<d, now, due, x0, sent, steps>>

Next == Fire("delay") \/ Fire("timeout") \/ Event \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Fire("delay") \/ Fire("timeout")) /\ WF_vars(Stop)

(* Nothing is fired after the first time out, so the clock is bounded.     *)
Bound == now <= 2 * TimeoutSec

-----------------------------------------------------------------------------
Finite == now <= TimeoutSec \/ Ended(d.st)
Alone  == now >= TimeoutSec /\ Ended(d.st) =>
            LET y == AfterAlone(x0) IN d.st = y.st /\ d.vd = y.vd /\ d.n = y.n /\ sent = y.pub
StartsOnTime == now >= DelaySec => d.st # "WAIT_START" \/ due.delay <= now
OnlyThen == ~up => Ended(d.st)
Ends  == <>Ended(d.st)
Stops == <>~up
=============================================================================
