------------------------------ MODULE MCDriver ------------------------------
(***************************************************************************)
(* Exhaustive model of the driver on every script of at most MaxLen events *)
(* over a small alphabet, under every environment.  The history variables  *)
(* hist (events that took place while the test ran) and sent (everything   *)
(* sent so far) state C01-C06 independently of the machine's own notions.  *)
(***************************************************************************)
EXTENDS Driver, TLC

CONSTANTS MaxLen, MaxSteps

VARIABLES tr, hist, sent, steps

vars == <<d, tr, hist, sent, steps>>

Ev(c, k, v) == [c |-> c, k |-> k, v |-> v]

Alphabet == { Ev("a", "in", "i:0"), Ev("a", "in", "i:1"), Ev("b", "out", "i:0"), Ev("b", "out", "i:1"),
              Ev("c", "call", "e:x") }
NoEv == Ev("", "none", "")

Outputs == { <<"b", "i:0">>, <<"b", "i:1">>, <<"b", "i:2">>, <<"c", "e:x">>, <<"c", "e:y">> }

Scripts == UNION { [1..k -> Alphabet] : k \in 1..MaxLen }

(* The test for a script, as expanded: root, inc.., pass, fail. *)
Tree(s) ==
  [ tests |-> <<"t">>,
    nodes |-> [ i \in 1..(Len(s) + 2) |->
      [ ev    |-> IF i = 1 \/ i = Len(s) + 2 THEN NoEv ELSE s[i - 1],
        out   |-> IF i = 1 THEN "unset" ELSE IF i = Len(s) + 2 THEN "fail" ELSE IF i = Len(s) + 1 THEN "pass" ELSE "inc",
        tests |-> <<"t">>,
        next  |-> IF i = Len(s) + 2 THEN << >> ELSE <<i + 1>> ] ] ]

Init == /\ tr \in Scripts
        /\ d = Started(Tree(tr))
        /\ hist = << >>
        /\ sent = d.pub
        /\ steps = 0

Log(e) == IF Running(d.st) THEN hist' = Append(hist, e) ELSE UNCHANGED hist

Pre == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED tr
Post == sent' = sent \o d'.pub

NDelay   == Pre /\ Delay /\ UNCHANGED hist /\ Post
NTimeout == Pre /\ Timeout /\ UNCHANGED hist /\ Post
(* An acknowledgement is the input's taking place, if one is outstanding.  *)
NAck     == /\ Pre /\ Ack /\ Post
            /\ IF d.st = "WAIT_IN" THEN Log(tr[Len(hist) + 1]) ELSE UNCHANGED hist
NOutput  == \E o \in Outputs : /\ Pre /\ Output(o[1], o[2]) /\ Post
                               /\ Log(Ev(o[1], IF o[1] = "c" THEN "call" ELSE "out", o[2]))

Next == NDelay \/ NTimeout \/ NAck \/ NOutput

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Inputs(s) == SelectSeq(s, LAMBDA e : e.k = "in")
Sent(s)   == [ i \in DOMAIN Inputs(s) |-> <<Inputs(s)[i].c, Inputs(s)[i].v>> ]
IsPre(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

Sound    == d.st = "FAIL" => hist = tr                                           \* C01
Complete == hist = tr => d.st = "FAIL"                                           \* C02
Position ==                                                                      \* C03
  LET k == Len(hist) IN
  Running(d.st) =>
    /\ IsPre(hist, tr)
    /\ d.vd["t"] = IF d.st = "WAIT_START" THEN "unset"
                   ELSE IF k < Len(tr) - 1 THEN "inc" ELSE "pass"
Outcome  ==
  /\ d.vd["t"] = "fail" <=> d.st = "FAIL"
  /\ d.vd["t"] = "pass" => Len(hist) >= Len(tr) - 1 /\ IsPre(SubSeq(tr, 1, Len(tr) - 1), hist)
TypeOK   == d.st \in {"WAIT_START", "WAIT_IN", "WAIT_OUT", "OFF_SCRIPT", "TIMEOUT", "FAIL", "BUG"}
Follow   == \* C04: while running, the history is a proper prefix and the kind of waiting is that of the next event
  Running(d.st) => /\ Len(hist) < Len(tr) /\ IsPre(hist, tr)
                   /\ (d.st = "WAIT_OUT") = (tr[Len(hist) + 1].k # "in")
                   /\ (d.st = "WAIT_START") => hist = << >>
OffScript == d.st = "OFF_SCRIPT" => hist # << >> /\ ~IsPre(hist, tr) /\ IsPre(SubSeq(hist, 1, Len(hist) - 1), tr)
Stimuli  ==                                                                      \* C06
  /\ IsPre(sent, Sent(tr))
  /\ Running(d.st) =>
       sent = Sent(SubSeq(tr, 1, IF d.st = "WAIT_IN" THEN Len(hist) + 1 ELSE Len(hist)))
Absorbing == [][Ended(d.st) => d'.st = d.st /\ d'.vd = d.vd /\ d'.n = d.n /\ d'.pub = << >>]_vars   \* C05
OneStep   == [][Len(hist') <= Len(hist) + 1 /\ Len(sent') <= Len(sent) + 1]_vars
=============================================================================
