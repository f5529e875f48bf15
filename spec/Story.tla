------------------------------- MODULE Story -------------------------------
(***************************************************************************)
(* What the log and the prompt of a running machine tell its user.         *)
(*                                                                         *)
(* Told(kind, x, t, y) is what the log says of the step from x to y that   *)
(* the event t made.  A fact is a record whose field f says what it is:    *)
(*  "enter"   state s has been entered; ch are the outcomes that changed,  *)
(*            as <<test, new, old>>; snd is the input that is sent, as     *)
(*            <<channel, value, next state>>; opt the outputs it can take  *)
(*  "ack"     the input of state s has been accepted                       *)
(*  "badack"  an acknowledgement was not expected in state s               *)
(*  "off"     the value v on channel c, of kind k, was not expected in     *)
(*            state s                                                      *)
(*  "delay", "timeout"                                                     *)
(***************************************************************************)
EXTENDS Machine

Triples(s, ks) == UNION { { <<x.c, y.v, y.next>> : y \in Range(x.ts) } : x \in { z \in Range(s.sets) : z.k \in ks } }
Changes(s, vd) == { <<t, Word(s.vd[t]), Word(vd[t])>> : t \in { t \in DOMAIN s.vd : s.vd[t] # vd[t] } }

(* The kind of a channel the SUT performs.                                 *)
KindOf(m, c) == LET on == { z \in UNION { Range(m.states[i].sets) : i \in DOMAIN m.states } : z.c = c /\ z.k # "in" }
                IN  IF on = {} THEN "out" ELSE (CHOOSE z \in on : TRUE).k

Enters(m, i, vd) ==
  LET s == m.states[i] IN
  [f |-> "enter", s |-> s.id, ch |-> Changes(s, vd),
   snd |-> IF FailsIn(s) \/ ~SendsIn(s) THEN {} ELSE Triples(s, {"in"}),
   opt |-> IF FailsIn(s) \/ SendsIn(s) THEN {} ELSE Triples(s, {"out", "call"})]
Of(f, x) == [f |-> f, s |-> x.prog.states[x.n].id]

Told(kind, x, t, y) ==
  IF Ended(x.st) THEN << >>
  ELSE CASE t.t = "D" -> IF x.st = "WAIT_START" THEN <<[f |-> "delay"], Enters(y.prog, y.n, x.vd)>> ELSE << >>
         [] t.t = "L" -> (IF x.st = "WAIT_START" THEN <<[f |-> "delay"], Enters(y.prog, y.n, x.vd)>> ELSE << >>)
                         \o (IF y.st = "TIMEOUT" THEN <<[f |-> "timeout"]>> ELSE << >>)
         [] t.t \in {"T", "G"} -> <<[f |-> "timeout"]>>
         [] t.t = "A" -> IF x.st = "WAIT_IN" THEN <<Of("ack", x), Enters(y.prog, y.n, x.vd)>>
                         ELSE IF kind = "animate" THEN << >> ELSE <<Of("badack", x)>>
         [] t.t = "O" -> IF y.st = "OFF_SCRIPT" THEN <<[f |-> "off", s |-> x.prog.states[x.n].id, c |-> t.c, k |-> KindOf(x.prog, t.c), v |-> t.v]>>
                         ELSE <<Enters(y.prog, y.n, x.vd)>>
         [] t.t = "N" -> << >>
(* What is told before anything happens.                                   *)
Opening(x) == IF x.st = "WAIT_START" THEN << >> ELSE <<Enters(x.prog, 1, Unset(x.prog))>>

(* The prompt: what can be typed.  types maps channels to types.           *)
Menu(x, types) == [ready |-> x.st = "WAIT_START", accept |-> x.st = "WAIT_IN", timeout |-> TRUE,
                   outs |-> { <<c, types[c]>> : c \in MOutChans(x.prog) }]
(* How what was typed is answered, and what can be typed next.             *)
Sorry(x, t) == Running(x.st) /\ \/ t.t = "N"
                                \/ t.t = "A" /\ x.st # "WAIT_IN"
                                \/ t.t = "D" /\ x.st # "WAIT_START"
=============================================================================
