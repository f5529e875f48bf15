----------------------------- MODULE TraceStory -----------------------------
(***************************************************************************)
(* Conformance with Story of what generated programs log and ask.  Records *)
(* are as for TraceMachine; a node of a trie has the facts told since its  *)
(* parent (tell), whether a time out was told in its run (to), and what    *)
(* was said on standard output since its parent (conv).                    *)
(***************************************************************************)
EXTENDS Story, TLC, TLCExt, Json, IOUtils

CONSTANT Kind   \* "ros" or "animate"

VARIABLES i, at,
          tell,     \* what the last step told
          sorry     \* whether what was typed last was answered with an apology

vars == <<q, i, at, tell, sorry>>

Log == ndJsonDeserialize(IOEnv.TRACE)

After(x, t) ==
  CASE t.t = "D" -> MAfterDelay(x)
    [] t.t = "T" -> MAfterTimeout(x)
    [] t.t = "L" -> MAfterAlone(x)
    [] t.t = "A" -> IF Kind = "animate" /\ x.st # "WAIT_IN" THEN MStay(x) ELSE MAfterAck(x)
    [] t.t = "O" -> MAfterOutput(x, t.c, t.v)
    [] t.t = "N" -> MStay(x)
    [] t.t = "G" -> MAfterTimeout(x)

Lasting(fs) == SelectSeq(fs, LAMBDA x : x.f # "timeout")
AsSet(s)    == Range(s)
Fact(o, e)  ==
  /\ o.f = e.f
  /\ e.f \in {"enter", "ack", "badack", "off"} => o.s = e.s
  /\ e.f = "off" => o.c = e.c /\ o.k = e.k /\ o.v = e.v
  /\ e.f = "enter" => /\ AsSet(o.ch) = e.ch /\ Len(o.ch) = Cardinality(e.ch)
                      /\ AsSet(o.snd) = e.snd /\ Len(o.snd) = Cardinality(e.snd)
                      /\ AsSet(o.opt) = e.opt /\ Len(o.opt) = Cardinality(e.opt)
                      /\ Kind = "animate" => AsSet(o.val) = { <<x[1], x[2]>> : x \in e.snd }
Facts(os, es) == Len(os) = Len(es) /\ \A n \in DOMAIN es : Fact(os[n], es[n])

MenuOk(o, m) == o.k = "menu" /\ o.ready = m.ready /\ o.accept = m.accept /\ o.timeout = m.timeout /\ AsSet(o.outs) = m.outs /\ Len(o.outs) = Cardinality(m.outs)
Convs(os, y, r, first) ==
  LET a == (IF first /\ y.st = "WAIT_START" THEN <<"wait">> ELSE << >>) \o (IF sorry' THEN <<"sorry">> ELSE << >>)
      b == IF Running(y.st) THEN <<"menu">> ELSE << >>
      all == a \o b
  IN  /\ Len(os) = Len(all)
      /\ \A n \in DOMAIN all : IF all[n] = "menu" THEN MenuOk(os[n], Menu(y, r.types)) ELSE os[n].k = all[n]

(* An animated test whose input ends runs out of time.                     *)
TimedOut(y) == IF Kind = "animate" THEN Running(y.st) \/ y.st = "TIMEOUT" ELSE y.st = "TIMEOUT"

Check(y, j, first) ==
  LET r == Log[i']
      o == r.trie[j]
      ok == /\ Facts(o.tell, Lasting(tell'))
            /\ o.to = (IF TimedOut(y) THEN 1 ELSE 0)
            /\ Kind = "animate" => Convs(o.conv, y, r, first)
  IN  ok \/ (PrintT(<<"REJECT", r.id, j, [told |-> tell', st |-> y.st, sorry |-> sorry']>>) /\ FALSE)

Init == i = 0 /\ at = 0 /\ tell = << >> /\ sorry = FALSE /\ q = [prog |-> [tests |-> << >>, states |-> << >>]]

Load == /\ at = 0 /\ i = 0
        /\ i' \in 1..Len(Log)
        /\ at' = 1
        /\ Assert(Sane(Log[i'].machine), <<"not sane", Log[i'].id>>)
        /\ q' = MStarted(Log[i'].machine)
        /\ tell' = Opening(q') /\ sorry' = FALSE
        /\ Check(q', 1, TRUE)

Walk == /\ at > 0
        /\ \E j \in Range(Log[i].trie[at].k) :
             LET t == Log[i].trie[j] IN
             /\ i' = i /\ at' = j
             /\ q' = After(q, t)
             /\ tell' = Told(Kind, q, t, q')
             /\ sorry' = Sorry(q, t)
             /\ Check(q', j, FALSE)

Next == Load \/ Walk
Spec == Init /\ [][Next]_vars
=============================================================================
