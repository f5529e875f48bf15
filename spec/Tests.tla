------------------------------- MODULE Tests -------------------------------
(***************************************************************************)
(* Tests: trees of nodes [o, e, t, n] with outcome o, event e = [c, k, v]  *)
(* (NoEvent if there is none), test names t and continuations n.           *)
(*                                                                         *)
(* Forbidden traces are records [prefix, forbid].                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

NoEvent == [c |-> "", k |-> "none", v |-> ""]
HasEvent(x) == x.e # NoEvent

Node(o, e, t, n) == [o |-> o, e |-> e, t |-> t, n |-> n]

-----------------------------------------------------------------------------
(* Well-formedness                                                         *)
RootOk(x) == ~HasEvent(x) /\ x.o = "unset" /\ x.t # << >>

NodeOk(x) ==
  /\ x.t # << >>
  /\ CASE x.o = "fail" -> ~HasEvent(x) /\ x.n = << >>
       [] x.o = "pass" -> HasEvent(x) /\ Len(x.n) = 1
       [] x.o = "inc"  -> HasEvent(x) /\ x.n # << >>
       [] OTHER        -> FALSE

RECURSIVE AllOk(_)
AllOk(xs) == \A i \in DOMAIN xs : NodeOk(xs[i]) /\ AllOk(xs[i].n)

WellFormed(root) == RootOk(root) /\ AllOk(root.n)

-----------------------------------------------------------------------------
(* From a forbidden trace to a test and back                               *)
RECURSIVE Follow(_, _, _)
Follow(prefix, forbid, name) ==
  IF prefix = << >>
  THEN Node("pass", forbid, <<name>>, << Node("fail", NoEvent, <<name>>, << >>) >>)
  ELSE Node("inc", prefix[1], <<name>>, << Follow(Tail(prefix), forbid, name) >>)

Expand(tr, name) == Node("unset", NoEvent, <<name>>, << Follow(tr.prefix, tr.forbid, name) >>)

Error == [ok |-> FALSE]

(* Collapsing walks down the only branch there is.                         *)
RECURSIVE CollapseFrom(_, _, _)
CollapseFrom(x, prefix, forbid) ==
  IF Len(x.n) # 1 THEN Error
  ELSE LET y == x.n[1] IN
       IF ~NodeOk(y) THEN Error
       ELSE CASE y.o = "fail" -> [ok |-> TRUE, prefix |-> prefix, forbid |-> forbid]
              [] y.o = "pass" -> CollapseFrom(y, prefix, y.e)
              [] y.o = "inc"  -> CollapseFrom(y, Append(prefix, y.e), forbid)

Collapse(root) == IF ~RootOk(root) THEN Error ELSE CollapseFrom(root, << >>, NoEvent)

RECURSIVE Linear(_)
Linear(x) == Len(x.n) <= 1 /\ \A i \in DOMAIN x.n : Linear(x.n[i])

(* A test that is the image of some trace: inconclusive, then passing, then *)
(* failing.                                                                *)
RECURSIVE Outcomes(_)
Outcomes(x) == <<x.o>> \o (IF x.n = << >> THEN << >> ELSE Outcomes(x.n[1]))
Canonical(root) ==
  /\ WellFormed(root) /\ Linear(root)
  /\ LET os == Outcomes(root) n == Len(os) IN
     n >= 3 /\ os[n] = "fail" /\ os[n - 1] = "pass" /\ \A i \in 2..(n - 2) : os[i] = "inc"

-----------------------------------------------------------------------------
(* Grouping traces by what may follow a sequence of events                 *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* tests: a sequence of [name, prefix, forbid]                             *)
Failures(tests, after) == { [test |-> tests[i].name, event |-> tests[i].forbid] :
                            i \in { j \in DOMAIN tests : tests[j].prefix = after } }
LastEvent(after) == IF after = << >> THEN NoEvent ELSE after[Len(after)]
Point(f) == Node("pass", f.event, <<f.test>>, << Node("fail", NoEvent, <<f.test>>, << >>) >>)
IsInput(f) == f.event.k = "in"

-----------------------------------------------------------------------------
(* Types of values and of channels.  A value is a tagged string: its first *)
(* two characters are "n:" for naturals, "i:" for negative integers, "e:"  *)
(* for text.                                                               *)
TypeOfValue(v) == LET h == SubSeq(v, 1, 2) IN CASE h = "n:" -> "nat" [] h = "i:" -> "int" [] h = "e:" -> "enum" [] OTHER -> "none"
Join(a, b) ==
  CASE a = b -> a
    [] a = "none" -> b
    [] b = "none" -> a
    [] {a, b} = {"nat", "int"} -> "int"
    [] OTHER -> "clash"

RECURSIVE EventsIn(_)
EventsIn(x) == (IF HasEvent(x) THEN {x.e} ELSE {}) \cup UNION { EventsIn(x.n[i]) : i \in DOMAIN x.n }

JoinAll(S) == IF S \subseteq {"nat"} THEN (IF S = {} THEN "none" ELSE "nat")
              ELSE IF S \subseteq {"nat", "int"} THEN "int"
              ELSE IF S = {"enum"} THEN "enum" ELSE "clash"
TypesOf(es) == [ c \in { e.c : e \in es } |-> JoinAll({ TypeOfValue(e.v) : e \in { f \in es : f.c = c } }) ]

-----------------------------------------------------------------------------
(* State machines                                                          *)
(* A machine is [states, tests]; a state is [id, sets, vd]; a set is       *)
(* [c, k, ts] with transitions [v, next]; vd maps tests to outcomes.       *)
RECURSIVE AllNodes(_)
AllNodes(x) == <<x>> \o FoldLeft(LAMBDA acc, y : acc \o AllNodes(y), << >>, x.n)
LiveCount(x) == Len(SelectSeq(AllNodes(x), LAMBDA y : y.o # "fail"))

RangeOf(s) == { s[i] : i \in DOMAIN s }
LiveNext(x) == SelectSeq(x.n, LAMBDA y : y.o # "fail")

(* Channels in order of first use, with the continuations on each.         *)
ChansOf(ys) == FoldLeft(LAMBDA acc, y : IF [c |-> y.e.c, k |-> y.e.k] \in RangeOf(acc) THEN acc
                                        ELSE Append(acc, [c |-> y.e.c, k |-> y.e.k]), << >>, ys)
On(ys, ch) == SelectSeq(ys, LAMBDA y : y.e.c = ch.c /\ y.e.k = ch.k)

OutcomesGiven(x, t) == { x.n[i].o : i \in { j \in DOMAIN x.n : t \in RangeOf(x.n[j].t) } }
TestsBelow(x) == UNION { RangeOf(x.n[i].t) : i \in DOMAIN x.n }

StateOk(x, s) ==
  /\ DOMAIN s.vd = TestsBelow(x)
  /\ \A t \in TestsBelow(x) : s.vd[t] \in OutcomesGiven(x, t)
  /\ LET ys == LiveNext(x) chs == ChansOf(ys)
     IN  /\ Len(s.sets) = Len(chs)
         /\ \A i \in DOMAIN chs : /\ s.sets[i].c = chs[i].c /\ s.sets[i].k = chs[i].k
                                  /\ LET on == On(ys, chs[i]) IN
                                     /\ Len(s.sets[i].ts) = Len(on)
                                     /\ \A j \in DOMAIN on : s.sets[i].ts[j].v = on[j].e.v

StatesCalled(m, id) == { i \in DOMAIN m.states : m.states[i].id = id }

(* The states reached from state i if it is the image of x: a set of       *)
(* indices, or {0} if it is not.                                           *)
RECURSIVE Image(_, _, _)
Image(m, x, i) ==
  LET s == m.states[i] IN
  IF ~StateOk(x, s) THEN {0}
  ELSE LET ys == LiveNext(x) chs == ChansOf(ys)
       IN  {i} \cup UNION { LET on == On(ys, chs[a]) IN
                            UNION { LET tgt == StatesCalled(m, s.sets[a].ts[b].next)
                                    IN IF Cardinality(tgt) # 1 THEN {0} ELSE Image(m, on[b], CHOOSE z \in tgt : TRUE)
                                    : b \in DOMAIN on }
                            : a \in DOMAIN chs }

IsImage(root, m) ==
  /\ Len(m.states) = LiveCount(root)
  /\ \A i, j \in DOMAIN m.states : i # j => m.states[i].id # m.states[j].id
  /\ LET im == Image(m, root, 1) IN im = DOMAIN m.states
  /\ LET below == UNION { RangeOf(y.t) : y \in RangeOf(Tail(AllNodes(root))) }
     IN  below \subseteq RangeOf(m.tests) /\ RangeOf(m.tests) \subseteq below \cup RangeOf(root.t)
  /\ Cardinality(RangeOf(m.tests)) = Len(m.tests)

-----------------------------------------------------------------------------
(* Tests too deep or wide to be read as trees: the sequence of their nodes, *)
(* root first, with n holding the places of the continuations.             *)
FlatWellFormed(f) == RootOk(f[1]) /\ \A i \in 2..Len(f) : NodeOk(f[i])
FlatEvents(f) == { f[i].e : i \in { j \in DOMAIN f : HasEvent(f[j]) } }
Unfold(f, i) == [f[i] EXCEPT !.n = [j \in DOMAIN f[i].n |-> f[f[i].n[j]]]]
LiveKids(f, i) == SelectSeq(f[i].n, LAMBDA j : f[j].o # "fail")

(* The same as IsImage, given the place at[i] of the state of each node i   *)
(* that has one.                                                           *)
FlatImage(f, m, at) ==
  LET live == { i \in DOMAIN f : f[i].o # "fail" }
      below == UNION { RangeOf(f[i].t) : i \in 2..Len(f) }
  IN
  /\ DOMAIN at = DOMAIN f /\ at[1] = 1
  /\ { at[i] : i \in live } = DOMAIN m.states /\ Len(m.states) = Cardinality(live)
  /\ Cardinality({ m.states[a].id : a \in DOMAIN m.states }) = Len(m.states)
  /\ \A i \in live :
       LET x == Unfold(f, i) s == m.states[at[i]] chs == ChansOf(LiveNext(x)) ks == LiveKids(f, i) IN
       /\ StateOk(x, s)
       /\ \A a \in DOMAIN chs :
            LET on == SelectSeq(ks, LAMBDA j : f[j].e.c = chs[a].c /\ f[j].e.k = chs[a].k)
            IN  \A b \in DOMAIN on : m.states[at[on[b]]].id = s.sets[a].ts[b].next
  /\ below \subseteq RangeOf(m.tests) /\ RangeOf(m.tests) \subseteq below \cup RangeOf(f[1].t)
  /\ Cardinality(RangeOf(m.tests)) = Len(m.tests)

(* The expansion of a trace, node by node.                                 *)
FlatExpand(tr, name) ==
  LET n == Len(tr.prefix) IN
  << Node("unset", NoEvent, <<name>>, <<2>>) >>
  \o [i \in 1..n |-> Node("inc", tr.prefix[i], <<name>>, <<i + 2>>)]
  \o << Node("pass", tr.forbid, <<name>>, <<n + 3>>), Node("fail", NoEvent, <<name>>, << >>) >>
=============================================================================
