------------------------------ MODULE MCTests ------------------------------
(***************************************************************************)
(* Trees grown node by node, well-formed or not, with a machine being      *)
(* built from them by a worklist.  States what well-formedness, expansion, *)
(* collapsing and machine building have to do with each other.             *)
(***************************************************************************)
EXTENDS Builder, TLC

CONSTANTS MaxNodes, MaxTrace,
          Tidy       \* whether to grow trees of plausible nodes only

VARIABLES tree,    \* flat: sequence of [p, o, e, t] with p the parent's index
          trc      \* a trace

vars == <<tree, trc>>

Ev == { [c |-> "a", k |-> "in", v |-> "n:0"], [c |-> "b", k |-> "out", v |-> "n:0"], [c |-> "b", k |-> "out", v |-> "i:-1"] }

RECURSIVE Grow(_, _)
Grow(tr, i) ==
  LET kids == SelectSeq([j \in 1..Len(tr) |-> j], LAMBDA j : tr[j].p = i)
  IN  Node(tr[i].o, tr[i].e, tr[i].t, [k \in DOMAIN kids |-> Grow(tr, kids[k])])

Root == Grow(tree, 1)

Init == /\ tree \in { <<[p |-> 0, o |-> o, e |-> e, t |-> t]>> : o \in {"unset", "inc"}, e \in {NoEvent, [c |-> "a", k |-> "in", v |-> "n:0"]}, t \in {<< >>, <<"x">>} }
        /\ trc = << >>
AddNode == /\ Len(tree) < MaxNodes /\ trc = << >>
           /\ \E p \in 1..Len(tree), o \in {"unset", "inc", "pass", "fail"}, e \in Ev \cup {NoEvent}, t \in {<< >>, <<"x">>, <<"x", "y">>} :
                tree' = Append(tree, [p |-> p, o |-> o, e |-> e, t |-> t])
           /\ UNCHANGED trc
AddEvent == /\ Len(tree) = 1 /\ Len(trc) < MaxTrace
            /\ \E e \in Ev : trc' = Append(trc, e)
            /\ UNCHANGED tree
(* Plausible nodes, each tree grown in one order only: by parent.           *)
AddTidy == /\ Len(tree) < MaxNodes /\ tree[1] = [p |-> 0, o |-> "unset", e |-> NoEvent, t |-> <<"x">>]
           /\ \E p \in 1..Len(tree), oe \in {<<"fail", NoEvent>>} \cup ({"pass", "inc"} \X Ev), t \in {<<"x">>, <<"y">>} :
                /\ \A n \in 1..Len(tree) : tree[n].p <= p
                /\ tree[p].o # "fail" /\ (tree[p].o = "pass" => \A n \in 1..Len(tree) : tree[n].p # p)
                /\ tree' = Append(tree, [p |-> p, o |-> oe[1], e |-> oe[2], t |-> t])
           /\ UNCHANGED trc
Next == (IF Tidy THEN AddTidy ELSE AddNode) \/ AddEvent
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Tr == [prefix |-> SubSeq(trc, 1, Len(trc) - 1), forbid |-> trc[Len(trc)]]
ExpandOk == trc # << >> => LET x == Expand(Tr, "n") IN
              /\ Canonical(x) /\ WellFormed(x)
              /\ Collapse(x) = [ok |-> TRUE, prefix |-> Tr.prefix, forbid |-> Tr.forbid]
              /\ \A y \in RangeOf(AllNodes(x)) : y.t = <<"n">>
(* What collapses is well-formed and linear, and canonical tests are       *)
(* exactly the expansions of what they collapse to.                        *)
CollapseOk == LET c == Collapse(Root) IN
              /\ c.ok => WellFormed(Root) /\ Linear(Root)
              /\ (WellFormed(Root) /\ Linear(Root) /\ Root.n # << >>) => c.ok
              /\ (Canonical(Root) /\ \A y \in RangeOf(AllNodes(Root)) : y.t = <<"x">>)
                 => Expand([prefix |-> c.prefix, forbid |-> c.forbid], "x") = Root
(* A single ill-formed node anywhere makes the whole test ill-formed, and  *)
(* nothing else does.                                                      *)
Local == WellFormed(Root) <=> RootOk(Root) /\ \A i \in 2..Len(AllNodes(Root)) : NodeOk(AllNodes(Root)[i])

BuildOk == WellFormed(Root) => LET m == Build(Root) IN
             /\ IsImage(Root, m)
             \* dropping the last state, or redirecting a transition, is noticed
             /\ Len(m.states) > 1 => ~IsImage(Root, [m EXCEPT !.states = SubSeq(@, 1, Len(@) - 1)])
             /\ \A i \in DOMAIN m.states : \A a \in DOMAIN m.states[i].sets :
                  /\ ~IsImage(Root, [m EXCEPT !.states[i].sets[a].ts[1].next = 0])
                  /\ ~IsImage(Root, [m EXCEPT !.states[i].sets[a].ts[1].v = "e:zz"])

(* Reading a test node by node is the same as reading it as a tree.        *)
Flat == [i \in DOMAIN tree |-> Node(tree[i].o, tree[i].e, tree[i].t, SelectSeq([j \in 1..Len(tree) |-> j], LAMBDA j : tree[j].p = i))]
SomeFlat(m) == \E at \in [DOMAIN Flat -> 0..Len(m.states)] : FlatImage(Flat, m, at)
FlatOk ==
  /\ FlatWellFormed(Flat) <=> WellFormed(Root)
  /\ FlatEvents(Flat) = EventsIn(Root)
  /\ WellFormed(Root) /\ Len(tree) <= 4 => LET m == Build(Root) IN
       /\ SomeFlat(m)
       /\ \A i \in DOMAIN m.states : \A a \in DOMAIN m.states[i].sets :
            ~SomeFlat([m EXCEPT !.states[i].sets[a].ts[1].next = 0])
  /\ trc # << >> => LET x == FlatExpand(Tr, "n") IN
       /\ FlatWellFormed(x)
       /\ [i \in DOMAIN x |-> [x[i] EXCEPT !.n = << >>]] = [i \in DOMAIN AllNodes(Expand(Tr, "n")) |-> [AllNodes(Expand(Tr, "n"))[i] EXCEPT !.n = << >>]]
       /\ \A i \in 1..Len(x) - 1 : x[i].n = <<i + 1>>

(* Joining is a least upper bound, whatever the order.                     *)
Ty == {"none", "nat", "int", "enum", "clash"}
ASSUME \A a, b \in Ty : Join(a, b) = Join(b, a)
ASSUME \A a, b, c \in Ty : Join(Join(a, b), c) = Join(a, Join(b, c))
ASSUME \A S \in SUBSET {"nat", "int", "enum"} : LET J(b, a) == Join(a, b) IN JoinAll(S) = FoldLeft(J, "none", SetToSeq(S))
TypesOk == LET es == EventsIn(Root) IN \A c \in DOMAIN TypesOf(es) : TypesOf(es)[c] \in {"nat", "int"}

(* Grouping: the tests that can fail after a sequence are those with that prefix. *)
GroupOk == trc # << >> =>
  LET ts == << [name |-> "p", prefix |-> Tr.prefix, forbid |-> Tr.forbid], [name |-> "q", prefix |-> trc, forbid |-> Tr.forbid] >>
  IN  /\ Failures(ts, Tr.prefix) = {[test |-> "p", event |-> Tr.forbid]}
      /\ Failures(ts, trc) = {[test |-> "q", event |-> Tr.forbid]}
      /\ IsPrefixOf(Tr.prefix, trc) /\ ~IsPrefixOf(trc, Tr.prefix)
=============================================================================
