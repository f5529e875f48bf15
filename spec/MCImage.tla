------------------------------ MODULE MCImage ------------------------------
(***************************************************************************)
(* A test and the machine built from it, run side by side: they never      *)
(* differ in status, in outcomes or in what they send.  This is what makes *)
(* the image of C11 the right one for C01 to C06.                          *)
(***************************************************************************)
EXTENDS Builder, TLC

CONSTANTS MaxNodes, MaxSteps

VARIABLES d, q, tree, steps

D == INSTANCE Driver
Q == INSTANCE Machine

vars == <<d, q, tree, steps>>

Ev == { [c |-> "a", k |-> "in", v |-> "0"], [c |-> "b", k |-> "out", v |-> "0"], [c |-> "b", k |-> "out", v |-> "1"], [c |-> "c", k |-> "call", v |-> "0"] }
Outputs == { <<"b", "0">>, <<"b", "1">>, <<"b", "2">>, <<"c", "0">> }
Names == {"x", "y"}
Off == [st |-> "OFF"]

(* Trees grown by parent, as in MCTests, as flat programs: node p has the  *)
(* nodes that name it as their parent for continuations.                   *)
Kids(tr, i) == SelectSeq([j \in 1..Len(tr) |-> j], LAMBDA j : tr[j].p = i)
Flat(tr) == [ tests |-> <<"x", "y">>,
              nodes |-> [i \in 1..Len(tr) |-> [ev |-> tr[i].e, out |-> tr[i].o, tests |-> tr[i].t, next |-> Kids(tr, i)]] ]
RECURSIVE Grow(_, _)
Grow(tr, i) == Node(tr[i].o, tr[i].e, tr[i].t, [k \in DOMAIN Kids(tr, i) |-> Grow(tr, Kids(tr, i)[k])])

(* Tests that have one meaning: no choice between inputs, or between an    *)
(* input and an output; no two continuations for the same event; one       *)
(* outcome per test.                                                       *)
Clear(x) ==
  LET ys == LiveNext(x) IN
  /\ \A i, j \in DOMAIN ys : i # j => ys[i].e # ys[j].e /\ ys[i].e.k # "in" /\ ys[j].e.k # "in"
  /\ \A t \in TestsBelow(x) : Cardinality(OutcomesGiven(x, t)) = 1
RECURSIVE AllClear(_)
AllClear(x) == Clear(x) /\ \A i \in DOMAIN x.n : AllClear(x.n[i])

Init == /\ tree = << [p |-> 0, o |-> "unset", e |-> NoEvent, t |-> <<"x", "y">>] >>
        /\ d = Off /\ q = Off /\ steps = 0

AddNode == /\ d = Off /\ Len(tree) < MaxNodes
           /\ \E p \in 1..Len(tree), oe \in {<<"fail", NoEvent>>} \cup ({"pass", "inc"} \X Ev), t \in {<<"x">>, <<"y">>, <<"x", "y">>} :
                /\ \A n \in 1..Len(tree) : tree[n].p <= p
                /\ tree[p].o # "fail" /\ (tree[p].o = "pass" => \A n \in 1..Len(tree) : tree[n].p # p)
                /\ tree' = Append(tree, [p |-> p, o |-> oe[1], e |-> oe[2], t |-> t])
           /\ UNCHANGED <<d, q, steps>>

Full(m) == [m EXCEPT !.tests = <<"x", "y">>]
Start == /\ d = Off
         /\ LET x == Grow(tree, 1) IN
            /\ WellFormed(x) /\ AllClear(x)
            /\ d' = D!Started(Flat(tree))
            /\ q' = Q!MStarted(Full(Build(x)))
         /\ UNCHANGED <<tree, steps>>

Go == /\ d # Off /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED tree
      /\ \/ d' = D!AfterDelay(d)   /\ q' = Q!MAfterDelay(q)
         \/ d' = D!AfterTimeout(d) /\ q' = Q!MAfterTimeout(q)
         \/ d' = D!AfterAlone(d)   /\ q' = Q!MAfterAlone(q)
         \/ d' = D!AfterAck(d)     /\ q' = Q!MAfterAck(q)
         \/ \E o \in Outputs : d' = D!AfterOutput(d, o[1], o[2]) /\ q' = Q!MAfterOutput(q, o[1], o[2])

Next == AddNode \/ Start \/ Go
Spec == Init /\ [][Next]_vars

SaneImage == d # Off => Q!Sane(q.prog)
InStep    == d # Off => d.st = q.st /\ d.vd = q.vd /\ d.pub = q.pub
Channels  == d # Off => D!OutChans(d.prog) = Q!MOutChans(q.prog) /\ D!InChans(d.prog) = Q!MInChans(q.prog)
=============================================================================
