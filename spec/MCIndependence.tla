--------------------------- MODULE MCIndependence ---------------------------
(***************************************************************************)
(* One builder building machines for the tests of a suite, in any order,   *)
(* node by node, next to one builder that only ever sees one test.         *)
(*                                                                         *)
(* A test is a sequence of nodes [id, ch, ty], "" being no identifier.     *)
(* Building a test fails at a node whose type does not suit its channel.   *)
(* The builder keeps a counter, a stack, the identifiers taken and the     *)
(* types found; Reset says which of these it clears before each test.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxNodes, NTests, Reset

Ids == {"", "step0", "x"}
Node == [id : Ids, ty : {"nat", "enum"}]
Tests == UNION { [1..n -> Node] : n \in 0..MaxNodes }

Clean == [num |-> 0, stack |-> << >>, taken |-> {"initial"}, ty |-> "none", out |-> << >>]

Id(k) == "step" \o ToString(k)
FreshNum(b, given) == CHOOSE k \in b.num..(b.num + 9) : Id(k) \notin given /\ \A j \in b.num..(k - 1) : Id(j) \in given

Fails(b) == b.ty # "none" /\ b.ty # Head(b.stack).ty
(* One step of building.                                                   *)
StepOf(b, test) ==
  LET x     == Head(b.stack)
      given == { test[n].id : n \in DOMAIN test }
      new   == x.id = "" \/ x.id \in b.taken
      num   == FreshNum(b, given)
      id    == IF new THEN Id(num) ELSE x.id
  IN  [num |-> IF new THEN num + 1 ELSE b.num, stack |-> Tail(b.stack), taken |-> b.taken \cup {id}, ty |-> x.ty, out |-> Append(b.out, id)]

(* The builder when it starts on a test.                                   *)
Start(b, test) ==
  [num   |-> IF "num" \in Reset THEN 0 ELSE b.num,
   stack |-> IF "stack" \in Reset THEN test ELSE test \o b.stack,
   taken |-> IF "taken" \in Reset THEN {"initial"} ELSE b.taken,
   ty    |-> IF "ty" \in Reset THEN "none" ELSE b.ty,
   out   |-> IF "out" \in Reset THEN << >> ELSE b.out]

RECURSIVE Run(_, _)
Run(b, test) == IF b.stack = << >> THEN [ok |-> TRUE, out |-> b.out]
                ELSE IF Fails(b) THEN [ok |-> FALSE, out |-> << >>] ELSE Run(StepOf(b, test), test)
Alone(test) == Run([Clean EXCEPT !.stack = test], test)

VARIABLES suite, b, at, done

vars == <<suite, b, at, done>>

Init == /\ suite \in [1..NTests -> Tests]
        /\ b = Clean /\ at = 0 /\ done = << >>

Pick(k) == /\ at = 0 /\ k \notin DOMAIN done
           /\ at' = k /\ b' = Start(b, suite[k])
           /\ UNCHANGED <<suite, done>>

Finish(r) == /\ done' = [ k \in DOMAIN done \cup {at} |-> IF k = at THEN r ELSE done[k] ]
             /\ at' = 0

Step == /\ at # 0
        /\ IF b.stack = << >> THEN Finish([ok |-> TRUE, out |-> b.out]) /\ b' = b
           ELSE IF Fails(b) THEN Finish([ok |-> FALSE, out |-> << >>]) /\ b' = b
           ELSE b' = StepOf(b, suite[at]) /\ UNCHANGED <<at, done>>
        /\ UNCHANGED suite

Next == Step \/ \E k \in 1..NTests : Pick(k)
Spec == Init /\ [][Next]_vars

Independent == \A k \in DOMAIN done : done[k] = Alone(suite[k])
Unique == \A k \in DOMAIN done : Cardinality({ done[k].out[n] : n \in DOMAIN done[k].out }) = Len(done[k].out)
=============================================================================
