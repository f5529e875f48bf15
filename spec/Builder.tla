------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The worklist that turns a well-formed test into a machine.              *)
(***************************************************************************)
EXTENDS Tests

RECURSIVE Work(_, _, _)
Work(stack, states, next) ==
  IF stack = << >> THEN states
  ELSE LET top == stack[Len(stack)] x == top.x rest == SubSeq(stack, 1, Len(stack) - 1) IN
       IF x.o = "fail" THEN Work(rest, states, next)
       ELSE LET named == [i \in DOMAIN x.n |-> [x |-> x.n[i], id |-> next + i]]
                live  == SelectSeq(named, LAMBDA y : y.x.o # "fail")
                chs   == ChansOf(LiveNext(x))
                st    == [ id   |-> top.id,
                           sets |-> [a \in DOMAIN chs |-> [c |-> chs[a].c, k |-> chs[a].k,
                                       ts |-> LET on == SelectSeq(live, LAMBDA y : y.x.e.c = chs[a].c /\ y.x.e.k = chs[a].k)
                                              IN  [b \in DOMAIN on |-> [v |-> on[b].x.e.v, next |-> on[b].id]]]],
                           vd   |-> [t \in TestsBelow(x) |-> LET js == { j \in DOMAIN x.n : t \in RangeOf(x.n[j].t) }
                                                             IN  x.n[CHOOSE j \in js : \A l \in js : l <= j].o] ]
            IN  Work(rest \o named, Append(states, st), next + Len(x.n))
Build(root) == [states |-> Work(<<[x |-> root, id |-> 0]>>, << >>, 0),
                tests  |-> SetToSeq(UNION { TestsBelow(y) : y \in RangeOf(AllNodes(root)) })]
=============================================================================
