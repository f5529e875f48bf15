---------------------------- MODULE Independence ----------------------------
(***************************************************************************)
(* What stays the same about a test whatever it is processed with.         *)
(*                                                                         *)
(* Tests are nodes [o, e, t, n] as in Tests.tla.  A machine is             *)
(* [states, types, tests].                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == { s[n] : n \in DOMAIN s }

RECURSIVE Renamed(_, _)
Renamed(x, name) == [x EXCEPT !.t = [ n \in DOMAIN @ |-> name ], !.n = [ n \in DOMAIN @ |-> Renamed(@[n], name) ]]

Count(s, P(_)) == Cardinality({ n \in DOMAIN s : P(s[n]) })

(* Reading: alone is a sequence of [name, tree], "" being no name; got one *)
(* of what the whole file gave.                                            *)
SameTests(alone, got) ==
  /\ Len(alone) = Len(got)
  /\ \A n \in DOMAIN alone : alone[n].name # "" =>
       \E k \in DOMAIN got : got[k].name = alone[n].name /\ got[k].tree = alone[n].tree
  /\ LET given == { alone[n].name : n \in DOMAIN alone }
         free  == SelectSeq(got, LAMBDA x : x.name \notin given)
         bare  == SelectSeq(alone, LAMBDA x : x.name = "")
     IN  \A n \in DOMAIN bare :
           LET T == Renamed(bare[n].tree, "#") IN
           Count(bare, LAMBDA x : Renamed(x.tree, "#") = T) = Count(free, LAMBDA x : x.tree = Renamed(x.tree, x.name) /\ Renamed(x.tree, "#") = T)

SameMachine(a, b) == a.states = b.states /\ a.types = b.types /\ RangeOf(a.tests) = RangeOf(b.tests)
=============================================================================
