------------------------------ MODULE MCCatkin ------------------------------
(***************************************************************************)
(* Packages being written for the tests of a suite, one after another and  *)
(* in any order, from one configured package.                              *)
(***************************************************************************)
EXTENDS Catkin, FiniteSets, TLC

CONSTANTS Tests, MaxPieces

Pieces == {"", "x", "${NAME}", "$", "{NAME}"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE { a \o b : a \in Texts(n - 1), b \in Pieces }

VARIABLES pkg, shared, done

vars == <<pkg, shared, done>>

P(n, d) == [name |-> n, version |-> d, description |-> d, maintainer |-> n, email |-> d, license |-> n, buildtool |-> <<"b">>, depends |-> <<d, n>>]

Init == /\ pkg \in { P(n, d) : n \in Texts(MaxPieces), d \in Texts(MaxPieces) }
        /\ shared = Filled(pkg)
        /\ done = << >>

Write(t) == /\ t \notin DOMAIN done
            /\ done' = [ x \in DOMAIN done \cup {t} |-> IF x = t THEN Expanded(shared, t) ELSE done[x] ]
            /\ UNCHANGED <<pkg, shared>>

Next == \E t \in Tests : Write(t)
Spec == Init /\ [][Next]_vars

RECURSIVE Has(_, _)
Has(s, p) == Len(s) >= Len(p) /\ (SubSeq(s, 1, Len(p)) = p \/ Has(SubSeq(s, 2, Len(s)), p))

Right == \A t \in DOMAIN done : done[t] = Manifest(pkg, t)
Kept == shared = Filled(pkg)
(* Nothing of another test shows up, and no field is left out.             *)
Own == \A t \in DOMAIN done : \A u \in Tests \ {t} : \A f \in {"name", "description", "maintainer", "license", "email", "version"} :
         /\ ~Has(done[t][f], u)
         /\ (f # "version" => ~Has(done[t][f], Placeholder) \/ Has(pkg[f], "${NAME}{NAME}") \/ Has(pkg[f], "$${NAME}"))
         /\ done[t][f] # ""
Lists == \A t \in DOMAIN done : done[t].depends = pkg.depends /\ done[t].buildtool = pkg.buildtool
=============================================================================
