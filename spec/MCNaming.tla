------------------------------ MODULE MCNaming ------------------------------
(***************************************************************************)
(* Naming on every sequence of wanted names: each trace gets exactly one   *)
(* name, no two share one, a name that is free is kept, and a name does    *)
(* not depend on the traces that follow.                                   *)
(***************************************************************************)
EXTENDS Naming

CONSTANT MaxLen

VARIABLE wanted

foo == <<102, 111, 111>>
Wants == { << >>, TEST, Append(TEST, 48), Append(TEST, 49), foo, Append(foo, 48), foo \o <<48, 48>>, Append(foo, 49) }

Init == wanted = << >>
Next == Len(wanted) < MaxLen /\ \E n \in Wants : wanted' = Append(wanted, n)
Spec == Init /\ [][Next]_wanted

Ns == Names(wanted)
Unique == Len(Ns) = Len(wanted) /\ \A a, b \in DOMAIN Ns : a # b => Ns[a] # Ns[b]
Kept   == \A a \in DOMAIN Ns : (wanted[a] \notin {<< >>, TEST} /\ \A b \in 1..(a - 1) : Ns[b] # wanted[a]) => Ns[a] = wanted[a]
Based  == \A a \in DOMAIN Ns : LET base == IF wanted[a] = << >> THEN TEST ELSE wanted[a]
                               IN  /\ Len(Ns[a]) >= Len(base) /\ SubSeq(Ns[a], 1, Len(base)) = base
                                   /\ (Ns[a] # base => AllDigits(SubSeq(Ns[a], Len(base) + 1, Len(Ns[a]))))
                                   /\ (base = TEST => Ns[a] # base)
Prefix == [][SubSeq(Names(wanted'), 1, Len(Ns)) = Ns]_wanted

(* The names come about step by step, as NamingSteps has it.               *)
Bases == Wants \ {<< >>}
N == INSTANCE NamingSteps WITH
       AllNames <- Bases \cup { Numbered(b, j) : b \in Bases, j \in 0..MaxLen },
       NoName <- << >>, Test <- TEST, Numbers <- 0..MaxLen, Numbered <- Numbered, want <- wanted, got <- Ns
Steps == N!Spec
=============================================================================
