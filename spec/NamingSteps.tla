---------------------------- MODULE NamingSteps ----------------------------
(***************************************************************************)
(* Naming as a machine that takes the traces one at a time, over any names *)
(* and any number of traces.  NamingProof.tla proves that it keeps C08;    *)
(* MCNaming checks that Naming.tla takes exactly these steps.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS AllNames,           \* what a test can be called
          NoName, Test,    \* what a trace without name wants; the name that is always numbered
          Numbers,         \* the numbers there are: 0..n or Nat
          Numbered(_, _)   \* a name followed by a number

VARIABLES want,  \* what the traces so far wanted to be called
          got    \* what they are called

Base(w)  == IF w = NoName THEN Test ELSE w
Taken    == { got[i] : i \in DOMAIN got }

Called(b, n) ==
  \/ b # Test /\ b \notin Taken /\ n = b
  \/ /\ b = Test \/ b \in Taken
     /\ \E j \in Numbers : /\ n = Numbered(b, j) /\ n \notin Taken
                       /\ \A i \in 0..(j - 1) : Numbered(b, i) \in Taken

Init == want = << >> /\ got = << >>
Next == \E w \in AllNames \cup {NoName}, n \in AllNames :
           Called(Base(w), n) /\ want' = Append(want, w) /\ got' = Append(got, n)
Spec == Init /\ [][Next]_<<want, got>>

(* C08 *)
One    == Len(want) = Len(got)
Unique == \A i, j \in DOMAIN got : i # j => got[i] # got[j]
Kept   == \A i \in DOMAIN got :
            (want[i] \notin {NoName, Test} /\ \A j \in 1..(i - 1) : got[j] # want[i]) => got[i] = want[i]
Stable == [][\A i \in DOMAIN got : i \in DOMAIN got' /\ got'[i] = got[i]]_<<want, got>>

Inv == /\ want \in Seq(AllNames \cup {NoName}) /\ got \in Seq(AllNames)
       /\ One /\ Unique /\ Kept
=============================================================================
