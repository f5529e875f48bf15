---------------------------- MODULE NamingProof ----------------------------
(***************************************************************************)
(* Proofs, checked by the TLA+ proof system, that naming keeps C08 whatever *)
(* the names and however many the traces.                                  *)
(***************************************************************************)
EXTENDS NamingSteps, TLAPS

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv, One, Unique, Kept
<1>2. Inv /\ [Next]_<<want, got>> => Inv'
  <2>1. ASSUME Inv, NEW w \in AllNames \cup {NoName}, NEW n \in AllNames, Called(Base(w), n),
               want' = Append(want, w), got' = Append(got, n)
        PROVE  Inv'
    <3>1. want' \in Seq(AllNames \cup {NoName}) /\ got' \in Seq(AllNames) /\ One'
      BY <2>1 DEF Inv, One
    <3>2. n \notin Taken
      BY <2>1 DEF Called
    <3>3. \A i \in DOMAIN got : got'[i] = got[i] /\ want'[i] = want[i]
      BY <2>1 DEF Inv, One
    <3>4. DOMAIN got' = DOMAIN got \cup {Len(got) + 1} /\ got'[Len(got) + 1] = n /\ want'[Len(got) + 1] = w
      BY <2>1 DEF Inv, One
    <3>5. Unique'
      BY <2>1, <3>2, <3>3, <3>4 DEF Inv, Unique, Taken
    <3>6. Kept'
      <4>1. ASSUME w \notin {NoName, Test}, \A j \in 1..Len(got) : got[j] # w PROVE n = w
        BY <2>1, <4>1 DEF Called, Base, Taken, Inv
      <4>2. ASSUME NEW i \in DOMAIN got', want'[i] \notin {NoName, Test}, \A j \in 1..(i - 1) : got'[j] # want'[i]
            PROVE got'[i] = want'[i]
        <5>1. CASE i \in DOMAIN got
          BY <4>2, <5>1, <3>3, <2>1 DEF Inv, Kept
        <5>2. CASE i = Len(got) + 1
          BY <4>2, <5>2, <3>3, <3>4, <4>1, <2>1 DEF Inv
        <5> QED
          BY <5>1, <5>2, <3>4, <4>2
      <4> QED
        BY <4>2 DEF Kept
    <3> QED
      BY <3>1, <3>5, <3>6 DEF Inv
  <2>2. ASSUME Inv, UNCHANGED <<want, got>> PROVE Inv'
    BY <2>2 DEF Inv, One, Unique, Kept
  <2> QED
    BY <2>1, <2>2 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

THEOREM Safe == Spec => [](One /\ Unique /\ Kept)
<1>1. Inv => One /\ Unique /\ Kept
  BY DEF Inv
<1> QED
  BY <1>1, Invariant, PTL

THEOREM Stays == Spec => Stable
<1>1. Inv /\ [Next]_<<want, got>> => [\A i \in DOMAIN got : i \in DOMAIN got' /\ got'[i] = got[i]]_<<want, got>>
  BY DEF Next, Inv
<1> QED
  BY <1>1, Invariant, PTL DEF Spec, Stable
=============================================================================
