------------------------------- MODULE MCPipe -------------------------------
(***************************************************************************)
(* Three stages in a pipe with buffers of Room pieces, each of which reads *)
(* all of its input and then writes a function of it, against the same     *)
(* stages run by hand, one after the other.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Room, MaxIn

Pieces == {"a", "b"}
(* Functions that change the length, the order and the pieces.             *)
RECURSIVE Twice(_)
Twice(s) == IF s = << >> THEN << >> ELSE <<Head(s), Head(s)>> \o Twice(Tail(s))
Back(s) == [ k \in DOMAIN s |-> s[Len(s) + 1 - k] ]
F(k, s) == CASE k = 1 -> Twice(s) [] k = 2 -> <<"a">> \o Back(s) [] k = 3 -> Twice(Back(s))

VARIABLES input, buf, got, todo, st, out
vars == <<input, buf, got, todo, st, out>>

Init == /\ input \in UNION { [1..k -> Pieces] : k \in 0..MaxIn }
        /\ buf = [k \in 1..2 |-> << >>]
        /\ got = [k \in 1..3 |-> IF k = 1 THEN input ELSE << >>]
        /\ todo = [k \in 1..3 |-> << >>]
        /\ st = [k \in 1..3 |-> "reading"]
        /\ out = << >>

Read(k) == /\ k > 1 /\ st[k] = "reading" /\ buf[k - 1] # << >>
           /\ got' = [got EXCEPT ![k] = Append(@, Head(buf[k - 1]))]
           /\ buf' = [buf EXCEPT ![k - 1] = Tail(@)]
           /\ UNCHANGED <<input, todo, st, out>>
Think(k) == /\ st[k] = "reading" /\ (k > 1 => st[k - 1] = "done" /\ buf[k - 1] = << >>)
            /\ todo' = [todo EXCEPT ![k] = F(k, got[k])]
            /\ st' = [st EXCEPT ![k] = "writing"]
            /\ UNCHANGED <<input, buf, got, out>>
Write(k) == /\ st[k] = "writing"
            /\ IF todo[k] = << >> THEN st' = [st EXCEPT ![k] = "done"] /\ UNCHANGED <<todo, buf, out>>
               ELSE /\ todo' = [todo EXCEPT ![k] = Tail(@)]
                    /\ st' = st
                    /\ IF k = 3 THEN out' = Append(out, Head(todo[k])) /\ buf' = buf
                       ELSE Len(buf[k]) < Room /\ buf' = [buf EXCEPT ![k] = Append(@, Head(todo[k]))] /\ out' = out
            /\ UNCHANGED <<input, got>>
Next == \E k \in 1..3 : Read(k) \/ Think(k) \/ Write(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A k \in 1..3 : st[k] = "done"
ByHand == Done => out = F(3, F(2, F(1, input)))
(* And whatever has been written is right so far.                          *)
SoFar == LET w == F(3, F(2, F(1, input))) IN out = SubSeq(w, 1, Len(out))
Ends == <>Done
=============================================================================
