---------------------------- MODULE MCTraceFile ----------------------------
(***************************************************************************)
(* A writer that writes trace files in every style the format allows, next *)
(* to what it meant.  Reading must give back exactly what was meant.       *)
(***************************************************************************)
EXTENDS TraceFile

CONSTANTS MaxLines, MaxEvents

VARIABLES file,   \* what has been written
          meant,  \* the traces meant, in order
          lines,  \* number of lines begun
          evs     \* number of events of the trace being written, 0 between lines

vars == <<file, meant, lines, evs>>

T(c, k, v) == [ok |-> TRUE, c |-> c, k |-> k, v |-> v]
I(x) == [t |-> "int", x |-> x]
X(x) == [t |-> "text", x |-> x]

(* Ways of writing an event, each with what it means.                      *)
Writings == {
  [txt |-> <<97, 46, 105, 110, 46, 49>>, ev |-> T(<<97>>, "in", I(<<49>>))],                                 \* a.in.1
  [txt |-> <<97, 32, 46, 32, 73, 110, 46, 32, 43, 48, 49, 32>>, ev |-> T(<<97>>, "in", I(<<49>>))],          \* a . In. +01_
  [txt |-> <<98, 46, 79, 85, 84, 46, 120, 46, 121>>, ev |-> T(<<98>>, "out", X(<<120, 46, 121>>))],          \* b.OUT.x.y
  [txt |-> <<98, 46, 99, 97, 108, 108, 46, 45, 48>>, ev |-> T(<<98>>, "call", I(<<48>>))] }                  \* b.call.-0
(* Text that needs quotes.                                                 *)
QuotedOnly == {
  [txt |-> <<98, 46, 111, 117, 116, 46, 34, 44, 35, 10, 58>>, ev |-> T(<<98>>, "out", X(<<34, 44, 35, 10, 58>>))] }

Quote(s) == <<QUOTE>> \o FoldLeft(LAMBDA acc, ch : acc \o (IF ch = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<ch>>), << >>, s) \o <<QUOTE>>

NamesUsed == { [txt |-> << >>, name |-> << >>], [txt |-> <<110, 58, 32>>, name |-> <<110>>],
               [txt |-> <<32, 110, 32, 58>>, name |-> <<110>>], [txt |-> <<58>>, name |-> << >>] }
Pads   == { << >>, <<SPACE>>, <<TAB, SPACE>> }
Ends   == { <<LF>>, <<CR, LF>> }

Init == file = << >> /\ meant = << >> /\ lines = 0 /\ evs = 0

Comment == /\ evs = 0 /\ lines < MaxLines /\ lines' = lines + 1
           /\ \E e \in Ends : file' = file \o <<HASH, QUOTE, COMMA, SPACE>> \o e
           /\ UNCHANGED <<meant, evs>>
Blank   == /\ evs = 0 /\ lines < MaxLines /\ lines' = lines + 1
           /\ \E e \in Ends : file' = file \o e
           /\ UNCHANGED <<meant, evs>>
CellOf(w, q) == IF q THEN Quote(w.txt) ELSE w.txt
Begin   == /\ evs = 0 /\ lines < MaxLines /\ lines' = lines + 1
           /\ \E nm \in NamesUsed, w \in Writings \cup QuotedOnly, q \in BOOLEAN, p \in Pads :
                /\ (w \in QuotedOnly => q)
                \* an unnamed cell must not contain a colon
                /\ (nm.txt = << >> => Index(w.txt, COLON) = 0)
                \* a line that is not a comment does not begin with #, and an unnamed trace not with nothing
                /\ file' = file \o p \o (IF q THEN Quote(nm.txt \o w.txt) ELSE nm.txt \o w.txt)
                /\ meant' = Append(meant, [ok |-> TRUE, name |-> nm.name, events |-> <<w.ev>>])
           /\ evs' = 1
More    == /\ evs > 0 /\ evs < MaxEvents /\ evs' = evs + 1 /\ UNCHANGED lines
           /\ \E w \in Writings \cup QuotedOnly, q \in BOOLEAN, p \in Pads :
                /\ (w \in QuotedOnly => q)
                /\ file' = file \o <<COMMA>> \o p \o CellOf(w, q)
                /\ meant' = [meant EXCEPT ![Len(meant)].events = Append(@, w.ev)]
EndLine == /\ evs > 0 /\ evs' = 0 /\ UNCHANGED <<meant, lines>>
           /\ \E e \in Ends : file' = file \o e

Next == Comment \/ Blank \/ Begin \/ More \/ EndLine
Spec == Init /\ [][Next]_vars

Faithful == Read(file) = [ok |-> TRUE, traces |-> meant]
(* Later stages read back what is written for an event.                    *)
Stable == \A n \in DOMAIN meant : \A m \in DOMAIN meant[n].events : Event(Written(meant[n].events[m])) = meant[n].events[m]
Distinct == Cardinality(Named(meant)) = Len(meant)
(* An open quote makes the whole file unreadable, whatever comes before.   *)
AllOrNothing == evs = 0 => ~Read(file \o <<QUOTE>>).ok /\ ~Read(file \o <<97, 10>>).ok
=============================================================================
