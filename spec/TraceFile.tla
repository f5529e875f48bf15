----------------------------- MODULE TraceFile -----------------------------
(***************************************************************************)
(* Trace files, character by character.                                    *)
(*                                                                         *)
(* A reader walks over the file in one of these modes:                     *)
(*   line     at the beginning of a line that begins a record              *)
(*   comment  in a comment                                                 *)
(*   field    before a cell (leading space is skipped)                     *)
(*   bare     in a cell without quotes                                     *)
(*   quoted   in a quoted cell (which may go on over several lines)        *)
(*   closing  just after a quote in a quoted cell                          *)
(*   error    the file has been rejected                                   *)
(***************************************************************************)
EXTENDS Naming

Start == [mode |-> "line", cell |-> << >>, row |-> << >>, rows |-> << >>]

EndCell(r, mode) == [r EXCEPT !.mode = mode, !.row = Append(@, r.cell), !.cell = << >>]
EndRow(r)        == [r EXCEPT !.mode = "line", !.rows = Append(@, Append(r.row, r.cell)), !.row = << >>, !.cell = << >>]
Add(r, ch, mode) == [r EXCEPT !.mode = mode, !.cell = Append(@, ch)]
Error(r)         == [r EXCEPT !.mode = "error"]
To(r, mode)      == [r EXCEPT !.mode = mode]

Cell(r, ch) ==
  CASE ch = LF      -> EndRow(r)
    [] ch = COMMA   -> EndCell(r, "field")
    [] ch = QUOTE   -> To(r, "quoted")
    [] IsSpace(ch)  -> To(r, "field")
    [] OTHER        -> Add(r, ch, "bare")

ReadChar(r, ch) ==
  CASE r.mode = "error"   -> r
    [] r.mode = "comment" -> IF ch = LF THEN To(r, "line") ELSE r
    [] r.mode = "line"    -> IF ch = LF THEN r ELSE IF ch = HASH THEN To(r, "comment") ELSE Cell(r, ch)
    [] r.mode = "field"   -> Cell(r, ch)
    [] r.mode = "bare"    -> CASE ch = LF -> EndRow(r) [] ch = COMMA -> EndCell(r, "field")
                               [] ch = QUOTE -> Error(r) [] OTHER -> Add(r, ch, "bare")
    [] r.mode = "quoted"  -> IF ch = QUOTE THEN To(r, "closing") ELSE Add(r, ch, "quoted")
    [] r.mode = "closing" -> CASE ch = LF -> EndRow(r) [] ch = COMMA -> EndCell(r, "field")
                               [] ch = QUOTE -> Add(r, QUOTE, "quoted") [] OTHER -> Error(r)

ReadEnd(r) ==
  CASE r.mode \in {"line", "comment"}            -> To(r, "line")
    [] r.mode \in {"field", "bare", "closing"}   -> EndRow(r)
    [] OTHER                                     -> Error(r)

(* Lines may end in CR LF; a CR at the very end counts for nothing.        *)
Lines(f) ==
  LET drop(n) == f[n] = CR /\ (n = Len(f) \/ f[n + 1] = LF)
  IN  FoldLeft(LAMBDA acc, n : IF drop(n) THEN acc ELSE Append(acc, f[n]), << >>, [n \in 1..Len(f) |-> n])

Rows(f) == ReadEnd(FoldLeft(ReadChar, Start, Lines(f)))

-----------------------------------------------------------------------------
(* Events: channel.direction or channel.direction.value.                   *)
KIND == [in |-> <<105, 110>>, out |-> <<111, 117, 116>>, call |-> <<99, 97, 108, 108>>]
Kinds == {"in", "out", "call"}

KindOf(s) == IF \E k \in Kinds : KIND[k] = Lower(s) THEN CHOOSE k \in Kinds : KIND[k] = Lower(s) ELSE "bad"

Value(s) == IF IsInt(s) THEN [t |-> "int", x |-> CanonInt(s)] ELSE [t |-> "text", x |-> s]

BadEvent == [ok |-> FALSE]

Event(s) ==
  LET p == Index(s, DOT) IN
  IF p = 0 THEN BadEvent
  ELSE LET rest == After(s, p)
           q    == Index(rest, DOT)
           c    == Trim(Before(s, p))
           k    == KindOf(Trim(IF q = 0 THEN rest ELSE Before(rest, q)))
       IN IF c = << >> \/ k = "bad" THEN BadEvent
          ELSE [ok |-> TRUE, c |-> c, k |-> k,
                v |-> IF q = 0 THEN [t |-> "none", x |-> << >>] ELSE Value(Trim(After(rest, q)))]

(* How the event is written in the files of later stages.                  *)
Written(e) == e.c \o <<DOT>> \o KIND[e.k] \o (IF e.v.t = "none" THEN << >> ELSE <<DOT>> \o e.v.x)

(* Traces: an optional name before the first colon, then events.           *)
Trace(row) ==
  LET p     == Index(row[1], COLON)
      first == IF p = 0 THEN row[1] ELSE Trim(After(row[1], p))
      es    == [n \in DOMAIN row |-> Event(IF n = 1 THEN first ELSE row[n])]
  IN  [ok |-> \A n \in DOMAIN es : es[n].ok /\ \A m \in DOMAIN row[n] : ~IsBad(row[n][m]), name |-> IF p = 0 THEN << >> ELSE Trim(Before(row[1], p)), events |-> es]

Rejected == [ok |-> FALSE, traces |-> << >>]

Read(f) ==
  LET r  == Rows(f)
      ts == [n \in DOMAIN r.rows |-> Trace(r.rows[n])]
  IN  IF r.mode = "error" \/ \E n \in DOMAIN ts : ~ts[n].ok THEN Rejected
      ELSE [ok |-> TRUE, traces |-> ts]

(* The traces of a file, under the names they get: a set of pairs.         *)
Named(traces) ==
  LET ns == Names([n \in DOMAIN traces |-> traces[n].name])
  IN  { [name |-> ns[n], events |-> [m \in DOMAIN traces[n].events |-> traces[n].events[m]]] : n \in DOMAIN traces }
=============================================================================
