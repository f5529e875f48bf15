------------------------------ MODULE JsonValue ------------------------------
(***************************************************************************)
(* What a JSON text says: the reader of Json1 together with a builder of   *)
(* values.                                                                 *)
(*                                                                         *)
(* A value is <<"s", code points>>, <<"l", letters>> for a literal or      *)
(* number, <<"a", elements>> or <<"o", pairs of keys and values>>: objects *)
(* do not have an order.                                                   *)
(***************************************************************************)
EXTENDS Json1, FiniteSets

Null == <<"l", <<110, 117, 108, 108>>>>

(* r is the reader; frames are the open containers, innermost first; cur   *)
(* is the string or literal being read, hex the escape; half is a leading  *)
(* surrogate, or 0; double says that an object has a key twice.            *)
Begin == [r |-> Start, frames |-> << >>, cur |-> << >>, hex |-> 0, half |-> 0, val |-> << >>, double |-> FALSE]

HexVal(ch) == IF ch \in Digit THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE ch - 87
Escaped(ch) == CASE ch = 98 -> 8 [] ch = 102 -> 12 [] ch = 110 -> 10 [] ch = 114 -> 13 [] ch = 116 -> 9 [] OTHER -> ch

(* Text after a leading surrogate that is not its other half: the first    *)
(* half stands for nothing.                                                *)
Flush(b) == IF b.half = 0 THEN b ELSE [b EXCEPT !.cur = Append(@, 65533), !.half = 0]
Char(b, ch) == [Flush(b) EXCEPT !.cur = Append(@, ch)]
Unit(b, u) ==
  IF u \in 55296..56319 THEN [Flush(b) EXCEPT !.half = u]
  ELSE IF u \in 56320..57343
  THEN IF b.half = 0 THEN Char(b, 65533)
       ELSE [b EXCEPT !.cur = Append(@, 65536 + (b.half - 55296) * 1024 + (u - 56320)), !.half = 0]
  ELSE Char(b, u)

(* A value is complete: it goes where it belongs.                          *)
Add(b, v) ==
  IF b.frames = << >> THEN [b EXCEPT !.val = v, !.cur = << >>]
  ELSE LET f == b.frames[1]
           g == IF f.kind = "a" THEN [f EXCEPT !.items = Append(@, v)] ELSE [f EXCEPT !.pairs = @ \cup {<<f.key, v>>}]
       IN  [b EXCEPT !.frames[1] = g, !.cur = << >>, !.double = @ \/ (f.kind = "o" /\ \E p \in f.pairs : p[1] = f.key)]
Opened(b, kind) == [b EXCEPT !.frames = <<[kind |-> kind, items |-> << >>, pairs |-> {}, key |-> << >>]>> \o @, !.cur = << >>]
Closed(b) == LET f == b.frames[1] IN Add([b EXCEPT !.frames = Tail(@)], IF f.kind = "a" THEN <<"a", f.items>> ELSE <<"o", f.pairs>>)

Numbers == {"minus", "zero", "int", "dot", "frac", "exp", "exps", "expd"}

Take(b, ch) ==
  LET m == b.r.mode
      s == Read(b.r, ch)
      n == s.mode
      (* A number ends with what follows it. *)
      c == IF m \in Numbers /\ n \notin Numbers THEN Add(b, <<"l", b.cur>>) ELSE b
      d == CASE n = "bad" -> c
             [] m = "str" /\ ch = Quote -> LET e == Flush(c) IN IF b.r.key THEN [e EXCEPT !.frames[1].key = e.cur, !.cur = << >>] ELSE Add(e, <<"s", e.cur>>)
             [] m = "str" /\ ch = Back  -> c
             [] m = "str"               -> Char(c, ch)
             [] m = "esc"               -> IF ch = 117 THEN [c EXCEPT !.hex = 0] ELSE Char(c, Escaped(ch))
             [] m \in {"u1", "u2", "u3"} -> [c EXCEPT !.hex = @ * 16 + HexVal(ch)]
             [] m = "u4"                -> Unit(c, c.hex * 16 + HexVal(ch))
             [] n = "lit"               -> [c EXCEPT !.cur = Append(@, ch)]
             [] m = "lit"               -> Add(c, <<"l", Append(c.cur, ch)>>)
             [] n \in Numbers           -> [c EXCEPT !.cur = Append(@, ch)]
             [] ch = LBrack             -> Opened(c, "a")
             [] ch = LBrace             -> Opened(c, "o")
             [] ch \in {RBrack, RBrace} -> Closed(c)
             [] OTHER                   -> c
  IN  [d EXCEPT !.r = s]

Built(text) == LET b == FoldLeft(Take, Begin, text) IN IF b.r.mode \in Numbers THEN Add(b, <<"l", b.cur>>) ELSE b
Says(text)  == Complete(text) /\ ~Built(text).double
ValueOf(text) == Built(text).val

(* In suites, a member of a node, machine, state or set that is null or    *)
(* empty is as good as absent.  Keys at the given depths are names.        *)
Void(v) == v = Null \/ v = <<"a", << >>>> \/ v = <<"o", {}>>
RECURSIVE Meaning(_, _, _)
Meaning(v, depth, names) ==
  IF v[1] = "a" THEN <<"a", [ n \in DOMAIN v[2] |-> Meaning(v[2][n], depth + 1, names) ]>>
  ELSE IF v[1] = "o"
  THEN LET ps == { <<p[1], Meaning(p[2], depth + 1, names)>> : p \in v[2] }
       IN  <<"o", { p \in ps : depth \in names \/ ~Void(p[2]) }>>
  ELSE v
Suite(text)   == Meaning(ValueOf(text), 0, {0})
(* In a suite of machines: tests and types of the suite, then those of a   *)
(* machine (or a type), whose members have no names of their own.          *)
Machines(text) == Meaning(ValueOf(text), 0, {1})
=============================================================================
