------------------------------- MODULE Project -------------------------------
(***************************************************************************)
(* What a generated project is made of, and when it builds.                *)
(*                                                                         *)
(* A variant is [v, over, own, incs]: "animate" or "ros", the channels     *)
(* with a configured type (that of channel c is "T_c"), those among them   *)
(* whose configured type is the one they would have had anyway, and the    *)
(* headers to include, [src, sys].  Types are a sequence of [ch, ty], ty   *)
(* being one of nat, int and enum.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Range1(s) == { s[n] : n \in DOMAIN s }

Chans(types) == { types[n].ch : n \in DOMAIN types }
Overridden(c, ch) == ch \in Range1(c.over)
(* Code of the user is needed, and part of every program.                  *)
HasConv(c, types) == Range1(c.over) \cap Chans(types) # {}

Native(ty) == CASE ty = "nat" -> "unsigned int" [] ty = "int" -> "int" [] ty = "enum" -> "std::string"

(* The type of values on a channel, and the type callbacks receive.        *)
Val(c, t) == IF Overridden(c, t.ch) /\ t.ch \notin Range1(c.own) THEN "T_" \o t.ch ELSE IF c.v = "ros" THEN "std_msgs::String" ELSE Native(t.ty)
Msg(c, t) == IF c.v = "ros" THEN Val(c, t) \o "::ConstPtr" ELSE Val(c, t)

(* The conversion functions of a suite: [dir, ch, ret, arg].               *)
Sigs(c, types) ==
  UNION { { [dir |-> "from", ch |-> types[n].ch, ret |-> Native(types[n].ty), arg |-> Msg(c, types[n])],
            [dir |-> "to",   ch |-> types[n].ch, ret |-> Val(c, types[n]), arg |-> Native(types[n].ty)] } : n \in DOMAIN types }

(* Without repetitions, in order of first appearance.                      *)
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Once(Front(s)) x == s[Len(s)] IN IF x \in Range1(r) THEN r ELSE Append(r, x)

(***************************************************************************)
(* Building.  A unit has the symbols it defines strongly and weakly and    *)
(* those it uses; user is "none", "plain" or "includes" (the user's code   *)
(* includes the conversion header).                                        *)
(***************************************************************************)
Fns(chs) == { <<d, ch>> : d \in {"from", "to"}, ch \in chs }
Generated(c, types) == Fns({ ch \in Chans(types) : ~Overridden(c, ch) })
UserFns(c) == Fns(Range1(c.over))

MainUnit(c, types, used) ==
  [name |-> "main", strong |-> {<<"main", "">>}, weak |-> Generated(c, types), uses |-> Fns(used) \cup {<<"rtcg", "">>}]
RtcgUnit == [name |-> "rtcg", strong |-> {<<"rtcg", "">>}, weak |-> {}, uses |-> {}]
UserUnit(c, types, user) ==
  [name |-> "convert", strong |-> UserFns(c), weak |-> IF user = "includes" THEN Generated(c, types) ELSE {}, uses |-> {}]

Units(c, types, user, used) ==
  {MainUnit(c, types, used), RtcgUnit} \cup (IF HasConv(c, types) /\ user # "none" THEN {UserUnit(c, types, user)} ELSE {})

Links(us) ==
  \A u \in us : \A s \in u.uses :
    LET strong == { x \in us : s \in x.strong } weak == { x \in us : s \in x.weak }
    IN  Cardinality(strong) = 1 \/ (strong = {} /\ weak # {})
NoClash(us) == \A s \in UNION { u.strong : u \in us } : Cardinality({ u \in us : s \in u.strong }) = 1

(* ROS messages only carry text unless configured otherwise.               *)
Compiles(c, types) == c.v = "animate" \/ \A n \in DOMAIN types : types[n].ty = "enum" \/ Overridden(c, types[n].ch)

(* What the user has to provide for everything to build.                   *)
Provided(c, types, user) == Compiles(c, types) /\ (HasConv(c, types) => user # "none")

(***************************************************************************)
(* Conversions made while a test goes through its trace: events are        *)
(* [dir, ch, v].  Only those on configured channels are the user's.        *)
(***************************************************************************)
Calls(c, events) ==
  LET mine == { e \in Range1(events) : Overridden(c, e.ch) } IN
  { [dir |-> "to",   ch |-> e.ch, v |-> e.v] : e \in { x \in mine : x.dir = "in" \/ c.v = "animate" } }
  \cup { [dir |-> "from", ch |-> e.ch, v |-> e.v] : e \in { x \in mine : x.dir = "out" } }

(* What is sent on the channels of inputs; the user's code marks values.   *)
Sent(c, events) ==
  LET ins == SelectSeq(events, LAMBDA e : e.dir = "in")
  IN  [ n \in DOMAIN ins |-> [ch |-> ins[n].ch, v |-> (IF Overridden(c, ins[n].ch) THEN "U" ELSE "") \o ins[n].v] ]
=============================================================================
