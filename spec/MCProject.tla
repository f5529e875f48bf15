------------------------------ MODULE MCProject ------------------------------
(***************************************************************************)
(* A project being generated, built, changed and built again.              *)
(***************************************************************************)
EXTENDS Project, TLC

CONSTANTS Channels, MaxRounds

VARIABLES c, types, user, used, phase, objs, built, stamp, round

vars == <<c, types, user, used, phase, objs, built, stamp, round>>

Tys == {"nat", "int", "enum"}
AsSeq(S) == SetToSeq(S)
TypesOf(f) == LET s == AsSeq(DOMAIN f) IN [ n \in DOMAIN s |-> [ch |-> s[n], ty |-> f[s[n]]] ]

Init == /\ c \in { [v |-> v, over |-> AsSeq(o), own |-> AsSeq(n), incs |-> <<>>] : v \in {"animate", "ros"}, o \in SUBSET Channels, n \in SUBSET Channels }
        /\ \E D \in SUBSET Channels : \E f \in [D -> Tys] : types = TypesOf(f)
        /\ used \in SUBSET Chans(types)
        /\ user \in {"none", "plain", "includes"}
        /\ phase = "generate" /\ objs = {} /\ built = {} /\ stamp = 0 /\ round = 1

(* Generation rewrites the main program, so everything is built again.     *)
Generate == /\ phase = "generate"
            /\ phase' = (IF HasConv(c, types) /\ user = "none" THEN "refused" ELSE "compile")
            /\ stamp' = stamp + 1 /\ objs' = {}
            /\ UNCHANGED <<c, types, user, used, built, round>>

Compile == /\ phase = "compile" /\ Compiles(c, types)
           /\ \E u \in Units(c, types, user, used) \ objs : objs' = objs \cup {u}
           /\ UNCHANGED <<c, types, user, used, phase, built, stamp, round>>

Link == /\ phase = "compile" /\ objs = Units(c, types, user, used) /\ Compiles(c, types)
        /\ phase' = (IF Links(objs) /\ NoClash(objs) THEN "built" ELSE "broken")
        /\ built' = IF Links(objs) /\ NoClash(objs) THEN {stamp} ELSE built
        /\ UNCHANGED <<c, types, user, used, objs, stamp, round>>

(* The user changes the configuration or the code, and generates again.    *)
Change == /\ phase = "built" /\ round < MaxRounds
          /\ \E o \in SUBSET Channels : \E u \in {"none", "plain", "includes"} :
               c' = [c EXCEPT !.over = AsSeq(o), !.own = <<>>] /\ user' = u
          /\ phase' = "generate" /\ round' = round + 1
          /\ UNCHANGED <<types, used, objs, built, stamp>>

Next == Generate \/ Compile \/ Link \/ Change
Spec == Init /\ [][Next]_vars

Builds == phase # "broken"
Fresh == phase = "built" => built = {stamp}
Stuck == (~ENABLED Next) => (phase \in {"built", "refused"} \/ ~Provided(c, types, user))
RefusedRight == phase = "refused" => ~Provided(c, types, user)
(* Every function has one signature and one owner.                         *)
Owned == /\ Cardinality(Sigs(c, types)) = 2 * Cardinality(Chans(types))
         /\ Generated(c, types) \cap UserFns(c) = {}
         /\ Fns(Chans(types)) \subseteq Generated(c, types) \cup UserFns(c)
=============================================================================
