----------------------------- MODULE MCCompose -----------------------------
(***************************************************************************)
(* A generator that sets up all its parts - main programs, packages, a     *)
(* makefile, for every variant configured - and then runs them one by one  *)
(* on a suite.  Parts of one kind share code; Own says that each keeps a   *)
(* configuration and a directory of its own.  Whatever the configurations, *)
(* and in whatever order, each variant gets what it would get alone.       *)
(***************************************************************************)
EXTENDS Compose, TLC

CONSTANTS Variants, Chans, Own

VARIABLES cfg,      \* sequence of [v, over, mk, ck]
          parts,    \* parts set up so far
          n,        \* variants set up
          at,       \* parts run
          files
vars == <<cfg, parts, n, at, files>>

Configs == [v : Variants, over : SUBSET Chans, mk : BOOLEAN, ck : BOOLEAN]
Kinds(c) == <<"main">> \o (IF c.ck THEN <<"catkin">> ELSE << >>) \o (IF c.mk THEN <<"makefile">> ELSE << >>)

(* What a part writes for configuration c in directory v.                  *)
Writes(kind, c, v) ==
  CASE kind = "main"     -> {[v |-> v, p |-> "main", h |-> <<c.v, c.over>>], [v |-> v, p |-> "convert.h", h |-> <<c.v, Chans \ c.over>>]}
                            \cup (IF c.over # {} THEN {[v |-> v, p |-> "convert.cpp", h |-> <<c.v, {}>>]} ELSE {})
    [] kind = "catkin"   -> {[v |-> v, p |-> "package", h |-> <<c.v, c.over>>]}
    [] kind = "makefile" -> {[v |-> v, p |-> "Makefile", h |-> <<c.v, c.over>>]}

Alone(c) == UNION { Writes(Kinds(c)[k], c, c.v) : k \in DOMAIN Kinds(c) }

Init == /\ cfg \in UNION { [1..k -> Configs] : k \in 0..2 }
        /\ \A a, b \in DOMAIN cfg : a # b => cfg[a].v # cfg[b].v
        /\ parts = << >> /\ n = 0 /\ at = 0 /\ files = {}

SetUp == /\ n < Len(cfg)
         /\ n' = n + 1
         /\ parts' = parts \o [ k \in DOMAIN Kinds(cfg[n']) |-> [kind |-> Kinds(cfg[n'])[k], c |-> n'] ]
         /\ UNCHANGED <<cfg, at, files>>
Run == /\ n = Len(cfg) /\ at < Len(parts)
       /\ at' = at + 1
       /\ LET p == parts[at'] IN files' = files \cup Writes(p.kind, cfg[IF Own THEN p.c ELSE Len(cfg)], cfg[p.c].v)
       /\ UNCHANGED <<cfg, n, parts>>
Next == SetUp \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == n = Len(cfg) /\ at = Len(parts)
RECURSIVE ToSeq(_)
ToSeq(fs) == IF fs = {} THEN << >> ELSE LET f == CHOOSE f \in fs : TRUE IN <<f>> \o ToSeq(fs \ {f})
Each == Done => Composed([ k \in DOMAIN cfg |-> [v |-> cfg[k].v, files |-> ToSeq(Alone(cfg[k]))] ], ToSeq(files))
Ends == <>Done
=============================================================================
