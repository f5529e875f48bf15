------------------------------ MODULE MCGenFs ------------------------------
(***************************************************************************)
(* Histories of generation runs, at the level of single file operations,   *)
(* with the user changing files in between and with inputs that cannot be  *)
(* used.  A run may be stopped, or fail, at any operation, in the middle   *)
(* of a file too.  A finished run has to agree with GenFs!After whatever   *)
(* was left by earlier ones; a refused one must have changed nothing; and  *)
(* nothing outside the output directory ever changes.                      *)
(***************************************************************************)
EXTENDS GenFs, TLC

CONSTANTS MaxRuns, MaxEdits, MaxStops

VARIABLES fs,       \* files: path -> contents
          run,      \* the run in progress, or none
          pc,       \* where it is
          todo,     \* what it still has to write
          before,   \* the files when it started
          runs, edits, stops

vars == <<fs, run, pc, todo, before, runs, edits, stops>>

Suites == { [id |-> 1, tests |-> <<"t">>, chans |-> <<"a">>], [id |-> 2, tests |-> <<"t", "u">>, chans |-> <<"b">>], [id |-> 3, tests |-> << >>, chans |-> << >>] }
Cfgs == { [id |-> 1, vs |-> << [v |-> "animate", mk |-> TRUE, ck |-> FALSE, over |-> << >>] >>],
          [id |-> 2, vs |-> << [v |-> "ros", mk |-> FALSE, ck |-> TRUE, over |-> <<"a">>] >>],
          [id |-> 3, vs |-> << [v |-> "ros", mk |-> FALSE, ck |-> FALSE, over |-> <<"b">>], [v |-> "animate", mk |-> FALSE, ck |-> FALSE, over |-> << >>] >>] }
Outs == { <<"w", "out">>, <<"w", "cfg">>, <<"w">>, << >> }
Cwd == <<"w">>
CfgDir == <<"w", "cfg">>

UserFiles == { CfgDir \o <<"ros", "src", "convert", "convert.cpp">>, CfgDir \o <<"gen.xml">>, <<"x">>, <<"w", "y">> }

(* Contents: what generates a file, or who wrote it.                       *)
Fresh(cfg, suite) == [ p \in Files(cfg.vs, suite) |-> IF p \in Copied(cfg.vs, suite) THEN <<"user", 0>> ELSE <<"gen", cfg.id, suite.id>> ]

None == [k |-> "none"]
Init == /\ fs = [ p \in UserFiles |-> <<"user", 0>> ]
        /\ run = None /\ pc = "idle" /\ todo = {} /\ before = fs /\ runs = 0 /\ edits = 0 /\ stops = 0

Start == /\ pc = "idle" /\ runs < MaxRuns
         /\ \E c \in Cfgs, s \in Suites, o \in Outs, cl, rd \in BOOLEAN :
              run' = [k |-> "run", cfg |-> c, suite |-> s, out |-> o, clean |-> cl, readable |-> rd]
         /\ pc' = "read" /\ before' = fs /\ runs' = runs + 1
         /\ UNCHANGED <<fs, todo, edits, stops>>

End(how) == pc' = how
Read == /\ pc = "read" /\ UNCHANGED <<fs, todo, run, before, runs, edits, stops>>
        /\ IF ~run.readable THEN End("refused") ELSE pc' = IF run.clean THEN "clean" ELSE "write0"
Clean == /\ pc = "clean" /\ UNCHANGED <<fs, todo, run, before, runs, edits, stops>>
         /\ End(IF CleanOk(run.out, Cwd) THEN "cleaning" ELSE "refused")
Cleaning == /\ pc = "cleaning" /\ UNCHANGED <<todo, run, before, runs, edits, stops>>
            /\ LET left == { p \in DOMAIN fs : IsBelow(run.out, p) } IN
               IF left = {} THEN UNCHANGED fs /\ End("write0")
               ELSE LET p == CHOOSE q \in left : TRUE IN fs' = [ q \in DOMAIN fs \ {p} |-> fs[q] ] /\ UNCHANGED pc
Plan == /\ pc = "write0" /\ UNCHANGED <<fs, run, before, runs, edits, stops>>
        /\ todo' = Files(run.cfg.vs, run.suite) /\ pc' = "write"
Put(p, x) == [ q \in DOMAIN fs \cup {p} |-> IF q = p THEN x ELSE fs[q] ]
Write == /\ pc = "write" /\ todo # {} /\ UNCHANGED <<run, before, runs, edits, stops>>
         \* The order does not matter: the first in some fixed order will do.
         /\ LET p == CHOOSE q \in todo : TRUE
                to == run.out \o p
                from == CfgDir \o p
            IN  IF p \in Copied(run.cfg.vs, run.suite)
                THEN IF from \in DOMAIN fs
                     THEN fs' = (IF from = to THEN fs ELSE Put(to, fs[from])) /\ todo' = todo \ {p} /\ UNCHANGED pc
                     ELSE End("failed") /\ UNCHANGED <<fs, todo>>
                ELSE fs' = Put(to, Fresh(run.cfg, run.suite)[p]) /\ todo' = todo \ {p} /\ UNCHANGED pc
Finish == pc = "write" /\ todo = {} /\ End("done") /\ UNCHANGED <<fs, todo, run, before, runs, edits, stops>>
(* The run is stopped, or an operation fails.                              *)
Part == <<"part">>
Stop == /\ pc \in {"read", "clean", "cleaning", "write0", "write"} /\ stops < MaxStops
        /\ stops' = stops + 1 /\ pc' = "stopped" /\ UNCHANGED <<run, todo, before, runs, edits>>
        /\ \/ UNCHANGED fs
           \/ pc = "write" /\ todo # {} /\ LET p == CHOOSE q \in todo : TRUE IN CfgDir \o p # run.out \o p /\ fs' = Put(run.out \o p, Part)
Rest == pc \in {"done", "refused", "failed", "stopped"} /\ pc' = "idle" /\ run' = None /\ todo' = {} /\ before' = fs /\ UNCHANGED <<fs, runs, edits, stops>>

Edit == /\ pc = "idle" /\ edits < MaxEdits /\ runs > 0 /\ edits' = edits + 1
        /\ \E p \in (DOMAIN fs \ UserFiles) \cup { <<"w", "out", "mine">> } :
             \/ fs' = Put(p, <<"user", 1>>)
             \/ p \in DOMAIN fs /\ fs' = [ q \in DOMAIN fs \ {p} |-> fs[q] ]
        /\ before' = fs'
        /\ UNCHANGED <<run, pc, todo, runs, stops>>

Next == Start \/ Read \/ Clean \/ Cleaning \/ Plan \/ Write \/ Finish \/ Stop \/ Rest \/ Edit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
DoneOk     == pc = "done" => fs = After(before, run.out, run.clean, Fresh(run.cfg, run.suite))
PartialOk  == pc \in {"failed", "stopped"} => Partial(fs, before, run.out, run.clean, Fresh(run.cfg, run.suite), Part, FALSE)
RefusedOk  == pc = "refused" => fs = before
Contained  == run # None => Outside(fs, run.out) = Outside(before, run.out)
(* Only cleaning can take away an input.                                   *)
InputsKept == (run # None /\ ~(run.clean /\ IsBelow(run.out, CfgDir))) =>
                \A p \in UserFiles \cap DOMAIN before : p \in DOMAIN fs /\ fs[p] = before[p]
CleanedOk  == (pc = "done" /\ run.clean) => { p \in DOMAIN fs : IsBelow(run.out, p) } = { run.out \o q : q \in Files(run.cfg.vs, run.suite) }
(* A second run changes nothing.                                           *)
Idempotent == pc = "done" => After(fs, run.out, FALSE, Fresh(run.cfg, run.suite)) = fs
=============================================================================
