------------------------------- MODULE GenFs -------------------------------
(***************************************************************************)
(* What generation does to the file system.                                *)
(*                                                                         *)
(* A path is a sequence of names.  A configuration is a sequence of        *)
(* variants [v, mk, ck, over]: a name, whether there are a Makefile and    *)
(* Catkin packages, and the channels with a configured type.  A suite is   *)
(* [tests, chans]: sequences of names of tests and of channels.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Rng(s) == { s[n] : n \in DOMAIN s }

(* Conversion code of the user is needed.                                  *)
Converts(c, suite) == Rng(c.over) \cap Rng(suite.chans) # {}

FilesOf(c, suite) ==
  LET src == <<c.v, "src">> IN
  {src \o <<"rtcg", "rtcg.h">>, src \o <<"rtcg", "rtcg.cpp">>, src \o <<"convert", "convert.h">>}
  \cup (IF Converts(c, suite) THEN {src \o <<"convert", "convert.cpp">>} ELSE {})
  \cup (IF c.mk THEN {<<c.v, "Makefile">>} ELSE {})
  \cup { src \o <<t, "src", "main.cpp">> : t \in Rng(suite.tests) }
  \cup (IF c.ck THEN { src \o <<t, f>> : t \in Rng(suite.tests), f \in {"package.xml", "CMakeLists.txt"} } ELSE {})

(* Everything a run generates, below its output directory.                 *)
Files(cfg, suite) == UNION { FilesOf(cfg[n], suite) : n \in DOMAIN cfg }

(* A file that is copied from the user, and where from, below the          *)
(* configuration's directory.                                              *)
Copied(cfg, suite) == { <<cfg[n].v, "src", "convert", "convert.cpp">> : n \in { m \in DOMAIN cfg : Converts(cfg[m], suite) } }

(* Variants that are configured more than once.                            *)
Repeats(cfg) == \E n, m \in DOMAIN cfg : n # m /\ cfg[n].v = cfg[m].v

IsBelow(dir, p) == Len(dir) <= Len(p) /\ SubSeq(p, 1, Len(dir)) = dir

(* Names of tests that can be names of directories.                        *)
NameOk(seg) == seg \notin {"", ".", ".."}

(* The files there are after a successful run: a function from paths to    *)
(* contents, given what there was, where the output goes, and what a run   *)
(* in an empty directory generates.                                        *)
After(before, out, clean, fresh) ==
  LET gen  == { out \o p : p \in DOMAIN fresh }
      kept == { p \in DOMAIN before : p \notin gen /\ ~(clean /\ IsBelow(out, p)) }
  IN  [ p \in kept \cup gen |-> IF p \in gen THEN fresh[SubSeq(p, Len(out) + 1, Len(p))] ELSE before[p] ]

(* A run that fails or is stopped part way has touched nothing but what it *)
(* generates and, if cleaning, what was in the output directory.  Each     *)
(* file it generates is as before, gone, as after a full run, or the       *)
(* beginning of that (part) - or, if it is written several times over, of  *)
(* another.                                                                *)
Partial(after, before, out, clean, fresh, part, over) ==
  LET gen == { out \o p : p \in DOMAIN fresh } IN
  \A p \in DOMAIN after \cup DOMAIN before :
    LET isGen  == p \in gen
        isGone == p \notin DOMAIN after
    IN  \/ p \in DOMAIN before /\ isGone /\ clean /\ IsBelow(out, p)
        \/ p \in DOMAIN before /\ ~isGone /\ after[p] = before[p]
        \/ isGen /\ isGone /\ p \notin DOMAIN before
        \/ isGen /\ ~isGone /\ over
        \/ isGen /\ ~isGone /\ after[p] \in {fresh[SubSeq(p, Len(out) + 1, Len(p))], part}

Outside(fs, out) == [ p \in { q \in DOMAIN fs : ~IsBelow(out, q) } |-> fs[p] ]

(* Cleaning the current directory or one that contains it is refused.      *)
CleanOk(out, cwd) == ~IsBelow(out, cwd)
=============================================================================
