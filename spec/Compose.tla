------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* What stays the same when variants are generated together and stages     *)
(* are run as a pipeline.                                                  *)
(*                                                                         *)
(* A file is [v, p, h]: the variant's directory it is in ("" if none), the *)
(* rest of its path, and its content.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Files(s) == { s[n] : n \in DOMAIN s }
Under(fs, v) == { f \in fs : f.v = v }

(* alone is a sequence of [v, files], what was generated for each variant  *)
(* on its own; got is what was generated for all of them.                  *)
SameParts(alone, got)   == \A n \in DOMAIN alone : Under(Files(got), alone[n].v) = Files(alone[n].files)
NothingElse(alone, got) == \A f \in Files(got) : \E n \in DOMAIN alone : f.v = alone[n].v
Composed(alone, got)    == SameParts(alone, got) /\ NothingElse(alone, got)

(* A run is [rc, files, beside]: how it ended, what was generated, and     *)
(* what else has come to be where it ran.                                  *)
SameRun(a, b) == (a.rc = 0) = (b.rc = 0) /\ Files(a.files) = Files(b.files)
Tidy(r)       == r.beside = << >>
=============================================================================
