------------------------------- MODULE Catkin -------------------------------
(***************************************************************************)
(* The metadata of Catkin packages.  A package is a record of strings,     *)
(* "" being a field that is not given, and two sequences of dependencies.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Placeholder == "${NAME}"

(* Replaces every placeholder, once, from the left.                        *)
RECURSIVE Expand(_, _)
Expand(s, name) ==
  IF Len(s) < Len(Placeholder) THEN s
  ELSE IF SubSeq(s, 1, Len(Placeholder)) = Placeholder
  THEN name \o Expand(SubSeq(s, Len(Placeholder) + 1, Len(s)), name)
  ELSE SubSeq(s, 1, 1) \o Expand(SubSeq(s, 2, Len(s)), name)

Default(s, d) == IF s = "" THEN d ELSE s

Filled(p) ==
  [name        |-> Default(p.name, "${NAME}"),
   version     |-> Default(p.version, "0.1.0"),
   description |-> Default(p.description, "Package for ${NAME}"),
   maintainer  |-> Default(p.maintainer, "${NAME} Maintainers"),
   email       |-> Default(p.email, "email@example.com"),
   license     |-> Default(p.license, "Proprietary"),
   buildtool   |-> p.buildtool,
   depends     |-> p.depends]

Expanded(f, test) ==
  [f EXCEPT !.name = Expand(@, test), !.description = Expand(@, test), !.maintainer = Expand(@, test),
            !.email = Expand(@, test), !.license = Expand(@, test)]

(* The manifest of a test's package.                                       *)
Manifest(p, test) == Expanded(Filled(p), test)

(* The packages its build file asks for.                                   *)
Components(p) == {"roscpp", "std_msgs"} \cup { p.depends[n] : n \in DOMAIN p.depends }
=============================================================================
