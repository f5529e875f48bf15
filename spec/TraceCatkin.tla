----------------------------- MODULE TraceCatkin -----------------------------
(***************************************************************************)
(* Judges written Catkin packages: the configured package, the test, the   *)
(* manifest as read back, and what the build file asks for.                *)
(***************************************************************************)
EXTENDS Catkin, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Judge(r) ==
  LET want == Manifest(r.pkg, r.test) IN
  IF r.fail # "" THEN r.fail
  ELSE IF r.format # "2" THEN "the manifest does not have format 2"
  ELSE IF r.got # want
  THEN LET f == CHOOSE x \in DOMAIN want : r.got[x] # want[x] IN "wrong in the manifest: " \o f
  ELSE IF ~r.cmake THEN ""
  ELSE IF r.project # want.name THEN "the build file names another package"
  ELSE IF { r.components[n] : n \in DOMAIN r.components } # Components(r.pkg) THEN "the build file looks for other packages"
  ELSE IF { r.exports[n] : n \in DOMAIN r.exports } # Components(r.pkg) THEN "the build file exports other dependencies"
  ELSE ""

Accept(r) == LET v == Judge(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
