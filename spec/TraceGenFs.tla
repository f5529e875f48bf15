----------------------------- MODULE TraceGenFs -----------------------------
(***************************************************************************)
(* Judges recorded generation runs.  A record has the configuration and    *)
(* suite, the output directory, current directory and directory of the     *)
(* user's sources, whether cleaning was requested, whether the arguments,  *)
(* suite and configuration can be used, the files [p, h] and directories   *)
(* before and after, those a fresh run gives, and the exit status.  A run  *)
(* may be hindered (blocked): by something in the way, a limit on what it  *)
(* may write or open, or by being stopped.                                 *)
(***************************************************************************)
EXTENDS GenFs, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Fs(s) == LET D == { s[n].p : n \in DOMAIN s }
         IN  [ p \in D |-> (CHOOSE x \in Rng(s) : x.p = p).h ]

Refused(r) == ~r.args \/ ~r.suiteok \/ ~r.cfgok \/ (r.clean /\ r.exists /\ ~CleanOk(r.out, r.cwd))
NamesOk(r) == \A n \in DOMAIN r.names : Len(r.names[n]) = 1 /\ NameOk(r.names[n][1])
(* The user's sources that are needed and missing once cleaning is done.   *)
SrcMissing(r) == \E p \in Copied(r.cfg, r.suite) :
                   \/ r.src \o p \notin DOMAIN Fs(r.before)
                   \/ r.clean /\ IsBelow(r.out, r.src)

AncestorsOf(p) == { SubSeq(p, 1, n) : n \in 0..Len(p) }

Judge(r) ==
  LET b == Fs(r.before) a == Fs(r.after) IN
  IF Outside(a, r.out) # Outside(b, r.out) THEN "files outside the output directory changed"
  ELSE IF { d \in Rng(r.adirs) : ~IsBelow(r.out, d) } \ AncestorsOf(r.out) # { d \in Rng(r.bdirs) : ~IsBelow(r.out, d) } \ AncestorsOf(r.out)
  THEN "directories outside the output directory changed"
  ELSE IF Refused(r)
  THEN IF r.rc = 0 THEN "was not refused"
       ELSE IF ~r.msg THEN "refused without a message"
       ELSE IF a # b \/ Rng(r.adirs) # Rng(r.bdirs) THEN "a refused run changed something"
       ELSE ""
  ELSE IF ~NamesOk(r) THEN ""
  ELSE LET fresh0 == Fs(r.fresh)
           fresh  == [ p \in DOMAIN fresh0 |-> IF p \in Copied(r.cfg, r.suite) THEN (IF r.src \o p \in DOMAIN b THEN b[r.src \o p] ELSE "none") ELSE fresh0[p] ]
           want   == After(b, r.out, r.clean, fresh)
           dirs   == { d \in Rng(r.adirs) : IsBelow(r.out, d) }
           olds   == { d \in Rng(r.bdirs) : IsBelow(r.out, d) }
           news   == { r.out \o d : d \in Rng(r.fdirs) }
       IN  IF DOMAIN fresh # Files(r.cfg, r.suite) THEN "a fresh run does not generate the right files"
           ELSE IF \E p \in DOMAIN fresh \ Copied(r.cfg, r.suite) : fresh[p] = "empty" THEN "an empty file was generated"
           ELSE IF r.rc # 0
           THEN IF ~r.blocked /\ ~SrcMissing(r) THEN "failed"
                ELSE IF ~r.msg /\ ~r.killed THEN "failed without a message"
                ELSE IF ~Partial(a, b, r.out, r.clean, fresh, "part", Repeats(r.cfg)) THEN "changed something else before it failed"
                ELSE IF dirs \ (olds \cup news) # {} \/ (~r.clean /\ olds \ dirs # {}) THEN "changed other directories before it failed"
                ELSE ""
           ELSE IF SrcMissing(r) THEN "succeeded without the conversion source"
           ELSE IF DOMAIN a # DOMAIN want THEN "wrong files after the run"
           ELSE IF a # want THEN "wrong contents after the run"
           ELSE IF r.clean /\ dirs # news THEN "wrong directories after cleaning"
           ELSE ""

Accept(r) == LET v == Judge(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
