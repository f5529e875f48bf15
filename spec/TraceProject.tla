----------------------------- MODULE TraceProject -----------------------------
(***************************************************************************)
(* Judges what was observed of generated projects: results of building     *)
(* them, the types of the conversion functions, the headers included, and  *)
(* the conversions made by built tests.                                    *)
(***************************************************************************)
EXTENDS Project, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Configured(c) == [ n \in DOMAIN c.incs |-> <<c.incs[n].src, IF c.incs[n].sys THEN "system" ELSE "quote">> ]
Seen(s) == [ n \in DOMAIN s |-> <<s[n].src, s[n].form>> ]

Judge(r) ==
  CASE r.kind = "build" ->
         IF ~Provided(r.c, r.types, r.user) THEN ""
         ELSE IF r.rc # 0 THEN "does not build"
         ELSE IF Range1(r.bins) # Range1(r.tests) THEN "not every test was built"
         ELSE ""
    [] r.kind = "sigs" ->
         IF Range1(r.sigs) # Sigs(r.c, r.types) THEN "conversion functions have the wrong types"
         ELSE IF { <<x.ch, x.val>> : x \in Range1(r.vals) } # { <<r.types[n].ch, Val(r.c, r.types[n])>> : n \in DOMAIN r.types }
         THEN "wrong value types"
         ELSE ""
    [] r.kind = "incs" ->
         IF Once(Seen(r.main)) # Once(Configured(r.c)) THEN "headers not included as configured by the main program"
         ELSE IF Once(Seen(r.header)) # Once(Configured(r.c)) THEN "headers not included as configured by the conversion header"
         ELSE IF ~r.before THEN "headers included after their types are needed"
         ELSE ""
    [] r.kind = "calls" ->
         IF Range1(r.calls) # Calls(r.c, r.events) THEN "wrong conversions"
         ELSE IF r.c.v = "ros" /\ r.sent # Sent(r.c, r.events) THEN "wrong values sent"
         ELSE ""

Accept(r) == LET v == Judge(r) IN v = "" \/ (PrintT(<<"REJECT", r.id, v>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(Log[i'])
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
