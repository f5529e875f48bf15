----------------------------- MODULE TraceTests -----------------------------
(***************************************************************************)
(* Judges what the implementation did with tests: one record per           *)
(* operation, of the kinds below.                                          *)
(***************************************************************************)
EXTENDS Tests, TLC, Json, IOUtils

VARIABLES w, i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 32

Rejected(r) == r.rc # 0 /\ ~r.out /\ r.err

(* C09 *)
AcceptExpand(r) == r.root = Expand(r.tr, r.name)
AcceptCollapse(r) ==
  IF Canonical(r.root) THEN r.res = Collapse(r.root)
  ELSE IF WellFormed(r.root) /\ Linear(r.root) THEN TRUE
  ELSE ~r.res.ok

(* C10, C12 *)
SuiteEvents(s) == UNION { EventsIn(s[n]) : n \in DOMAIN s }
Clashes(s) == LET ty == TypesOf(SuiteEvents(s)) IN \E c \in DOMAIN ty : ty[c] = "clash"
AcceptSuite(r) == IF (\A n \in DOMAIN r.suite : WellFormed(r.suite[n])) /\ ~Clashes(r.suite)
                  THEN r.rc = 0 /\ r.out ELSE Rejected(r)

(* The same asked of the validator itself, which knows more outcomes.      *)
AcceptValidate(r) == r.ok = WellFormed(r.root)

Pairs(ty) == { [c |-> c, t |-> ty[c]] : c \in DOMAIN ty }
AcceptTypes(r) ==
  IF Clashes(r.suite) THEN Rejected(r)
  ELSE /\ r.rc = 0 /\ r.out
       /\ RangeOf(r.types) = Pairs(TypesOf(SuiteEvents(r.suite)))
       /\ Len(r.per) = Len(r.suite)
       /\ \A n \in DOMAIN r.suite : RangeOf(r.per[n]) = Pairs(TypesOf(EventsIn(r.suite[n])))

(* C11 *)
Vd(s) == [ t \in { s.vd[n].t : n \in DOMAIN s.vd } |-> (CHOOSE x \in RangeOf(s.vd) : x.t = t).o ]
WithVd(m) == [m EXCEPT !.states = [n \in DOMAIN @ |-> [@[n] EXCEPT !.vd = Vd(m.states[n])]]]
AcceptMachine(r) ==
  /\ \A n \in DOMAIN r.m.states : \A a, b \in DOMAIN r.m.states[n].vd : r.m.states[n].vd[a].t = r.m.states[n].vd[b].t => a = b
  /\ IsImage(r.root, WithVd(r.m))

(* Large tests, node by node: suite, types and machine as above *)
FlatSuiteEvents(s) == UNION { FlatEvents(s[n]) : n \in DOMAIN s }
FlatClashes(s) == LET ty == TypesOf(FlatSuiteEvents(s)) IN \E c \in DOMAIN ty : ty[c] = "clash"
AcceptFlat(r) ==
  IF (\A n \in DOMAIN r.suite : FlatWellFormed(r.suite[n])) /\ ~FlatClashes(r.suite)
  THEN /\ r.rc = 0 /\ r.out
       /\ RangeOf(r.types) = Pairs(TypesOf(FlatSuiteEvents(r.suite)))
       /\ Len(r.per) = Len(r.suite) /\ Len(r.ms) = Len(r.suite) /\ Len(r.at) = Len(r.suite)
       /\ \A n \in DOMAIN r.suite :
            /\ RangeOf(r.per[n]) = Pairs(TypesOf(FlatEvents(r.suite[n])))
            /\ FlatImage(r.suite[n], WithVd(r.ms[n]), r.at[n])
  ELSE Rejected(r)
AcceptFlatExpand(r) == r.root = FlatExpand(r.tr, r.name)

(* C21 *)
AcceptFailures(r) == RangeOf(r.res) = Failures(r.tests, r.after) /\ Len(r.res) = Cardinality(Failures(r.tests, r.after))
AcceptSpine(r) ==
  LET F == Failures(r.tests, r.after)
      kids == FoldLeft(LAMBDA acc, s : acc \o s.n, << >>, r.res)
      IsInPoint(x) == x.e.k = "in"
  IN  /\ \A n \in DOMAIN r.res : r.res[n].o = "inc" /\ r.res[n].e = LastEvent(r.after)
      /\ RangeOf(kids) = { Point(f) : f \in F } /\ Len(kids) = Cardinality(F)
      /\ \A n \in DOMAIN r.res : (\E x \in RangeOf(r.res[n].n) : IsInPoint(x)) => Len(r.res[n].n) = 1
      /\ \A n, m \in DOMAIN r.res : (/\ \E x \in RangeOf(r.res[n].n) : ~IsInPoint(x)
                                     /\ \E x \in RangeOf(r.res[m].n) : ~IsInPoint(x)) => n = m
AcceptCompare(r) == r.eq = (r.a = r.b) /\ r.pre = IsPrefixOf(r.a, r.b)

Fine(r) == CASE r.op = "expand"   -> AcceptExpand(r)
             [] r.op = "collapse" -> AcceptCollapse(r)
             [] r.op = "suite"    -> AcceptSuite(r)
             [] r.op = "validate" -> AcceptValidate(r)
             [] r.op = "types"    -> AcceptTypes(r)
             [] r.op = "machine"  -> AcceptMachine(r)
             [] r.op = "flat"     -> AcceptFlat(r)
             [] r.op = "chain"    -> AcceptFlatExpand(r)
             [] r.op = "failures" -> AcceptFailures(r)
             [] r.op = "spine"    -> AcceptSpine(r)
             [] r.op = "compare"  -> AcceptCompare(r)

Accept(n) == Fine(Log[n]) \/ (PrintT(<<"REJECT", n, Log[n].op>>) /\ FALSE)

Init == w \in 1..Shards /\ i = 0
Next == /\ i = 0 /\ w' = w
        /\ i' \in { n \in 1..Len(Log) : n % Shards = w - 1 }
        /\ Accept(i')
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
