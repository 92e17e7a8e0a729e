----------------------------- MODULE WarnTrace -----------------------------
(* Validates histories of calls to real warning managers.                   *)
EXTENDS Warn
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES p, n, ms, shown
C == Trace[p].cat
O == Trace[p].ops[n]
S == ms[O.m]
After == Step(C, S, O)
Wrong ==
  IF O.panic # "" THEN O.panic
  ELSE CASE O.op = "has"     -> IF O.res # (O.w \in S.only) THEN "HasWarning says " \o ToString(O.res) ELSE ""
         [] O.op = "haslist" -> LET h == SelectSeq(O.ws, LAMBDA w : w \in S.only)
                                IN IF O.names # h THEN "HasWarnings says " \o ToString(O.names) \o " instead of " \o ToString(h) ELSE ""
         [] O.op = "skipif"  -> IF O.res # (FirstOf(O.ws, S.only) # 0) THEN "SkipTestIf says " \o ToString(O.res) ELSE ""
         [] O.op = "get"     -> LET r == Report(C, S.log)
                                IN IF O.list # r THEN "reports " \o ToString(O.list) \o " instead of " \o ToString(r) ELSE ""
         [] OTHER -> ""
(* The closing summary lists for every warning that was shown the managers  *)
(* that had it.                                                             *)
Names == SetToSortSeq({s[2] : s \in shown}, LAMBDA a, b : Sooner(C, a, b))
Closing == [i \in DOMAIN Names |-> [name |-> Names[i], level |-> Of(C, Names[i]).level, summary |-> Summary(C, Names[i]),
             handlers |-> SetToSortSeq({s[1] : s \in {x \in shown : x[2] = Names[i]}}, Less)]]
Fresh == [log |-> <<>>, only |-> {}, def |-> {"SkipDedup", "NoHandlerCreation", "SkippingTest", "TestError", "Undefined", "Unused"}]
TraceInit == p = 1 /\ n = 1 /\ TLCSet(1, 0) /\ ms = [m \in 1 .. 3 |-> Fresh] /\ shown = {} /\ st = 0 /\ hist = 0
TraceNext ==
  /\ p <= Len(Trace)
  /\ UNCHANGED <<st, hist>>
  /\ IF n <= Len(Trace[p].ops)
     THEN /\ IF Wrong = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|call " \o ToString(n) \o " " \o O.op \o ": " \o Wrong)
          /\ ms' = [ms EXCEPT ![O.m] = After]
          /\ shown' = IF O.op = "show" THEN LET r == Report(C, S.log) IN shown \cup {<<Trace[p].mgrs[O.m].name, r[i].name>> : i \in DOMAIN r} ELSE shown
          /\ n' = n + 1 /\ p' = p
     ELSE /\ IF Trace[p].closing = Closing THEN TRUE
             ELSE PrintT("MM|" \o ToString(p) \o "|closing summary " \o ToString(Trace[p].closing) \o " instead of " \o ToString(Closing))
          /\ p' = p + 1 /\ n' = 1 /\ TLCSet(1, p) /\ ms' = [m \in 1 .. 3 |-> Fresh] /\ shown' = {}
TraceSpec == TraceInit /\ [][TraceNext]_<<st, hist, p, n, ms, shown>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
