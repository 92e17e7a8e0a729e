--------------------------- MODULE BenchCheckTrace ---------------------------
(* Validates what the checks of the benchmark suite said about outputs.      *)
EXTENDS BenchCheck
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
RangeOf(s) == {s[i] : i \in DOMAIN s}
Starts(s, stem) == Len(s) >= Len(stem) /\ SubSeq(s, 1, Len(stem)) = stem
RECURSIVE Loose(_, _)
Loose(t, stem) == \A k \in Keys(t) : IF Get(t, k).v = "obj" THEN Starts(k, stem) /\ Loose(Get(t, k), k) ELSE k \in {"count", "depth", "limit"}
RECURSIVE Deep(_)
Deep(t) == LET s == {k \in Keys(t) : Get(t, k).v = "obj"} IN IF s = {} THEN 0 ELSE 1 + Max({Deep(Get(t, k)) : k \in s})
WeakBig(t) == LET g == Get(t, "group") IN g.v = "absent" \/ (g.v = "obj" /\ Loose(g, "group") /\ Deep(g) = Limit)
(* What the checks are known to overlook (known-findings.json): repeated fields, missing or misplaced groups of *)
(* a big group, and how many lines there are.                                                                  *)
Blind == IF R.b = "Logging" THEN \A i \in DOMAIN R.out : R.out[i].v = "empty" \/ LineOK(R.out[i])
         ELSE LET some == SelectSeq(R.out, LAMBDA t : t.v \notin {"empty", "blank"})
              IN /\ Len(some) = 1
                 /\ IF some[1].v = "null" THEN R.b = "BigGroup" ELSE some[1].v = "obj"
                 /\ LET q == Problems(R.b, RangeOf(R.w), some[1])
                    IN IF some[1].v = "null" THEN TRUE
                       ELSE IF R.b = "BigGroup" THEN q = {"Mismatch"} /\ WeakBig(some[1])
                       ELSE "Duplicates" \in q /\ (q \ {"Duplicates"} \subseteq RangeOf(R.w) \/
                            ("SkipDedup" \in RangeOf(R.w) /\ R.b \in {"WithAttrsAttributes", "WithAttrsKeyValues"}
                             /\ Level(some[1]) = "good" /\ Message(some[1]) = "good"))
Overlooked(what) == IF Blind THEN "KNOWN " \o (CASE R.b = "Logging" -> "lines" [] R.b = "BigGroup" -> "biggroup" [] OTHER -> "duplicates") ELSE what
Bad == LET names == RangeOf(R.warned) \ {"Unused"}
           said == R.err \/ names # {}
           v == Verdict(R.b, RangeOf(R.w), R.out)
       IN IF R.strange # "" THEN R.strange
          ELSE IF R.run # "" THEN
               (IF R.b \in {"Disabled", "Logging"} /\ R.run # "exact" THEN "" ELSE IF R.failed # (R.run # "exact") THEN "run with lines " \o R.run \o (IF R.failed THEN " failed" ELSE " passed") ELSE "")
          ELSE IF v.is = "right" /\ said THEN "correct output was reported: " \o ToString(names) \o " " \o R.text
          ELSE IF v.is = "bad" /\ ~said THEN Overlooked("output with the problems " \o ToString(v.as) \o " was accepted")
          ELSE IF v.is = "warned" /\ (R.err \/ names # v.as) THEN "expected " \o ToString(v.as) \o " instead of " \o ToString(names) \o " " \o R.text
          ELSE ""
TraceInit == p = 1 /\ b = "" /\ w = {} /\ out = <<>> /\ n = 0 /\ TLCSet(1, 0)
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Bad IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o R.b \o ": " \o m)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED <<b, w, out, n>>
TraceSpec == TraceInit /\ [][TraceNext]_<<p, b, w, out, n>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
