--------------------------- MODULE SuiteCheckTrace ---------------------------
(* Validates what the tests of the suite said about deviating handlers.      *)
EXTENDS SuiteCheck
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
RangeOf(s) == {s[i] : i \in DOMAIN s}
D == RangeOf(R.defects)
E == IF R.off THEN {} ELSE RangeOf(R.excused)
Given(t) == {x.w : x \in {y \in RangeOf(R.warns) : y.t = t /\ y.w # "Unused"}}
Unneeded(t) == {x.text : x \in {y \in RangeOf(R.warns) : y.t = t /\ y.w = "Unused"}}
Warned == {x.w : x \in RangeOf(R.warns)}
Ran == {x.t : x \in RangeOf(R.tests)}
Passed(t) == \E x \in RangeOf(R.tests) : x.t = t /\ x.p
Say(t, what) == PrintT("MM|" \o ToString(p) \o "|" \o t \o " " \o what)

Judge(t) ==
  LET v == Verdict(D, E, R.logger, t)
  IN /\ IF v = "pass" /\ ~Passed(t) THEN Say(t, "fails") ELSE TRUE
     /\ IF v = "fail" /\ Passed(t) THEN Say(t, "passes") ELSE TRUE
     /\ \A x \in Due(D, E, R.logger, t) \ Given(t) : Say(t, "lacks " \o x)
     /\ \A x \in Given(t) \ Allowed(D, E, R.logger, t) : Say(t, "warns " \o x)
     /\ \A x \in UnusedDue(D, E, R.logger, t) \ (Unneeded(t) \cup Warned) : Say(t, "lacks unused " \o x)
     /\ \A x \in Unneeded(t) \ (UnusedAllowed(D, E, R.logger, t) \ Warned) : Say(t, "unused " \o x)
Unknown == {x.t : x \in RangeOf(R.warns)} \ Tests
TraceInit == /\ p = 1 /\ defects = {} /\ excused = {} /\ logger = FALSE /\ off = FALSE /\ todo = {} /\ said = {} /\ TLCSet(1, 0)
TraceNext == /\ p <= Len(Trace)
             /\ IF R.strange # "" THEN Say("suite", R.strange) ELSE TRUE
             /\ IF Ran = Tests THEN TRUE ELSE Say("suite", "ran other tests")
             /\ IF Unknown = {} THEN TRUE ELSE Say("suite", "warns at unknown tests")
             /\ \A t \in Tests : Judge(t)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<p, vars>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
