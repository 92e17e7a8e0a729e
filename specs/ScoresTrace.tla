---------------------------- MODULE ScoresTrace -----------------------------
(* Validates benchmark scores. Values are small numbers the driver scaled up, *)
(* scores are in units of 1/10000.                                            *)
EXTENDS Scores
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
Ms == <<"ns", "bytes", "allocs">>
(* The last line of handler and test counts. *)
Lines(h, t) == SelectSeq(R.lines, LAMBDA l : l.h = h /\ l.t = t)
Set(s) == {s[i] : i \in DOMAIN s}
Data == [h \in {R.lines[i].h : i \in DOMAIN R.lines} |->
          [t \in {R.lines[i].t : i \in {j \in DOMAIN R.lines : R.lines[j].h = h}} |->
            LET l == Lines(h, t) IN l[Len(l)].v]]
Weights == R.weight
All == {R.lines[i].t : i \in DOMAIN R.lines}
Chose == (IF R.include = <<"*">> THEN All ELSE Set(R.include)) \ Set(R.exclude)
(* Fixed point, as fractions of many parts outgrow TLC's numbers. *)
NoScore == -1
Fix(r, h, t, m) == (1000000 * (Max(Values(r, t, m)) - r[h][t][m])) \div Length(r, t, m)
Avg(parts) == IF Total(parts) = 0 THEN NoScore ELSE FoldLeft(LAMBDA x, q : x + q[1] * q[2], 0, parts) \div Total(parts)
FTest(r, h, t) == LET ms == SelectSeq(Ms, LAMBDA m : Length(r, t, m) > 0) IN Avg([i \in DOMAIN ms |-> <<Fix(r, h, t, ms[i]), Weights[ms[i]]>>])
FSel(r, h) == LET ts == SetToSeq(Chose \cap DOMAIN r[h]) IN ts
FByTest(r, h) == LET ts == SelectSeq(FSel(r, h), LAMBDA t : FTest(r, h, t) # NoScore) IN Avg([i \in DOMAIN ts |-> <<FTest(r, h, ts[i]), 1>>])
FMeasure(r, h, m) == LET ts == SelectSeq(FSel(r, h), LAMBDA t : Length(r, t, m) > 0) IN Avg([i \in DOMAIN ts |-> <<Fix(r, h, ts[i], m), 1>>])
FByData(r, h) == LET ms == SelectSeq(Ms, LAMBDA m : FMeasure(r, h, m) # NoScore) IN Avg([i \in DOMAIN ms |-> <<FMeasure(r, h, ms[i]), Weights[ms[i]]>>])
Near(x, y) == IF y = NoScore THEN x = NoScore ELSE x >= y - 4 /\ x <= y + 4 /\ x >= 0 /\ x <= 1000000
Half(x, y) == IF x = NoScore \/ y = NoScore THEN NoScore ELSE (x + y) \div 2
Differs(what, x, y) == what \o " is " \o ToString(x) \o " instead of " \o ToString(y)
BadTest(r, s) == LET want == IF s.t \in Chose THEN FTest(r, s.h, s.t) ELSE NoScore
                 IN IF ~Near(s.v, want) THEN Differs("score of " \o s.h \o " for " \o s.t, s.v, want)
                    ELSE IF want # NoScore /\ ~s.has THEN "test " \o s.t \o " isn't known" ELSE ""
BadScore(r, s) == LET t == FByTest(r, s.h) d == FByData(r, s.h)
                  IN IF ~Near(s.bytest, t) THEN Differs("score by test of " \o s.h, s.bytest, t)
                     ELSE IF ~Near(s.bydata, d) THEN Differs("score by data of " \o s.h, s.bydata, d)
                     ELSE IF ~Near(s.original, t) THEN Differs("original score of " \o s.h, s.original, t)
                     ELSE IF ~Near(s.score, Half(t, d)) THEN Differs("score of " \o s.h, s.score, Half(t, d)) ELSE ""
(* The score over all tests of a handler that isn't worse in anything isn't lower. *)
FirstBad(s, F(_)) == LET b == SelectInSeq(s, LAMBDA v : F(v) # "") IN IF b = 0 THEN "" ELSE F(s[b])
Wrong == IF R.panic # "" THEN R.panic
         ELSE LET r == Data
                  a == FirstBad(R.tests, LAMBDA s : BadTest(r, s))
              IN IF a # "" THEN a
                 ELSE IF {<<s.h, s.t>> : s \in Set(R.tests)} # {<<l.h, l.t>> : l \in Set(R.lines)} THEN "records are missing"
                 ELSE IF {s.h : s \in Set(R.scores)} # DOMAIN r THEN "handlers are missing"
                 ELSE FirstBad(R.scores, LAMBDA s : BadScore(r, s))
TraceInit == p = 1 /\ TLCSet(1, 0) /\ rec = 0 /\ weight = 0 /\ sel = 0 /\ before = 0
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, p>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
