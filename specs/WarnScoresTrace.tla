-------------------------- MODULE WarnScoresTrace ---------------------------
(* Validates warning scores, in units of 1/10000. *)
EXTENDS WarnScores
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
Set(s) == {s[i] : i \in DOMAIN s}
Facts == {<<f.h, f.level, f.w, 1>> : f \in Set(R.facts)}
Ls == <<4, 3, 2, 1>>
W(l) == R.weight[l]
(* Level l counts as R.weight[l]; share avoided in units of 1/10000. *)
Share(g, h, l) == IF Had(g, h, l) = {} THEN 1000000 ELSE (1000000 * (Cardinality(Known(g, l)) - Cardinality(Had(g, h, l)))) \div Cardinality(Known(g, l))
Weigh(F(_)) == FoldLeft(LAMBDA n, l : n + F(l), 0, Ls)
Want(g, h) == LET n == Weigh(W) IN IF n = 0 THEN 1000000 ELSE Weigh(LAMBDA l : W(l) * Share(g, h, l)) \div n
(* The original score: the share of the weighted warnings. *)
Most(g) == Weigh(LAMBDA l : W(l) * Cardinality(Known(g, l)))
Original(g, h) == IF Most(g) = 0 THEN 1000000 ELSE (10000 * (100 * (Most(g) - Weigh(LAMBDA l : W(l) * Cardinality(Had(g, h, l)))))) \div Most(g)
Near(x, y) == x >= y - 3 /\ x <= y + 3 /\ x <= 1000000 /\ x >= 0
Clean(g, h) == \A i \in DOMAIN Ls : W(Ls[i]) = 0 \/ Had(g, h, Ls[i]) = {}
Differs(what, x, y) == what \o " is " \o ToString(x) \o " instead of " \o ToString(y)
BadLevel(g, h, v) == IF v.count # Cardinality(Had(g, h, v.level)) THEN Differs("count of " \o h, v.count, Cardinality(Had(g, h, v.level)))
                     ELSE IF ~Near(v.score, Share(g, h, v.level)) THEN Differs("level score of " \o h, v.score, Share(g, h, v.level)) ELSE ""
FirstBad(s, F(_)) == LET b == SelectInSeq(s, LAMBDA v : F(v) # "") IN IF b = 0 THEN "" ELSE F(s[b])
Bad(g, v) == IF ~Near(v.bydata, Want(g, v.h)) THEN Differs("score by data of " \o v.h, v.bydata, Want(g, v.h))
             ELSE IF ~Near(v.score, Want(g, v.h)) THEN Differs("score of " \o v.h, v.score, Want(g, v.h))
             ELSE IF (v.score = 1000000) # Clean(g, v.h) THEN Differs("score of " \o v.h, v.score, Want(g, v.h))
             ELSE IF v.reported /\ ~Near(v.original, Original(g, v.h)) THEN Differs("original score of " \o v.h, v.original, Original(g, v.h))
             ELSE FirstBad(v.levels, LAMBDA x : BadLevel(g, v.h, x))
Wrong == IF R.panic # "" THEN R.panic
         ELSE LET g == Facts IN FirstBad(R.scores, LAMBDA v : Bad(g, v))
TraceInit == p = 1 /\ TLCSet(1, 0) /\ got = 0 /\ weight = 0 /\ before = 0
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, p>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
