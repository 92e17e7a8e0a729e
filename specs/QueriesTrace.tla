---------------------------- MODULE QueriesTrace ----------------------------
(* Validates the answers of queries that overlapped: each is the answer the  *)
(* query gives alone, and lists hold everything once and in order.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
Set(s) == {s[i] : i \in DOMAIN s}
(* R.want[q]: the items a list must hold, in order; <<>> with any = TRUE otherwise. *)
Bad(a) == IF a.panic # "" THEN "query " \o R.queries[a.q] \o ": " \o a.panic
          ELSE IF a.answer # R.alone[a.q] THEN "query " \o R.queries[a.q] \o " answered differently than alone: " \o a.text
          ELSE IF ~R.want[a.q].any /\ a.list # R.want[a.q].list THEN "query " \o R.queries[a.q] \o " answered " \o ToString(a.list) \o " instead of " \o ToString(R.want[a.q].list)
          ELSE ""
(* Every query of the schedule was answered. *)
Begun == Len(SelectSeq(R.sched, LAMBDA s : s.k = "begin")) * R.times * R.rounds
Wrong == IF R.panic # "" THEN R.panic
         ELSE IF Len(R.answers) # Begun THEN "answers are missing"
         ELSE LET b == SelectInSeq(R.answers, LAMBDA a : Bad(a) # "") IN IF b = 0 THEN "" ELSE Bad(R.answers[b])
TraceInit == p = 1 /\ TLCSet(1, 0)
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p)
TraceSpec == TraceInit /\ [][TraceNext]_p
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
