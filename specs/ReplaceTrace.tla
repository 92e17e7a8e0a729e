---------------------------- MODULE ReplaceTrace ----------------------------
(* Validates results of the real replacement functions.                     *)
EXTENDS Replace
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES p, n
Use == Trace[p].use[n]
Wrong == LET w == Apply(Trace[p].fn, Use.gs, Use.a)
         IN IF Use.o.panic # "" THEN Use.o.panic
            ELSE IF Use.o.gs # Use.gs THEN "group path modified"
            ELSE IF Use.o.a = w THEN "" ELSE "use " \o ToString(n) \o ": " \o ToString(Use.o.a) \o " instead of " \o ToString(w)
TraceInit == p = 1 /\ n = 1 /\ TLCSet(1, 0) /\ chain = 0 /\ gs = 0 /\ attr = 0 /\ cur = 0 /\ i = 0 /\ gone = 0
TraceNext == /\ p <= Len(Trace)
             /\ IF Wrong = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o Wrong)
             /\ IF n = Len(Trace[p].use) THEN p' = p + 1 /\ n' = 1 /\ TLCSet(1, p) ELSE p' = p /\ n' = n + 1
             /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, p, n>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
