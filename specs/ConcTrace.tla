----------------------------- MODULE ConcTrace -----------------------------
(* Checks recorded concurrent runs of the real handlers.  The events are    *)
(* the ones visible from outside: a record is started, a call of the        *)
(* writer begins and ends, the logging call returns.  They are the steps    *)
(* Start, Write, Written and (for Panic and failures) the return of module  *)
(* Conc, with everything inside a logging call left to the implementation.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES p, e, pc, active, count
vars == <<p, e, pc, active, count>>
Prog == Trace[p]
Ev == Prog.ev[e]
Recs == DOMAIN Prog.recs
Report(bad) == \A r \in bad : PrintT("MM|" \o ToString(p) \o "|event " \o ToString(e) \o ": " \o r)
If(c, s) == IF c THEN {s} ELSE {}

PC == IF e = 1 THEN [r \in Recs |-> "idle"] ELSE pc
Act == IF e = 1 THEN {} ELSE active
Cnt == IF e = 1 THEN [r \in Recs |-> 0] ELSE count

Final(n) ==    \* after the last event
  UNION {    If(n[r] > 1, "record " \o ToString(r) \o " written " \o ToString(n[r]) \o " times")
        \cup If(n[r] = 0 /\ Prog.recs[r].kind = "ok", "record " \o ToString(r) \o " never written") : r \in Recs }

Step(pcs, act, cnt, bad) ==
  /\ pc' = pcs /\ active' = act /\ count' = cnt
  /\ IF e = Len(Prog.ev) THEN p' = p + 1 /\ e' = 1 /\ TLCSet(1, p) /\ Report(bad \cup Final(cnt))
                         ELSE p' = p /\ e' = e + 1 /\ Report(bad)

Start == /\ Ev.a = "start"
         /\ Step([PC EXCEPT ![Ev.r] = "running"], Act, Cnt, {})

Owner(data) == LET s == {r \in Recs : Prog.recs[r].expect = data} IN IF s = {} THEN 0 ELSE CHOOSE r \in s : TRUE

WriteBegin ==
  /\ Ev.a = "wbegin"
  /\ LET r == Owner(Ev.data)
         bad == If(Act # {}, "Write called while another Write is active")
           \cup If(r = 0, "one Write call got " \o Ev.data)
           \cup If(r # 0 /\ PC[r] # "running", "record written after its logging call returned")
     IN Step(PC, Act \cup {Ev.w}, IF r = 0 THEN Cnt ELSE [Cnt EXCEPT ![r] = @ + 1], bad)

WriteEnd ==
  /\ Ev.a = "wend"
  /\ Step(PC, Act \ {Ev.w}, Cnt, If(~Ev.same, "data changed during Write to " \o Ev.data))

Return ==
  /\ Ev.a = "ret"
  /\ LET k == Prog.recs[Ev.r].kind
         bad == If(k = "ok" /\ Ev.res # "ok", "record " \o ToString(Ev.r) \o " ended with " \o Ev.res)
           \cup If(k = "fail" /\ Ev.res = "ok", "error of the writer not reported")
           \cup If(k = "boom" /\ Ev.res = "ok" /\ Cnt[Ev.r] = 0, "panic swallowed")
           \cup If(k = "ok" /\ Cnt[Ev.r] = 0, "logging call returned before its record was written")
     IN Step([PC EXCEPT ![Ev.r] = "done"], Act, Cnt, bad)

(* Something the driver saw fail as a whole: a logging call that never      *)
(* returned or a data race.                                                 *)
Failed == /\ Ev.a = "failed"
          /\ Step(PC, Act, Cnt, {Ev.data})

TraceInit == p = 1 /\ e = 1 /\ pc = <<>> /\ active = {} /\ count = <<>> /\ TLCSet(1, 0)
TraceNext == p <= Len(Trace) /\ (Start \/ WriteBegin \/ WriteEnd \/ Return \/ Failed)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
