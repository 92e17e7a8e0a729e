---------------------------- MODULE TracerTrace ----------------------------
(* Validates the lines the real trace handler prints call by call.          *)
EXTENDS Tracer
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES p, e, ds

Prog == Trace[p]
Ev == Prog.ev[e]
Ds == IF e = 1 THEN <<0>> ELSE ds
(* A logger's calls: With and WithGroup are passed on unless there is       *)
(* nothing to add; logging asks Enabled and then has the record handled.    *)
Lines == IF Ev.op = "log"
         THEN <<Line(Prog.indent, Ds[Ev.h], [Ev EXCEPT !.op = "Enabled"]), Line(Prog.indent, Ds[Ev.h], [Ev EXCEPT !.op = "Handle"])>>
         ELSE <<Line(Prog.indent, Ds[Ev.h], Ev)>>
Text == FoldLeft(LAMBDA s, x : s \o x \o "\n", "", Lines)
TraceInit == p = 1 /\ e = 1 /\ ds = <<0>> /\ TLCSet(1, 0) /\ Init
TraceNext ==
  /\ p <= Len(Trace)
  /\ IF Ev.out # Text THEN PrintT("MM|" \o ToString(p) \o "|event " \o ToString(e) \o " prints " \o Ev.out \o " instead of " \o Text) ELSE TRUE
  /\ IF Ev.op = "Enabled" /\ Ev.ret # "true" THEN PrintT("MM|" \o ToString(p) \o "|event " \o ToString(e) \o ": level not enabled") ELSE TRUE
  /\ IF Ev.op # "Enabled" /\ Ev.ret # "" THEN PrintT("MM|" \o ToString(p) \o "|event " \o ToString(e) \o ": returns " \o Ev.ret) ELSE TRUE
  /\ ds' = IF Ev.op \in {"WithAttrs", "WithGroup"} THEN Append(Ds, Ds[Ev.h] + 1) ELSE Ds
  /\ IF e = Len(Prog.ev) THEN p' = p + 1 /\ e' = 1 /\ TLCSet(1, p) ELSE p' = p /\ e' = e + 1
  /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, p, e, ds>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
