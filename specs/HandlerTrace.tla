--------------------------- MODULE HandlerTrace ---------------------------
(* Checks recorded histories of flash and sloggy handlers.  The state is    *)
(* the abstract state of a family of loggers: the derivation path of every  *)
(* logger made so far, the level variable, and (for isolation) what was     *)
(* written for each path and record so far.  Every recorded call is one     *)
(* action; what the code wrote must be what the action allows.              *)
EXTENDS Attrs, Json

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES p,        \* program
          e,        \* event within the program
          loggers,  \* derivation path of each logger
          cfgs,     \* configuration of each logger
          var,      \* value of the level variable
          memo      \* <<configuration, path, record>> -> bytes written
vars == <<p, e, loggers, cfgs, var, memo>>

Prog == Trace[p]
Ev == Prog.ev[e]
Checks(c) == \E i \in DOMAIN Prog.chk : Prog.chk[i] = c
Report(bad) == \A r \in bad : PrintT("MM|" \o ToString(p) \o "|event " \o ToString(e) \o ": " \o r)

Step(ls, cs, v, m, bad) ==
  /\ Report(bad)
  /\ loggers' = ls /\ cfgs' = cs /\ var' = v /\ memo' = m
  /\ IF e = Len(Prog.ev) THEN p' = p + 1 /\ e' = 1 /\ TLCSet(1, p)
                         ELSE p' = p /\ e' = e + 1
Finished == p > Len(Trace)

Fresh == e = 1          \* a program starts with no loggers
Ls == IF Fresh THEN <<>> ELSE loggers
Cs == IF Fresh THEN <<>> ELSE cfgs
Vr == IF Fresh THEN 0 ELSE var
Mm == IF Fresh THEN <<>> ELSE memo

If(c, s) == IF c THEN {s} ELSE {}

Config == IF Ev.hasc THEN Ev.c ELSE Prog.c
Unmodified == IF Checks("config") THEN If(Ev.o.mut # "", "caller's options modified: " \o Ev.o.mut) ELSE {}

Root == /\ Ev.op = "root"
        /\ Step(Append(Ls, <<>>), Append(Cs, Config), Vr, Mm, Unmodified)

(* A value that panics makes the panic reach the caller of the record that  *)
(* holds it, a failing writer makes its error reach the caller.             *)
RECURSIVE Explodes(_)
Explodes(as) == \E i \in DOMAIN as : (as[i].t = "leaf" /\ as[i].j = "BOOM") \/ Explodes(as[i].a)

With == /\ Ev.op = "with"
        /\ LET steps == Ls[Ev.l]
               c     == Cs[Ev.l]
               step  == [op |-> "with", as |-> Ev.as, n |-> ""]
               want  == IF c.rep THEN CallsAll(Ev.as, PathOf(steps), c.rules) ELSE <<>>
               bad   == Unmodified
                 \cup If(Ev.o.panic # "" /\ ~Explodes(Ev.as), "With: " \o Ev.o.panic)
                 \cup If(Ev.o.n # 0, "With writes a record")
                 \cup (IF Checks("calls")
                       THEN If(Bag(Ev.o.calls) # Bag(want),
                               "ReplaceAttr calls " \o ToString(Ev.o.calls) \o " instead of " \o ToString(want))
                       ELSE {})
           IN Step(Append(Ls, Append(steps, step)), Append(Cs, c), Vr, Mm, bad)

Group == /\ Ev.op = "group"
         /\ LET step == [op |-> "group", as |-> <<>>, n |-> Ev.n]
            IN Step(Append(Ls, Append(Ls[Ev.l], step)), Append(Cs, Cs[Ev.l]), Vr, Mm,
                    Unmodified \cup If(Ev.o.panic # "", "WithGroup: " \o Ev.o.panic))

SetLevel == /\ Ev.op = "level"
            /\ Step(Ls, Cs, Ev.v, Mm, {})

Threshold(c) == IF c.level = "var" THEN Vr ELSE IF c.level = "none" THEN 0 ELSE c.levelnum
Log ==
  /\ Ev.op = "log"
  /\ LET steps == Ls[Ev.l]
         c     == Cs[Ev.l]
         o     == Ev.o
         r     == [Ev.r EXCEPT !.time = o.timeat, !.pc = @ \/ Ev.api = "logger"]
         on    == r.level >= Threshold(c)
         want  == Record(c, steps, r)
         calls == IF on /\ c.rep THEN RecordCalls(c, steps, r) ELSE <<>>
         fails == Explodes(r.as) \/ Ev.fail # ""
         key   == <<c, steps, Ev.r>>
         gate  == If(o.en # on, "Enabled answers wrongly at level " \o ToString(r.level))
             \cup If(o.panic # "", "log: " \o o.panic)
             \cup If(o.n # (IF on THEN 1 ELSE 0), ToString(o.n) \o " records written at level " \o ToString(r.level))
             \cup If(o.err # "", "Handle returns error " \o o.err)
         named == LET q == SelectInSeq(o.tree, LAMBDA f : f.k = Or(c.lk, "level"))
                  IN IF ~on \/ o.n = 0 THEN {}
                     ELSE IF q = 0 THEN {"no level"}
                     ELSE If(o.tree[q].j # "s:" \o Configured(c, r.level),
                             "level " \o o.tree[q].j \o " instead of " \o Configured(c, r.level))
         tree  == IF on /\ o.n > 0
                  THEN If(~o.ok, "invalid line " \o o.raw)
                       \cup If(o.ok /\ o.tree # want, "wrote " \o o.raw \o " instead of " \o ToString(want))
                  ELSE If(on /\ o.n = 0, "nothing written")
         asked == If(Bag(o.calls) # Bag(calls),
                     "ReplaceAttr calls " \o ToString(o.calls) \o " instead of " \o ToString(calls))
         iso   == IF key \in DOMAIN Mm
                  THEN If(Mm[key] # o.raw, "wrote " \o o.raw \o " but earlier for the same path and record " \o Mm[key])
                  ELSE {}
         told  == If(Explodes(r.as) /\ Ev.fail = "" /\ on /\ o.panic = "" /\ o.n # 1, "record lost without panic")
             \cup If(o.panic = "hang", "logging hangs")
             \cup If(~Explodes(r.as) /\ Ev.fail = "err" /\ on /\ o.err = "", "error of the writer is not returned")
             \cup If(~Explodes(r.as) /\ Ev.fail = "short" /\ on /\ o.err = "", "short write is not reported")
             \cup If(~Explodes(r.as) /\ Ev.fail = "" /\ o.err # "", "error " \o o.err)
             \cup If(~Explodes(r.as) /\ Ev.fail # "panic" /\ o.panic # "", "panic " \o o.panic)
         bad   == Unmodified
             \cup (IF Checks("gate") THEN gate \cup named ELSE {})
             \cup (IF Checks("tree") /\ ~fails THEN tree ELSE {})
             \cup (IF Checks("calls") /\ ~fails THEN asked ELSE {})
             \cup (IF Checks("iso") /\ ~fails THEN iso ELSE {})
             \cup (IF Checks("fail") THEN told ELSE {})
     IN Step(Ls, Cs, Vr,
             IF Checks("iso") /\ ~fails /\ key \notin DOMAIN Mm THEN Mm @@ (key :> o.raw) ELSE Mm, bad)

TraceInit == p = 1 /\ e = 1 /\ loggers = <<>> /\ cfgs = <<>> /\ var = 0 /\ memo = <<>> /\ TLCSet(1, 0)
TraceNext == ~Finished /\ (Root \/ With \/ Group \/ SetLevel \/ Log)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
