--------------------------- MODULE CreatorsTrace ----------------------------
(* Validates what loggers made by the creators write, call by call.         *)
EXTENDS Creators
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES p, e, st, lv
Prog == Trace[p]
E == Prog.ev[e]
O == E.o
Lgs == IF e = 1 THEN <<>> ELSE st
Now == IF e = 1 THEN 0 ELSE lv
Text(n) == CASE n = -4 -> "debug" [] n = 0 -> "info" [] n = 4 -> "warn" [] n = 8 -> "error"
Path(a, b) == IF a = "" THEN b ELSE a \o "." \o b
Adds(lg, as) == [lg EXCEPT !.es = @ \o [i \in DOMAIN as |-> [p |-> lg.p, k |-> as[i].k, v |-> ToString(as[i].v)]]]
Own(c) == c \in {"own-h", "own-l", "own-hl"}
By(lg) == IF ~Own(lg.c) THEN "" ELSE IF lg.c = "own-h" \/ (lg.c = "own-hl" /\ lg.via = "handler") THEN "handler" ELSE "logger"
Renamed(lg, s) == IF lg.rep /\ Replaces(lg.c) THEN {<<x[1], IF x[2] = "r" THEN "R" ELSE x[2], x[3]>> : x \in s} ELSE s
Says(what, ok) == IF ok THEN "" ELSE what
First(ss) == LET i == SelectInSeq(ss, LAMBDA s : s # "") IN IF i = 0 THEN "" ELSE ss[i]
Bad ==
  CASE E.op = "make" ->
         First(<<Says("the options of the caller are changed", ~O.changed),
                 Says("whether it makes handlers", O.can = (E.c # "own-l")),
                 Says("no logger is made", O.made = ~(E.c = "own-l" /\ E.via = "handler")),
                 Says("another creator has the same name", \A i \in DOMAIN Prog.ev : Prog.ev[i].op # "make" \/ (Prog.ev[i].o.name = O.name) = (Prog.ev[i].c = E.c))>>)
    [] E.op = "log" ->
         LET lg == Adds(Lgs[E.l], E.as)
             on == E.num >= Threshold(lg, Now)
         IN First(<<Says("Enabled is " \o ToString(O.on), O.on = on),
                    Says("lines written are " \o ToString(O.wrote), O.wrote = [w \in 1..3 |-> IF on /\ w = lg.w THEN 1 ELSE 0]),
                    IF ~on THEN "" ELSE First(<<O.bad,
                      Says("the message is " \o O.msg, O.msg = IF lg.rep /\ Basics(lg.c) THEN E.msg \o "!" ELSE E.msg),
                      Says("the level is " \o O.level, O.level = Text(E.num)),
                      Says("it is made by its " \o O.by, O.by = By(lg)),
                      Says("the time is missing or wrong", O.time),
                      Says("whether there is a source", O.src = lg.src),
                      Says("the attributes are " \o ToString(Shape(O.ents)), Shape(O.ents) = Renamed(lg, Written(How(lg.c), lg.es)))>>)>>)
    [] OTHER -> ""
TraceInit == p = 1 /\ e = 1 /\ st = <<>> /\ lv = 0 /\ TLCSet(1, 0) /\ Init
TraceNext ==
  /\ p <= Len(Trace)
  /\ LET m == IF Prog.panic # "" THEN Prog.panic ELSE Bad
     IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|event " \o ToString(e) \o ": " \o m)
  /\ st' = CASE E.op = "make" -> Append(Lgs, [c |-> E.c, via |-> E.via, w |-> E.w, level |-> E.level, num |-> E.num, src |-> E.src, rep |-> E.rep, p |-> "", es |-> <<>>])
             [] E.op = "with" -> Append(Lgs, Adds(Lgs[E.l], E.as))
             [] E.op = "group" -> Append(Lgs, [Lgs[E.l] EXCEPT !.p = Path(@, E.n)])
             [] OTHER -> Lgs
  /\ lv' = IF E.op = "set" THEN E.num ELSE Now
  /\ IF e = Len(Prog.ev) \/ Prog.panic # "" THEN p' = p + 1 /\ e' = 1 /\ TLCSet(1, p) ELSE p' = p /\ e' = e + 1
  /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, p, e, st, lv>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
