---------------------------- MODULE EscapeTrace ----------------------------
(* Validates, byte by byte, records written by the real handlers for        *)
(* programs whose texts (message, names, values ...) are arbitrary bytes.   *)
(* A program: c (configured names), steps (group/with), level, msg, as and  *)
(* out, the bytes written; texts are sequences of bytes.                    *)
EXTENDS JsonBytes, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p

(* What the record has to contain, in order. *)
T(t, d, c) == [t |-> t, d |-> d, c |-> c]
RECURSIVE Attrs(_, _)
Attrs(as, d) ==
  FlattenSeq([i \in DOMAIN as |->
    LET a == as[i]
    IN <<T("k", d, a.k)>> \o
       (CASE a.t = "grp"   -> <<T("o", d, <<>>)>> \o Attrs(a.a, d + 1)
          [] a.t = "slice" -> <<T("a", d, <<>>), T("s", d + 1, a.v)>>
          [] a.t = "map"   -> <<T("o", d, <<>>), T("k", d + 1, a.v), T("s", d + 1, a.v)>>
          [] a.t = "int"   -> <<T("v", d, <<>>)>>
          [] OTHER         -> <<T("s", d, a.v)>>)])

Step(acc, s) ==
  IF s.op = "group" THEN [d |-> acc.d + 1, ts |-> acc.ts \o <<T("k", acc.d, s.n), T("o", acc.d, <<>>)>>]
  ELSE [acc EXCEPT !.ts = @ \o Attrs(s.as, acc.d)]
Want(r) ==
  LET acc == FoldLeft(Step, [d |-> 1, ts |-> <<>>], r.steps)
  IN <<T("o", 0, <<>>),
       T("k", 1, r.o.tk), T("s", 1, r.o.time), T("k", 1, r.o.lk), T("s", 1, r.o.level), T("k", 1, r.o.mk), T("s", 1, r.msg)>>
     \o acc.ts \o Attrs(r.as, acc.d)

Body(bs) == LET n == Len(bs)
            IN IF n >= 2 /\ bs[n] = 10 /\ bs[n-1] = 13 THEN SubSeq(bs, 1, n - 2)
               ELSE IF n >= 1 /\ bs[n] = 10 THEN SubSeq(bs, 1, n - 1) ELSE <<>>

Wrong(r) ==
  IF r.o.panic # "" THEN "panic " \o r.o.panic
  ELSE IF r.o.err # "" THEN "error " \o r.o.err
  ELSE LET bs == Body(r.o.out)
           s  == Text(bs)
           w  == Want(r)
           g  == s.toks
       IN IF Len(r.o.out) = 0 THEN "nothing written"
          ELSE IF bs = <<>> THEN "no line terminator"
          ELSE IF \E i \in DOMAIN bs : bs[i] \in {10, 13} THEN "more than one line"
          ELSE IF s.st = "bad" THEN "not valid JSON"
          ELSE IF ~IsObject(s) THEN "not a complete JSON object"
          ELSE IF Len(g) # Len(w) THEN "fields missing or added"
          ELSE LET bad == {i \in DOMAIN w : ~(/\ g[i].t = w[i].t /\ g[i].d = w[i].d
                                              /\ w[i].t \in {"k", "s"} => RoundTrip(w[i].c, g[i].c))}
               IN IF bad = {} THEN ""
                  ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                       IN "text " \o ToString(w[i]) \o " became " \o ToString(g[i])

TraceInit == p = 1 /\ TLCSet(1, 0)
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong(Trace[p])
                IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p)
TraceSpec == TraceInit /\ [][TraceNext]_p
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
