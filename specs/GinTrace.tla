----------------------------- MODULE GinTrace -----------------------------
(* Validates sequences of writes to a real gin writer.  Each write reports  *)
(* n, err and the records that reached the default logger.                  *)
EXTENDS Gin
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES p, n
U == Trace[p].use[n]
Fields(f) == {<<"code", "n:" \o f[1]>>, <<"elapsed", "s:" \o f[2]>>, <<"client", "s:" \o f[3]>>, <<"method", "s:" \o f[4]>>, <<"url", "s:" \o f[5]>>}
(* The notice that a line is no traffic is not the record of the write. *)
Own == SelectSeq(U.recs, LAMBDA r : ~(Trace[p].cfg.parse /\ r.level = -4 /\ r.msg = "gin traffic parse"))
Wrong ==
  LET c == [Trace[p].cfg EXCEPT !.level = U.level, !.tlevel = U.tlevel]
      w == Write(c, U.line)
  IN IF U.panic # "" THEN U.panic
     ELSE IF w.level = -999
     THEN IF U.err = "" THEN "unknown level accepted" ELSE IF Own # <<>> THEN "record written for an unknown level" ELSE ""
     ELSE IF U.err # "" THEN "error " \o U.err
     ELSE IF U.n # U.bytes THEN "reports " \o ToString(U.n) \o " bytes instead of " \o ToString(U.bytes)
     ELSE IF Len(Own) # 1 THEN ToString(Len(Own)) \o " records"
     ELSE LET r == Own[1]
          IN IF r.level # w.level THEN "level " \o ToString(r.level) \o " instead of " \o ToString(w.level)
             ELSE IF r.msg # w.msg THEN "message " \o r.msg \o " instead of " \o w.msg
             ELSE IF w.f = <<>> THEN IF r.fs # <<>> \/ r.group # "" THEN "fields " \o ToString(r.fs) ELSE ""
             ELSE IF r.group # w.group THEN "group " \o r.group \o " instead of " \o w.group
             ELSE IF Len(r.fs) # 5 \/ {<<r.fs[k].k, r.fs[k].j>> : k \in DOMAIN r.fs} # Fields(w.f)
             THEN "fields " \o ToString(r.fs) \o " instead of " \o ToString(w.f) ELSE ""
TraceInit == p = 1 /\ n = 1 /\ TLCSet(1, 0) /\ cfg = 0 /\ pre = 0 /\ stamp = 0 /\ body = 0 /\ end = 0 /\ phase = 0
TraceNext == /\ p <= Len(Trace)
             /\ IF Wrong = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|write " \o ToString(n) \o ": " \o Wrong)
             /\ IF n = Len(Trace[p].use) THEN p' = p + 1 /\ n' = 1 /\ TLCSet(1, p) ELSE p' = p /\ n' = n + 1
             /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, p, n>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
