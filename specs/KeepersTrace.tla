---------------------------- MODULE KeepersTrace ----------------------------
(* Validates histories of a registry of keepers with their filters and data. *)
EXTENDS Keepers
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
(* R.order: every tag there is in byte order; specials start with "+". *)
Index(t) == CHOOSE i \in DOMAIN R.order : R.order[i].tag = t
Before(x, y) == LET a == R.order[Index(x)] b == R.order[Index(y)]
                IN IF a.special # b.special THEN b.special ELSE Index(x) < Index(y)
InOrder(s) == SetToSortSeq(s, Before)
Set(s) == {s[i] : i \in DOMAIN s}
(* The keepers of the application itself and their handlers. *)
Dedups == {"snqk/meld", "veqryn/dedup/Append", "veqryn/dedup/Ignore", "veqryn/dedup/Increment", "veqryn/dedup/Overwrite"}
ReplAttrs == {"madkins/replattr"}
App == <<"Default", "Simple", "Size", "+Dedup", "+ReplAttr">>
AppKeeps(t, n) == CASE t = "+Dedup" -> n \in Dedups \cup {"slog/JSONHandler"}
                    [] t = "+ReplAttr" -> n \in ReplAttrs \cup {"madkins/flash"}
                    [] OTHER -> n \notin Dedups \cup ReplAttrs
Op(i) == R.ops[i]
IsApp(i) == Op(i).op = "app" /\ ~Op(i).err
(* Number of the operation that registered tag t before operation i, 0 if none. *)
By(i, t) == LET s == {j \in 1 .. i - 1 : (Op(j).op = "add" /\ Op(j).tag = t) \/ (Op(j).op = "app" /\ t \in Set(App))}
            IN IF s = {} THEN 0 ELSE Min(s)
All(i) == {t \in {R.order[j].tag : j \in DOMAIN R.order} : By(i, t) # 0}
Handlers(d) == R.data[d].handlers
Kept(i, t, n) == LET j == By(i, t) IN IF Op(j).op = "app" THEN AppKeeps(t, n) ELSE Keeps(Op(j).kind, Op(j).items, n)
(* The operation that last set up the keeper asked about, 0 if none. *)
SetUp(i) == LET t == Op(i).tag
                s == {j \in 1 .. i - 1 : /\ By(i, t) # 0
                                         /\ \/ Op(j).op = "setup" /\ Op(j).tag = t /\ By(j, t) # 0
                                            \/ IsApp(j) /\ (By(j, t) # 0 \/ t \in Set(App))}
            IN IF s = {} THEN 0 ELSE Max(s)
WantHandlers(i) == IF SetUp(i) = 0 THEN <<>>
                   ELSE LET hs == SelectSeq(Handlers(Op(SetUp(i)).data), LAMBDA h : Kept(i, Op(i).tag, h.name)) IN [j \in DOMAIN hs |-> hs[j].tag]
WantTests(i) == IF SetUp(i) = 0 THEN <<>> ELSE R.data[Op(SetUp(i)).data].tests
Differs(what, x, y) == what \o " " \o ToString(x) \o " instead of " \o ToString(y)
Bad(i) == LET o == Op(i) IN
  CASE o.op = "add" -> IF o.err # (By(i, o.tag) # 0) THEN "registering " \o o.tag \o ": error " \o ToString(o.err) ELSE ""
    [] o.op = "app" -> IF o.err # (\E t \in Set(App) : By(i, t) # 0) THEN "registering the application's keepers: error " \o ToString(o.err) ELSE ""
    [] o.op = "get" -> IF o.id # By(i, o.tag) THEN Differs("keeper of " \o o.tag, o.id, By(i, o.tag)) ELSE ""
    [] o.op = "list" -> IF o.list # InOrder(All(i)) THEN Differs("tags", o.list, InOrder(All(i))) ELSE ""
    [] o.op = "setup" -> IF o.err THEN "setting up " \o o.tag \o " failed" ELSE ""
    [] o.op = "ask" -> IF o.handlers # WantHandlers(i) THEN Differs("handlers of " \o o.tag, o.handlers, WantHandlers(i))
                       ELSE IF o.tests # WantTests(i) THEN Differs("tests of " \o o.tag, o.tests, WantTests(i)) ELSE ""
    [] o.op = "keep" -> LET w == [j \in DOMAIN o.names |-> Keeps(o.kind, o.items, o.names[j])] IN IF o.kept # w THEN Differs("kept", o.kept, w) ELSE ""
    [] OTHER -> "unknown operation"
Wrong == IF R.panic # "" THEN R.panic
         ELSE LET b == SelectInSeq([i \in DOMAIN R.ops |-> Bad(i)], LAMBDA x : x # "") IN IF b = 0 THEN "" ELSE Bad(b)
TraceInit == p = 1 /\ TLCSet(1, 0) /\ items = 0 /\ reg = 0 /\ cache = 0 /\ hist = 0 /\ ret = 0
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, p>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
