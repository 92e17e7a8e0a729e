------------------------------ MODULE Creators ------------------------------
(* Loggers made by creators: each follows the level its options name, now,  *)
(* writes to the writer it was made for, and treats repeated keys in the    *)
(* way of its kind.                                                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC

(* ---- what a record's attributes become ---- *)
(* An attribute [p, k, v] is a value at a key within a group path.  What is *)
(* written is the set of <<p, k, values in order>>.                         *)
Values(es, p, k) == LET s == SelectSeq(es, LAMBDA e : e.p = p /\ e.k = k) IN [i \in DOMAIN s |-> s[i].v]
Places(es) == {<<es[i].p, es[i].k>> : i \in DOMAIN es}
Shape(es) == {<<x[1], x[2], Values(es, x[1], x[2])>> : x \in Places(es)}
Listed(vs) == IF Len(vs) = 1 THEN vs[1] ELSE "[" \o FoldLeft(LAMBDA s, v : IF s = "" THEN v ELSE s \o "," \o v, "", vs) \o "]"
Numbered(k, i) == IF i = 1 THEN k ELSE k \o (IF i <= 10 THEN "#0" ELSE "#") \o ToString(i - 1)
Treated(how, p, k, vs) ==
  CASE how = "keep"  -> {<<p, k, vs>>}
    [] how = "last"  -> {<<p, k, <<vs[Len(vs)]>>>>}
    [] how = "first" -> {<<p, k, <<vs[1]>>>>}
    [] how = "list"  -> {<<p, k, <<Listed(vs)>>>>}
    [] how = "count" -> {<<p, Numbered(k, i), <<vs[i]>>>> : i \in DOMAIN vs}
Written(how, es) == UNION {Treated(how, x[1], x[2], x[3]) : x \in Shape(es)}

(* ---- kinds of creators ---- *)
How(c) == CASE c \in {"logrus", "zap", "zerolog", "overwrite"} -> "last"
            [] c = "ignore" -> "first"
            [] c = "append" -> "list"
            [] c = "increment" -> "count"
            [] OTHER -> "keep"
Replaces(c) == c # "phsym"
(* The basic fields are passed to the replacement function, too. *)
Basics(c) == c \notin {"phsym", "logrus", "zap", "zerolog"}
(* The level when the options have none. *)
Default(c) == IF c = "zerolog" THEN -4 ELSE 0
Threshold(lg, now) == CASE lg.level = "none" -> Default(lg.c) [] lg.level = "var" -> now [] OTHER -> lg.num

(* ---- model ---- *)
(* Handlers that wrap another library have two levels, their own and the    *)
(* library's; with Frozen the latter is read once.  Repeated keys are dealt *)
(* with attribute by attribute.                                             *)
CONSTANTS Depth, Kinds, Frozen, Emit
VARIABLES now, lgs, hist, out
vars == <<now, lgs, hist, out>>
Levels == {-4, 0, 8}
Init == now = 0 /\ lgs = <<>> /\ hist = <<>> /\ out = <<>>
Do(e) == Len(hist) < Depth /\ hist' = Append(hist, e)
Ev(op, l, x) == [op |-> op, l |-> l, x |-> x]
Make(c, lv) ==
  /\ Do(Ev("make", 0, <<c, lv>>)) /\ Len(lgs) < 2
  /\ lgs' = Append(lgs, [c |-> c, level |-> IF lv = 100 THEN "var" ELSE IF lv = 99 THEN "none" ELSE "fixed", num |-> lv,
                         inner |-> IF lv = 100 THEN now ELSE IF lv = 99 THEN Default(c) ELSE lv, p |-> "", es |-> <<>>])
  /\ UNCHANGED <<now, out>>
Add(lg, k) == [lg EXCEPT !.es = Append(@, [p |-> lg.p, k |-> k, v |-> ToString(Len(hist))])]
With(l, k) == Do(Ev("with", l, <<k>>)) /\ lgs' = Append(lgs, Add(lgs[l], k)) /\ UNCHANGED <<now, out>>
Group(l) == Do(Ev("group", l, <<>>)) /\ lgs[l].p = "" /\ lgs' = Append(lgs, [lgs[l] EXCEPT !.p = "g"]) /\ UNCHANGED <<now, out>>
Set(v) == v # now /\ Do(Ev("set", 0, <<v>>)) /\ now' = v /\ UNCHANGED <<lgs, out>>
Put(how, s, e) ==
  LET same == {x \in s : x[1] = e.p /\ x[2] = e.k}
      n == Cardinality({x \in s : x[1] = e.p /\ x[4] = e.k})
  IN CASE how = "keep" -> IF same = {} THEN s \cup {<<e.p, e.k, <<e.v>>, e.k>>} ELSE (s \ same) \cup {<<x[1], x[2], Append(x[3], e.v), e.k>> : x \in same}
       [] how = "last" -> (s \ same) \cup {<<e.p, e.k, <<e.v>>, e.k>>}
       [] how = "first" -> IF same = {} THEN s \cup {<<e.p, e.k, <<e.v>>, e.k>>} ELSE s
       [] how = "list" -> IF same = {} THEN s \cup {<<e.p, e.k, <<e.v>>, e.k>>} ELSE (s \ same) \cup {<<x[1], x[2], Append(x[3], e.v), e.k>> : x \in same}
       [] how = "count" -> s \cup {<<e.p, Numbered(e.k, n + 1), <<e.v>>, e.k>>}
Stored(how, es) == LET s == FoldLeft(LAMBDA a, e : Put(how, a, e), {}, es)
                   IN {<<x[1], x[2], IF how = "list" THEN <<Listed(x[3])>> ELSE x[3]>> : x \in s}
Log(l, r, ks) ==
  /\ Do(Ev("log", l, <<r, ks>>))
  /\ LET lg == FoldLeft(LAMBDA g, k : Add(g, k), lgs[l], ks)
         on == r >= Threshold(lg, now) /\ (Frozen => r >= lg.inner)
     IN out' = Append(out, [lg |-> lg, now |-> now, r |-> r, on |-> on, w |-> IF on THEN Stored(How(lg.c), lg.es) ELSE {}])
  /\ UNCHANGED <<now, lgs>>
Next == \/ \E c \in Kinds, lv \in {-4, 8, 99, 100} : Make(c, lv)
        \/ \E l \in DOMAIN lgs : \/ \E k \in {"a", "r"} : With(l, k)
                                 \/ Group(l)
                                 \/ \E r \in Levels, ks \in {<<"a">>, <<"a", "a">>, <<"a", "r">>} : Log(l, r, ks)
        \/ \E v \in Levels : Set(v)
Spec == Init /\ [][Next]_vars
(* A record is written exactly if its level is at least the one in force. *)
Followed == \A i \in DOMAIN out : out[i].on <=> out[i].r >= Threshold(out[i].lg, out[i].now)
Resolved == \A i \in DOMAIN out : out[i].on => out[i].w = Written(How(out[i].lg.c), out[i].lg.es)
EmitHist == (Emit /\ Len(hist) = Depth /\ out # <<>>) => PrintT("CASE " \o ToJson(hist))
=============================================================================
