----------------------------- MODULE BenchCheck -----------------------------
(* The record checks of the benchmark suite: what a benchmark's output is,   *)
(* how it may go wrong, and what a check has to say about it.                *)
(* A record is a tree of nodes [k: key, v: token, c: children]; a token is   *)
(* "obj" for objects (with the children in order), otherwise the state of a  *)
(* value: good, wrong, str (the good value as a string of its JSON), null,   *)
(* arr, obj, lower (letters changed to lower case), nK (the number K).       *)
(* Output is a sequence of lines, each with a root node of key "".           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Benches, Warns, Steps, Wide, Random, Emit
VARIABLES b, w, out, n

N(k, v, c) == [k |-> k, v |-> v, c |-> c]
L(k) == N(k, "good", <<>>)
Root(c) == N("", "obj", c)
Basic == <<L("time"), L("level"), L("msg")>>
Shared == <<N("group", "obj", <<L("alpha"), L("never")>>), N("Any", "obj", <<L("Name"), L("Num")>>), L("Error")>>
Scalars == <<"Bool", "Int", "Int64", "Uint64", "Float64", "String", "Time", "Duration">>
All == [i \in 1 .. 8 |-> L(Scalars[i])] \o Shared
With == [i \in 1 .. 8 |-> L("with" \o Scalars[i])] \o Shared
WithOnly == [i \in 1 .. 8 |-> L("with" \o Scalars[i])]
Limit == 5
Width(d) == IF Wide = 0 THEN <<2, 1, 3, 1, 2, 1>>[d + 1] ELSE Wide
RECURSIVE Big(_, _)
Big(d, stem) == N(stem, "obj", <<N("count", "n" \o ToString(Width(d)), <<>>), N("depth", "n" \o ToString(d), <<>>), N("limit", "n" \o ToString(Limit), <<>>)>>
                  \o (IF d = Limit THEN <<>> ELSE [i \in 1 .. Width(d) |-> Big(d + 1, stem \o "-" \o ToString(i - 1))]))
LogKeys == <<"code", "elapsed", "client", "method", "url">>
LogLine == Root(Basic \o [i \in 1 .. 5 |-> L(LogKeys[i])])
Fill == N("", "fill", <<>>)  \* all other lines, good

Good(x) == CASE x = "Disabled" -> <<>>
             [] x = "Simple" -> <<Root(Basic)>>
             [] x = "SimpleSource" -> <<Root(<<L("time"), L("level"), N("source", "obj", <<L("function"), L("file"), L("line")>>), L("msg")>>)>>
             [] x \in {"Attributes", "KeyValues"} -> <<Root(Basic \o All)>>
             [] x = "WithAttrsSimple" -> <<Root(Basic \o With)>>
             [] x \in {"WithAttrsAttributes", "WithAttrsKeyValues"} -> <<Root(Basic \o WithOnly \o All)>>
             [] x \in {"WithGroupAttributes", "WithGroupKeyValues"} -> <<Root(Append(Basic, N("withGroup", "obj", All)))>>
             [] x = "BigGroup" -> <<Root(Append(Basic, Big(0, "group")))>>
             [] x = "Logging" -> <<LogLine, Fill, LogLine, LogLine>>

(* ---- what may go wrong ---- *)
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.c[p[1]], Tail(p))
RECURSIVE Edit(_, _, _)
Edit(t, p, xs) == IF Len(p) = 1 THEN [t EXCEPT !.c = SubSeq(@, 1, p[1] - 1) \o xs \o SubSeq(@, p[1] + 1, Len(@))]
                    ELSE [t EXCEPT !.c[p[1]] = Edit(t.c[p[1]], Tail(p), xs)]
RECURSIVE Add(_, _, _)
Add(t, p, x) == IF p = <<>> THEN [t EXCEPT !.c = Append(@, x)] ELSE [t EXCEPT !.c[p[1]] = Add(t.c[p[1]], Tail(p), x)]
Leaf(x, v) == N(x.k, v, <<>>)
Ops == {"drop", "wrong", "str", "null", "obj", "arr", "again", "wrongthen", "thenwrong", "rename", "lower", "alt"}
Fits(op, x) == CASE op = "lower" -> x.k = "level" /\ x.v = "good"
                 [] op = "alt" -> x.k = "msg"
                 [] op = "str" -> x.k \notin {"withGroup", "source", "time"} /\ (x.v # "obj" \/ x.k \in {"group", "Any"}) /\ x.v \notin {"str", "lower"}
                 [] OTHER -> TRUE
Change(op, x) == CASE op = "drop" -> <<>>
                   [] op \in {"wrong", "null", "arr", "lower", "obj"} -> <<Leaf(x, op)>>
                   [] op = "str" -> <<Leaf(x, IF x.k \in {"count", "depth", "limit"} THEN "q" \o x.v ELSE op)>>
                   [] op = "again" -> <<x, x>>
                   [] op = "wrongthen" -> <<Leaf(x, "wrong"), x>>
                   [] op = "thenwrong" -> <<x, Leaf(x, "wrong")>>
                   [] op = "rename" -> <<[x EXCEPT !.k = x.k \o "_"]>>
                   [] op = "alt" -> <<[x EXCEPT !.k = "message"]>>
(* All paths, of many groups only those along the edges. *)
Inner(t) == {i \in DOMAIN t.c : t.c[i].v = "obj"}
Edge(t) == {i \in DOMAIN t.c : t.c[i].v # "obj" \/ t.k \in {"", "withGroup", "group"} \/ \A j \in Inner(t) : i >= j}
RECURSIVE Paths(_)
Paths(t) == UNION {{<<i>>} \cup {<<i>> \o q : q \in Paths(t.c[i])} : i \in Edge(t)}
Objects(t) == {<<>>} \cup {p \in Paths(t) : At(t, p).v = "obj"}
Raw == {"empty", "cut", "garbage", "null", "arr", "text", "twice", "blank"}
CorruptAt(t, p) == {Edit(t, p, Change(op, At(t, p))) : op \in {o \in Ops : Fits(o, At(t, p))}}
                   \cup {Edit(Add(t, q, At(t, p)), p, <<>>) : q \in {q \in Objects(t) : ~IsPrefix(p, q)}}
Corrupt(t) == IF Paths(t) = {} THEN {Add(t, <<>>, L("extra"))}
              ELSE IF Random THEN CorruptAt(t, RandomElement(Paths(t))) \cup {Add(t, RandomElement(Objects(t)), L("extra"))}
              ELSE UNION {CorruptAt(t, p) : p \in Paths(t)} \cup {Add(t, p, L("extra")) : p \in Objects(t)}
Corruptions(o) == IF b = "Disabled" THEN {<<Root(Basic)>>, <<Root(<<>>)>>, <<N("", "blank", <<>>)>>, <<N("", "garbage", <<>>)>>}
                  ELSE UNION {{[o EXCEPT ![i] = t] : t \in Corrupt(o[i])} : i \in {i \in DOMAIN o : o[i].v = "obj"}}
                       \cup {[o EXCEPT ![i] = N("", r, <<>>)] : i \in {i \in DOMAIN o : o[i].v = "obj"}, r \in Raw}
                       \cup {SubSeq(o, 1, i - 1) \o SubSeq(o, i + 1, Len(o)) : i \in {i \in DOMAIN o : o[i].v = "obj"}}
                       \cup {SubSeq(o, 1, i) \o SubSeq(o, i, Len(o)) : i \in {i \in DOMAIN o : o[i].v = "obj"}}

Init == b \in Benches /\ w \in Warns /\ out = Good(b) /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ out' \in (IF Random THEN {RandomElement(Corruptions(out))} ELSE Corruptions(out)) /\ UNCHANGED <<b, w>>
Spec == Init /\ [][Next]_<<b, w, out, n>>

(* ---- what a check says ---- *)
Named(t, k) == {i \in DOMAIN t.c : t.c[i].k = k}
Absent == N("", "absent", <<>>)
Get(t, k) == IF t.v = "obj" /\ Named(t, k) # {} THEN t.c[Max(Named(t, k))] ELSE Absent  \* the last one counts
Keys(t) == {t.c[i].k : i \in DOMAIN t.c}
RECURSIVE Twice(_)
Twice(t) == \E i \in DOMAIN t.c : Twice(t.c[i]) \/ \E j \in DOMAIN t.c : i # j /\ t.c[i].k = t.c[j].k
Again(t) == Cardinality(Keys(t)) < Len(t.c)
(* The state of what is required at a path of keys: ok, str or bad. *)
RECURSIVE State(_, _)
State(t, p) == LET x == Get(t, p[1])
               IN IF Len(p) = 1 THEN (IF x.v \in {"good", "str"} THEN x.v ELSE "bad") ELSE IF x.v = "str" THEN "str" ELSE State(x, Tail(p))
Level(t) == LET x == Get(t, "level") IN IF x.v \in {"good", "lower"} THEN "good" ELSE IF x.v = "str" THEN "str" ELSE "bad"
Message(t) == IF Named(t, "message") # {} THEN State(t, <<"message">>) ELSE State(t, <<"msg">>)
Values == {<<k>> : k \in {"Bool", "Int", "Int64", "Uint64", "Float64", "String"}}
Groups == {<<"group", "alpha">>, <<"group", "never">>, <<"Any", "Name">>, <<"Any", "Num">>}
Required(x) == CASE x \in {"Attributes", "KeyValues"} -> Values \cup Groups
                 [] x = "WithAttrsSimple" -> {<<"with" \o p[1]>> : p \in Values} \cup Groups
                 [] x \in {"WithAttrsAttributes", "WithAttrsKeyValues"} -> Values \cup {<<"with" \o p[1]>> : p \in Values} \cup Groups
                 [] x \in {"WithGroupAttributes", "WithGroupKeyValues"} -> {<<"withGroup">> \o p : p \in Values \cup Groups}
                 [] OTHER -> {}
Alone(t) == ~({"msg", "message"} \subseteq Keys(t))
RECURSIVE BigOK(_, _, _)
BigOK(t, d, stem) ==
  LET subs == {k \in Keys(t) : Get(t, k).v = "obj"} c == Cardinality(subs) At0(k, v) == Get(t, k).v \in {"n" \o ToString(v), "qn" \o ToString(v)}
  IN /\ t.v = "obj" /\ At0("depth", d) /\ At0("limit", Limit) /\ Keys(t) \subseteq subs \cup {"count", "depth", "limit"}
     /\ IF d = Limit THEN subs = {}
        ELSE At0("count", c) /\ c > 0 /\ \A i \in 0 .. c - 1 : LET k == stem \o "-" \o ToString(i) IN k \in subs /\ BigOK(Get(t, k), d + 1, k)
RECURSIVE Quoted(_)
Quoted(t) == t.v \in {"qn" \o ToString(i) : i \in 0 .. 5} \/ \E i \in DOMAIN t.c : Quoted(t.c[i])
(* The problems of a single record. *)
Problems(x, warn, t) ==
  LET req == Required(x)
      st(s) == (\E p \in req : State(t, p) = s) \/ (x # "BigGroup" /\ (Level(t) = s \/ Message(t) = s))
      bad == st("bad") \/ (x = "Simple" /\ ~(Keys(t) \subseteq {"time", "level", "msg", "message"}))
  IN (IF bad THEN {"Mismatch"} ELSE {})
     \cup (IF st("str") THEN (IF "StringAny" \in warn /\ x # "Simple" THEN {"StringAny"} ELSE {"Mismatch"}) ELSE {})
     \cup (IF req # {} /\ Again(t) THEN {"Duplicates"} ELSE {})
     \cup (IF x = "SimpleSource" /\ (Get(t, "source").v # "obj" \/ ~({"file", "function", "line"} \subseteq Keys(Get(t, "source")))) THEN {"SourceKey"} ELSE {})
     \cup (IF x = "BigGroup" /\ ~BigOK(Get(t, "group"), 0, "group") THEN {"Mismatch"} ELSE {})
(* What the suite leaves open. *)
Undecided(x, warn, t, p) ==
  \/ ~Alone(t)
  \/ x = "BigGroup" /\ Quoted(t)
  \/ "SkipDedup" \in warn /\ x \in {"WithAttrsAttributes", "WithAttrsKeyValues"} /\ ~Again(t) /\ Level(t) = "good" /\ Message(t) = "good"
  \/ p = {} /\ (IF x = "BigGroup" THEN Twice(t) \/ Level(t) # "good" \/ Message(t) # "good" ELSE Twice(t))
LineOK(t) == t.v = "fill" \/ (t.v = "obj" /\ {"level", "code", "elapsed", "method", "url"} \subseteq Keys(t) /\ Keys(t) \cap {"msg", "message"} # {})
(* One of: right, bad (any report will do), open, or the warnings to expect. *)
Is(v, as) == [is |-> v, as |-> as]
Judge(x, warn, t) ==
  LET p == Problems(x, warn, t)
  IN IF Undecided(x, warn, t, p) THEN Is("open", {})
     ELSE IF p = {} THEN Is("right", {})
     ELSE IF p \subseteq warn /\ x \notin {"Simple", "SimpleSource", "BigGroup"} /\ p \subseteq {"Mismatch", "StringAny"} THEN Is("warned", p)
     ELSE Is("bad", p)
Verdict(x, warn, o) ==
  LET full == SelectSeq(o, LAMBDA t : t.v # "empty") some == SelectSeq(full, LAMBDA t : t.v # "blank")
  IN IF x = "Disabled" THEN Is(IF full = <<>> THEN "right" ELSE "bad", {})
     ELSE IF x = "Logging" THEN Is(IF Len(full) = 4 /\ \A i \in DOMAIN full : LineOK(full[i]) THEN "right" ELSE "bad", {})
     ELSE IF Len(some) # 1 THEN Is("bad", {})
     ELSE IF some[1].v # "obj" THEN Is("bad", {})
     ELSE IF some # full /\ Judge(x, warn, some[1]).is = "right" THEN Is("open", {})
     ELSE Judge(x, warn, some[1])

Unchanged == n = 0 => Verdict(b, w, out).is = (IF "SkipDedup" \in w /\ b \in {"WithAttrsAttributes", "WithAttrsKeyValues"} THEN "open" ELSE "right")
(* A record that lacks something required, or carries something else in its place, is never right. *)
Sound == b \notin {"Disabled", "Logging", "BigGroup"} /\ Len(out) = 1 /\ Verdict(b, w, out).is = "right" =>
         LET t == out[1]
         IN /\ Level(t) = "good" /\ Message(t) = "good"
            /\ \A p \in Required(b) : State(t, p) = "good"
            /\ Required(b) # {} => \A k \in Keys(t) : Cardinality(Named(t, k)) = 1
EmitCase == Emit /\ n = Steps => PrintT("CASE " \o ToJson([b |-> b, w |-> w, out |-> out]))
=============================================================================
