------------------------------- MODULE Attrs -------------------------------
(* What a record handed to a flash or sloggy logger means: the declarative  *)
(* side of the specification.  An attribute is a record                     *)
(*    [k |-> key, t |-> type, j |-> leaf text, a |-> attributes]            *)
(* with t = "leaf" (j is its rendered token), "nil" (Go nil, j = "z"),      *)
(* "grp" (a slog group, members in a) or "lv" (a LogValuer, a[1] carries    *)
(* the value it resolves to).  A rendered object is a sequence of entries   *)
(*    [k |-> key, j |-> token, f |-> entries]      (j = "{" for an object). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Leaf(k, j) == [k |-> k, t |-> "leaf", j |-> j, a |-> <<>>]
Nil(k)     == [k |-> k, t |-> "nil", j |-> "z", a |-> <<>>]
Grp(k, as) == [k |-> k, t |-> "grp", j |-> "", a |-> as]
LV(k, v)   == [k |-> k, t |-> "lv", j |-> "", a |-> <<v>>]
NoAttr     == Nil("")

RECURSIVE Resolved(_)
Resolved(a) == IF a.t = "lv" THEN Resolved([a.a[1] EXCEPT !.k = a.k]) ELSE a

IsEmpty(a) == a.k = "" /\ (a.t = "nil" \/ (a.t = "leaf" /\ a.j = "z"))

(* ReplaceAttr functions are given as lists of rules; the first one that    *)
(* matches key and group path decides.  No rule touches an empty attribute. *)
Matches(r, path, a) == /\ ~IsEmpty(a)
                       /\ r.k = "*" \/ r.k = a.k
                       /\ r.any \/ r.p = path
Replaced(rules, path, a) ==
  LET i == SelectInSeq(rules, LAMBDA r : Matches(r, path, a))
  IN IF i = 0 THEN a
     ELSE LET r == rules[i]
          IN CASE r.act = "drop"   -> NoAttr
               [] r.act = "rename" -> [a EXCEPT !.k = r.s]
               [] r.act = "path"   -> Leaf(a.k, "s:" \o FoldLeft(LAMBDA s, x : IF s = "" THEN x ELSE s \o "/" \o x, "", path))
               [] r.act = "set"    -> Leaf(a.k, r.s)
               [] r.act = "value"  -> [r.a[1] EXCEPT !.k = a.k]
               [] r.act = "attr"   -> r.a[1]

RECURSIVE Render(_, _, _), RenderAll(_, _, _)
Render(attr, path, rules) ==
  LET a0 == Resolved(attr)
      a1 == IF a0.t = "grp" THEN a0 ELSE Resolved(Replaced(rules, path, a0))
  IN IF IsEmpty(a1) THEN <<>>
     ELSE IF a1.t = "grp"
     THEN IF a1.k = "" THEN RenderAll(a1.a, path, rules)
          ELSE LET sub == RenderAll(a1.a, Append(path, a1.k), rules)
               IN IF sub = <<>> THEN <<>> ELSE <<[k |-> a1.k, j |-> "{", f |-> sub]>>
     ELSE <<[k |-> a1.k, j |-> a1.j, f |-> <<>>]>>
RenderAll(as, path, rules) ==
  FlattenSeq([i \in DOMAIN as |-> Render(as[i], path, rules)])

(* The consultations of ReplaceAttr rendering an attribute implies. *)
RECURSIVE Calls(_, _, _), CallsAll(_, _, _)
Calls(attr, path, rules) ==
  LET a0 == Resolved(attr)
      a1 == IF a0.t = "grp" THEN a0 ELSE Resolved(Replaced(rules, path, a0))
      own == IF a0.t = "grp" \/ IsEmpty(a0) THEN <<>>
             ELSE <<[p |-> path, k |-> a0.k, j |-> a0.j]>>
  IN own \o (IF a1.t = "grp"
             THEN CallsAll(a1.a, IF a1.k = "" THEN path ELSE Append(path, a1.k), rules)
             ELSE <<>>)
CallsAll(as, path, rules) ==
  FlattenSeq([i \in DOMAIN as |-> Calls(as[i], path, rules)])

(* A logger is what its derivation path says: a sequence of steps           *)
(*    [op |-> "with", as |-> attributes] or [op |-> "group", n |-> name].   *)
RECURSIVE Derived(_, _, _, _)
Derived(steps, path, rules, rec) ==
  IF steps = <<>> THEN RenderAll(rec, path, rules)
  ELSE LET s == Head(steps)
       IN IF s.op = "with"
          THEN RenderAll(s.as, path, rules) \o Derived(Tail(steps), path, rules, rec)
          ELSE IF s.n = "" THEN Derived(Tail(steps), path, rules, rec)
          ELSE LET sub == Derived(Tail(steps), Append(path, s.n), rules, rec)
               IN IF sub = <<>> THEN <<>> ELSE <<[k |-> s.n, j |-> "{", f |-> sub]>>

PathOf(steps) ==
  LET gs == SelectSeq(steps, LAMBDA s : s.op = "group" /\ s.n # "")
  IN [i \in DOMAIN gs |-> gs[i].n]

(* Standard level names. *)
Offset(n) == IF n = 0 THEN "" ELSE IF n > 0 THEN "+" \o ToString(n) ELSE ToString(n)
LevelName(n) == IF n < 0 THEN "DEBUG" \o Offset(n + 4)
                ELSE IF n < 4 THEN "INFO" \o Offset(n)
                ELSE IF n < 8 THEN "WARN" \o Offset(n - 4)
                ELSE "ERROR" \o Offset(n - 8)

Or(s, d) == IF s = "" THEN d ELSE s

(* Basic fields of record r under configuration c. *)
Configured(c, n) ==
  LET i == SelectInSeq(c.names, LAMBDA e : e.l = n /\ e.n # "")
  IN IF i = 0 THEN LevelName(n) ELSE c.names[i].n
Basic(c, r) ==
     (IF r.time = "" THEN <<>> ELSE <<Leaf(Or(c.tk, "time"), "s:" \o r.time)>>)
  \o <<Leaf(Or(c.lk, "level"), "s:" \o Configured(c, r.level))>>
  \o <<Leaf(Or(c.mk, "msg"), "s:" \o r.msg)>>
  \o (IF c.src /\ r.pc THEN <<Leaf(Or(c.sk, "source"), "src")>> ELSE <<>>)

(* The one object a record becomes. *)
Record(c, steps, r) == RenderAll(Basic(c, r), <<>>, c.rules) \o Derived(steps, <<>>, c.rules, r.as)
RecordCalls(c, steps, r) == CallsAll(Basic(c, r), <<>>, c.rules) \o CallsAll(r.as, PathOf(steps), c.rules)

Bag(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
=============================================================================
