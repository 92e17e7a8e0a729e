------------------------------ MODULE Compose ------------------------------
(* The incremental design of the two handlers: With and WithGroup append    *)
(* to a pre-rendered prefix, closing braces are kept in a suffix, and the   *)
(* trailing groups of the prefix that hold nothing yet are counted so that  *)
(* a record which adds nothing can leave them out.  TLC checks that every   *)
(* record composed this way is the declarative one of module Attrs, for     *)
(* all derivations and records over a small alphabet.                       *)
EXTENDS Attrs, Json

CONSTANTS Depth,      \* derivation steps
          Elide,      \* TRUE: the design of the code; FALSE: forget to leave out empty groups
          Emit        \* TRUE: print every behaviour for replay against the code

a1 == Leaf("a", "n:1")
b2 == Leaf("b", "n:2")
Alphabet == { a1, b2, NoAttr, Nil("z"), Leaf("", "n:3"),
              Grp("g", <<>>), Grp("g", <<a1>>), Grp("g", <<NoAttr>>), Grp("g", <<a1, Grp("h", <<b2>>)>>),
              Grp("g", <<Grp("h", <<>>), Grp("", <<>>)>>), Grp("", <<a1, b2>>),
              LV("v", Grp("", <<>>)), LV("v", LV("", Grp("", <<a1>>))), LV("", Grp("", <<b2>>)),
              LV("v", Nil("")), LV("v", Leaf("", "n:4")) }
Rule(k, any, p, act, s, as) == [k |-> k, any |-> any, p |-> p, act |-> act, s |-> s, a |-> as]
RuleSets == { <<>>,
              <<Rule("a", TRUE, <<>>, "drop", "", <<>>)>>,
              <<Rule("a", FALSE, <<"g">>, "drop", "", <<>>), Rule("b", TRUE, <<>>, "rename", "c", <<>>)>>,
              <<Rule("b", TRUE, <<>>, "value", "", <<LV("", Grp("", <<a1>>))>>)>>,
              <<Rule("*", TRUE, <<>>, "drop", "", <<>>)>> }

VARIABLES rules, steps, prefix, suffix, empties, estart, out, rec
vars == <<rules, steps, prefix, suffix, empties, estart, out, rec>>

(* Composer: a buffer of tokens and whether a separator is needed. *)
Sep(c) == IF c.started THEN [c EXCEPT !.buf = Append(@, ",")] ELSE [c EXCEPT !.started = TRUE]
Put(c, toks) == [c EXCEPT !.buf = @ \o toks]
RECURSIVE Add(_, _, _), AddAll(_, _, _)
Add(c, attr, path) ==
  LET r0 == Resolved(attr)
      r1 == IF r0.t = "grp" THEN r0 ELSE Resolved(Replaced(rules, path, r0))
  IN IF IsEmpty(r1) THEN c
     ELSE IF r1.t = "grp" /\ r1.k = "" THEN AddAll(c, r1.a, path)
     ELSE IF r1.t = "grp"
     THEN LET open  == [Put(Sep(c), <<r1.k, "{">>) EXCEPT !.started = FALSE]
              body  == AddAll(open, r1.a, Append(path, r1.k))
          IN IF body.started THEN Put(body, <<"}">>) ELSE c
     ELSE Put(Sep(c), <<r1.k, r1.j>>)
AddAll(c, as, path) == IF as = <<>> THEN c ELSE AddAll(Add(c, Head(as), path), Tail(as), path)

EndsOpen(buf) == buf # <<>> /\ Last(buf) = "{"
Composer(buf) == [buf |-> buf, started |-> buf # <<>> /\ ~EndsOpen(buf)]

Init == /\ rules \in RuleSets
        /\ steps = <<>> /\ prefix = <<>> /\ suffix = 0 /\ empties = 0 /\ estart = 0
        /\ out = <<>> /\ rec = <<>>

With(as) ==
  /\ Len(steps) < Depth
  /\ LET c == AddAll(Composer(prefix), as, PathOf(steps))
     IN /\ prefix' = c.buf
        /\ IF Len(c.buf) = Len(prefix) THEN UNCHANGED <<empties, estart>>
           ELSE empties' = 0 /\ estart' = 0
  /\ steps' = Append(steps, [op |-> "with", as |-> as, n |-> ""])
  /\ UNCHANGED <<rules, suffix>> /\ out' = <<>> /\ rec' = <<>>

Group(n) ==
  /\ Len(steps) < Depth
  /\ prefix' = Sep(Composer(prefix)).buf \o <<n, "{">>
  /\ suffix' = suffix + 1 /\ empties' = empties + 1
  /\ estart' = IF empties = 0 THEN Len(prefix) ELSE estart
  /\ steps' = Append(steps, [op |-> "group", as |-> <<>>, n |-> n])
  /\ UNCHANGED rules /\ out' = <<>> /\ rec' = <<>>

Log(as) ==
  LET basic == AddAll([buf |-> <<"{">>, started |-> FALSE], <<Leaf("m", "n:0")>>, <<>>)
      pre   == IF prefix = <<>> THEN basic
               ELSE LET s == Put(Sep(basic), prefix)
                    IN IF EndsOpen(prefix) THEN [s EXCEPT !.started = FALSE] ELSE s
      all   == AddAll(pre, as, PathOf(steps))
      void  == Elide /\ empties > 0 /\ ~all.started
      cut   == IF estart = 0 THEN basic ELSE Put(Sep(basic), SubSeq(prefix, 1, estart))
      close == IF void THEN suffix - empties ELSE suffix
      body  == IF void THEN cut ELSE all
  IN /\ out = <<>>
     /\ out' = body.buf \o [i \in 1..close |-> "}"] \o <<"}">>
     /\ rec' = as
     /\ Emit => PrintT("CASE " \o ToJson([rules |-> rules, steps |-> steps, rec |-> as]))
     /\ UNCHANGED <<rules, steps, prefix, suffix, empties, estart>>

Next == \/ \E x \in Alphabet : With(<<x>>)
        \/ With(<<NoAttr, a1>>)
        \/ Group("g") \/ Group("k")
        \/ \E x \in Alphabet : Log(<<x>>)
        \/ Log(<<>>) \/ Log(<<Grp("g", <<>>), a1, b2>>)
Spec == Init /\ [][Next]_vars

(* Tokens of a rendered object. *)
RECURSIVE Flat(_)
Flat(fs) == FlattenSeq([i \in DOMAIN fs |->
              (IF i = 1 THEN <<>> ELSE <<",">>) \o
              (IF fs[i].j = "{" THEN <<fs[i].k, "{">> \o Flat(fs[i].f) \o <<"}">> ELSE <<fs[i].k, fs[i].j>>)])
Expected == <<"{">> \o Flat(RenderAll(<<Leaf("m", "n:0")>>, <<>>, rules) \o Derived(steps, <<>>, rules, rec)) \o <<"}">>

Refines == out # <<>> => out = Expected
=============================================================================
