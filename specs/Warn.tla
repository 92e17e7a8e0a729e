------------------------------- MODULE Warn --------------------------------
(* The warning manager: a log of additions, a set of warn-only names and a  *)
(* set of predefined names.  Reports are computed from the log alone.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC

(* ---- names in Go's string order (names are ASCII letters and digits) ---- *)
Order == "-/0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
RECURSIVE Place(_, _)
Place(c, i) == IF SubSeq(Order, i, i) = c THEN i ELSE Place(c, i + 1)
RECURSIVE Less(_, _)
Less(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
              ELSE LET x == SubSeq(a, 1, 1) y == SubSeq(b, 1, 1)
                   IN IF x = y THEN Less(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))) ELSE Place(x, 1) < Place(y, 1)

RECURSIVE Chomp(_)
Chomp(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = "\n" THEN Chomp(SubSeq(s, 1, Len(s) - 1)) ELSE s
RangeOf(s) == {s[i] : i \in DOMAIN s}

(* ---- the manager ---- *)
(* C: sequence of [name, level, summary] of all warnings there are.         *)
Of(C, name) == C[CHOOSE i \in DOMAIN C : C[i].name = name]
Summary(C, name) == Of(C, name).summary
Entry(w, fn, text, rec) == [w |-> w, fn |-> fn, text |-> text, rec |-> Chomp(rec)]
Skips(C, log, w, fn) == log \o <<Entry("SkippingTest", fn, Summary(C, w), ""), Entry(w, fn, "Skipping test", "")>>
FirstOf(ws, only) == SelectInSeq(ws, LAMBDA w : w \in only)
(* State and operation to state. *)
Step(C, s, o) ==
  CASE o.op = "predefine" -> [s EXCEPT !.def = @ \cup RangeOf(o.ws)]
    [] o.op = "warnonly"  -> [s EXCEPT !.only = @ \cup {o.w},
                                       !.log = IF o.w \in s.def THEN @ ELSE Append(@, Entry("Undefined", o.fn, Summary(C, o.w), ""))]
    [] o.op = "unused"    -> [s EXCEPT !.log = Append(@, Entry("Unused", o.fn, o.w, o.rec))]
    [] o.op = "add"       -> [s EXCEPT !.log = Append(@, Entry(o.w, o.fn, o.text, o.rec))]
    [] o.op = "skip"      -> [s EXCEPT !.log = Skips(C, @, o.w, o.fn)]
    [] o.op = "skipif"    -> IF FirstOf(o.ws, s.only) = 0 THEN s ELSE [s EXCEPT !.log = Skips(C, @, o.ws[FirstOf(o.ws, s.only)], o.fn)]
    [] OTHER              -> s

(* ---- what is reported ---- *)
Occurs(log, w) == \E i \in DOMAIN log : log[i].w = w
CONSTANT Eager  (* faulty: notices of unused warnings are judged when they are added *)
Kept(log) == IF Eager THEN log ELSE SelectSeq(log, LAMBDA e : ~(e.w = "Unused" /\ Occurs(log, e.text)))
Sooner(C, a, b) == \/ Of(C, a).level > Of(C, b).level
                   \/ Of(C, a).level = Of(C, b).level /\ Less(a, b)
Report(C, log) ==
  LET k == Kept(log)
      names == SetToSortSeq({k[i].w : i \in DOMAIN k}, LAMBDA a, b : Sooner(C, a, b))
  IN [i \in DOMAIN names |->
        LET d == SelectSeq(k, LAMBDA e : e.w = names[i])
        IN [name |-> names[i], level |-> Of(C, names[i]).level, summary |-> Summary(C, names[i]), count |-> Len(d),
            data |-> [j \in DOMAIN d |-> [fn |-> d[j].fn, text |-> d[j].text, rec |-> d[j].rec]]]]

(* ---- model: every short history of one manager ---- *)
CONSTANTS Depth, Emit
VARIABLES st, hist
Cat == <<[name |-> "SkippingTest", level |-> 1, summary |-> "Skipping test"], [name |-> "Undefined", level |-> 1, summary |-> "Undefined Warnings(s)"],
         [name |-> "Unused", level |-> 1, summary |-> "Unused Warnings(s)"], [name |-> "ZzAlpha", level |-> 2, summary |-> "First warning"],
         [name |-> "ZzBeta", level |-> 4, summary |-> "Second warning"]>>
Op(op, w, ws) == [op |-> op, m |-> 1, w |-> w, ws |-> ws, fn |-> "TestAlpha", text |-> "", rec |-> ""]
Ops == {Op("predefine", "", <<"ZzAlpha", "ZzBeta">>), Op("get", "", <<>>), Op("skipif", "", <<"ZzAlpha", "ZzBeta">>)}
       \cup {Op(x, w, <<>>) : x \in {"warnonly", "unused", "add", "skip"}, w \in {"ZzAlpha", "ZzBeta"}}
Empty == [log |-> <<>>, only |-> {}, def |-> {"SkippingTest", "Undefined", "Unused"}]
Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ hist' = Append(hist, o)
                          /\ st' = IF Eager /\ o.op = "unused" /\ Occurs(st.log, o.w) THEN st ELSE Step(Cat, st, o)
Spec == Init /\ [][Next]_<<st, hist>>
(* Declarative account of the same reports. *)
Listed == RangeOf(Report(Cat, st.log))
Adds(w) == Cardinality({i \in DOMAIN hist : hist[i].op \in {"add", "skip"} /\ hist[i].w = w})
           + Cardinality({i \in DOMAIN hist : hist[i].op = "skipif" /\ (\E j \in 1 .. i - 1 : hist[j].op = "warnonly" /\ hist[j].w = w)
                                              /\ (w = "ZzAlpha" \/ ~\E j \in 1 .. i - 1 : hist[j].op = "warnonly" /\ hist[j].w = "ZzAlpha")})
Unus(w) == Cardinality({i \in DOMAIN hist : hist[i].op = "unused" /\ hist[i].w = w})
Counted == \A w \in {"ZzAlpha", "ZzBeta"} :
             LET r == {x \in Listed : x.name = w}
                 u == {x \in Listed : x.name = "Unused"}
             IN /\ IF Adds(w) = 0 THEN r = {} ELSE \E x \in r : x.count = Adds(w)
                /\ LET n == IF u = {} THEN 0 ELSE LET x == CHOOSE x \in u : TRUE IN Cardinality({i \in DOMAIN x.data : x.data[i].text = w})
                   IN n = IF Adds(w) > 0 THEN 0 ELSE Unus(w)
Ordered == LET r == Report(Cat, st.log) IN \A i \in 1 .. Len(r) - 1 : r[i].level >= r[i + 1].level /\ (r[i].level = r[i + 1].level => Less(r[i].name, r[i + 1].name))
EmitHist == (Emit /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson(hist))
=============================================================================
