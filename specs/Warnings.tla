----------------------------- MODULE Warnings ------------------------------
(* Reading warning reports: a machine driven by lines.                      *)
(* A line is [k, a, b]: H handler name; none; L level; W warning name and   *)
(* summary; I function and text; X further text; R log record; S handler    *)
(* summary; N something else; E end of reports; F end of a source (a names  *)
(* the next source).                                                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC

From(s, i) == SubSeq(s, i, Len(s))
Starts(s, lit) == Len(s) >= Len(lit) /\ SubSeq(s, 1, Len(lit)) = lit
RECURSIVE Bare(_)
(* Test name without the prefixes of test functions. *)
Bare(f) == IF Starts(f, "Benchmark_") THEN Bare(From(f, 11)) ELSE IF Starts(f, "Benchmark") THEN Bare(From(f, 10))
           ELSE IF Starts(f, "Test_") THEN Bare(From(f, 6)) ELSE IF Starts(f, "Test") THEN Bare(From(f, 5)) ELSE f
NoInst == [fn |-> "", text |-> "", rec |-> "", on |-> FALSE]
Begin(src) == [src |-> src, h |-> "", level |-> 0, w |-> "", inst |-> NoInst, over |-> FALSE]
(* s = [m |-> machine, got |-> sequence of instances, hs |-> handlers,      *)
(*      sum |-> set of <<handler, level, warning, summary>>, says |-> handler summaries].  *)
Start(src) == [m |-> Begin(src), got |-> <<>>, hs |-> {}, sum |-> {}, says |-> <<>>]
Flush(s) == LET m == s.m
            IN [s EXCEPT !.m.inst = NoInst,
                  !.got = IF m.inst.on /\ m.w # ""
                          THEN Append(@, [h |-> m.h, level |-> m.level, w |-> m.w, src |-> m.src, fn |-> Bare(m.inst.fn), text |-> m.inst.text, rec |-> m.inst.rec])
                          ELSE @]
CONSTANTS NoneErases, KeepWarning
Step(s, l, Tag(_)) ==
  IF l.k = "F" THEN LET f == Flush(s) IN [f EXCEPT !.m = Begin(l.a)]
  ELSE IF s.m.over THEN s
  ELSE IF l.k = "S" THEN [s EXCEPT !.says = Append(@, l)]
  ELSE IF l.k = "H" THEN LET f == Flush(s) IN [f EXCEPT !.m.h = Tag(l.a), !.m.level = 0, !.m.w = IF KeepWarning THEN @ ELSE ""]
  ELSE IF l.k = "E" THEN LET f == Flush(s) IN [f EXCEPT !.m.over = TRUE]
  ELSE IF s.m.h = "" THEN s
  ELSE CASE l.k = "none" -> LET f == Flush(s)
                            IN IF NoneErases THEN [f EXCEPT !.hs = @ \cup {s.m.h}, !.got = SelectSeq(@, LAMBDA x : x.h # s.m.h)]
                               ELSE [f EXCEPT !.hs = @ \cup {s.m.h}]
         [] l.k = "L" -> LET f == Flush(s) IN [f EXCEPT !.m.level = l.a, !.m.w = ""]
         [] l.k = "W" -> LET f == Flush(s) IN [f EXCEPT !.m.w = l.a, !.hs = @ \cup {s.m.h},
                              !.sum = {x \in @ : <<x[1], x[2], x[3]>> # <<s.m.h, s.m.level, l.a>>} \cup {<<s.m.h, s.m.level, l.a, l.b>>}]
         [] l.k = "I" -> LET f == Flush(s) IN [f EXCEPT !.m.inst = [fn |-> l.a, text |-> l.b, rec |-> "", on |-> TRUE]]
         [] l.k = "X" -> IF ~s.m.inst.on THEN s
                         ELSE IF s.m.inst.rec # "" THEN [s EXCEPT !.m.inst.rec = @ \o "\n" \o l.a]
                         ELSE [s EXCEPT !.m.inst.text = @ \o "\n" \o l.a]
         [] l.k = "R" -> IF s.m.inst.on THEN [s EXCEPT !.m.inst.rec = l.a] ELSE s
         [] OTHER -> s

(* ---- the views ---- *)
RangeOf(s) == {s[i] : i \in DOMAIN s}
Test(x) == IF x.src = "" THEN x.fn ELSE x.src \o "." \o x.fn
Times(s, P(_)) == Len(SelectSeq(s, P))
Count(got, h, w) == Times(got, LAMBDA x : x.h = h /\ x.w = w)

(* ---- model: any lines in any order ---- *)
CONSTANTS Depth, Emit
VARIABLES st, lines
Ln(k, a, b) == [k |-> k, a |-> a, b |-> b]
Alphabet == {Ln("H", "ha", ""), Ln("H", "hb", ""), Ln("none", "", ""), Ln("L", 4, ""), Ln("L", 2, ""), Ln("W", "W1", "sum"), Ln("W", "W2", ""),
             Ln("I", "TestA", "x"), Ln("I", "BenchmarkTestB", ""), Ln("X", "more", ""), Ln("R", "{}", ""), Ln("S", "ha", ""), Ln("N", "", ""),
             Ln("E", "", ""), Ln("F", "Verify", "")}
Init == st = Start("Bench") /\ lines = <<>>
(* A warning belongs to a level of its report. *)
Legal(l) == l.k = "W" => st.m.level # 0 \/ st.m.h = ""
Next == /\ Len(lines) < Depth
        /\ \E l \in Alphabet : /\ Legal(l)
                               /\ lines' = Append(lines, l) /\ st' = Step(st, l, LAMBDA x : x)
Spec == Init /\ [][Next]_<<st, lines>>
(* Declarative account: the instance line at i is reported if the nearest   *)
(* warning line before it isn't cut off from it.                            *)
Prior(i, K) == {j \in 1 .. i - 1 : lines[j].k \in K}
Latest(S) == CHOOSE j \in S : \A x \in S : x <= j
Heard(i) == LET f == Prior(i, {"F"})
                e == {j \in Prior(i, {"E"}) : f = {} \/ j > Latest(f)}
                h == {j \in Prior(i, {"H"}) : f = {} \/ j > Latest(f)}
            IN e = {} /\ h # {}
Open(i) == LET w == Prior(i, {"W"}) c == Prior(i, {"H", "L", "F", "E"})
           IN w # {} /\ (c = {} \/ Latest(c) < Latest(w)) /\ Heard(i)
Reported == {i \in DOMAIN lines : lines[i].k = "I" /\ Open(i)}
All == IF st.m.inst.on THEN Flush(st).got ELSE st.got
NothingLost == /\ Len(All) = Cardinality(Reported)
               /\ \A i \in Reported : LET h == lines[Latest(Prior(i, {"H"}))].a
                                          w == lines[Latest(Prior(i, {"W"}))].a
                                      IN \E x \in RangeOf(All) : x.h = h /\ x.w = w /\ x.fn = Bare(lines[i].a)
EmitLines == (Emit /\ Len(lines) = Depth) => PrintT("CASE " \o ToJson(lines))
=============================================================================
