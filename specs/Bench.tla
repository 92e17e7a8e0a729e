------------------------------- MODULE Bench -------------------------------
(* Benchmark output, line by line.  A line is [k, h, t, v, c]:              *)
(* D data of handler h and test t with columns v; F the name c of handler h *)
(* C comment c; N anything else.                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC
RangeOf(s) == {s[i] : i \in DOMAIN s}

(* ---- machine ---- *)
(* data: set of [h, t, v], one per pair; defs: set of [h, c], one per       *)
(* handler; text: sequence of comments.                                     *)
Start == [data |-> {}, defs |-> {}, text |-> <<>>]
CONSTANT FirstWins
Step(s, l) ==
  CASE l.k = "D" -> LET old == {d \in s.data : d.h = l.h /\ d.t = l.t}
                    IN IF FirstWins /\ old # {} THEN s ELSE [s EXCEPT !.data = (@ \ old) \cup {[h |-> l.h, t |-> l.t, v |-> l.v]}]
    [] l.k = "F" -> [s EXCEPT !.defs = {d \in @ : d.h # l.h} \cup {[h |-> l.h, c |-> l.c]}]
    [] l.k = "C" -> [s EXCEPT !.text = Append(@, l.c)]
    [] OTHER -> s

(* ---- model ---- *)
CONSTANTS Depth, Emit
VARIABLES st, lines
Ln(k, h, t, v, c) == [k |-> k, h |-> h, t |-> t, v |-> v, c |-> c]
Alphabet == {Ln("D", h, t, v, "") : h \in {"ha", "hb"}, t \in {"ta", "tb"}, v \in {1, 2}}
            \cup {Ln("F", "ha", "", 0, "na"), Ln("F", "hb", "", 0, "nb"), Ln("F", "ha", "", 0, "nc"), Ln("C", "", "", 0, "x"), Ln("C", "", "", 0, ""), Ln("N", "", "", 0, "")}
Init == st = Start /\ lines = <<>>
Next == Len(lines) < Depth /\ \E l \in Alphabet : lines' = Append(lines, l) /\ st' = Step(st, l)
Spec == Init /\ [][Next]_<<st, lines>>
Later(i, P(_)) == \E j \in i + 1 .. Len(lines) : P(lines[j])
LastCounts == /\ st.data = {[h |-> lines[i].h, t |-> lines[i].t, v |-> lines[i].v] :
                              i \in {i \in DOMAIN lines : lines[i].k = "D" /\ ~Later(i, LAMBDA x : x.k = "D" /\ x.h = lines[i].h /\ x.t = lines[i].t)}}
              /\ st.text = [i \in DOMAIN SelectSeq(lines, LAMBDA l : l.k = "C") |-> SelectSeq(lines, LAMBDA l : l.k = "C")[i].c]
(* Lines of different pairs can trade places. *)
Swapped(i) == [lines EXCEPT ![i] = lines[i + 1], ![i + 1] = lines[i]]
Key(l) == <<l.k, l.h, l.t>>
OrderFree == \A i \in 1 .. Len(lines) - 1 :
               (Key(lines[i]) # Key(lines[i + 1])) => FoldLeft(Step, Start, Swapped(i)) = st
EmitLines == (Emit /\ Len(lines) = Depth) => PrintT("CASE " \o ToJson(lines))
=============================================================================
