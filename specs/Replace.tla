------------------------------ MODULE Replace ------------------------------
(* The functions of package replace.  Texts are sequences of code points;   *)
(* an attribute is [k |-> key, t |-> kind, s |-> text of the value].        *)
(* A function is [f |-> "case"|"key"|"value"|"remove"|"multi"|"same",       *)
(*   key, ci |-> ignore case, chk |-> "nil"|"top"|"cur", g |-> group,       *)
(*   arg |-> new key, value or letter case, fs |-> functions].              *)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

(* Letters beyond ASCII that the check uses. *)
Special == [x \in {233, 201, 1076, 1044, 963, 931, 962, 8490, 383, 229, 197, 8491} |->
  CASE x \in {233, 201} -> <<233, 201, 233>> [] x \in {1076, 1044} -> <<1076, 1044, 1076>>
    [] x \in {963, 931} -> <<963, 931, 963>> [] x = 962 -> <<962, 931, 963>>
    [] x = 8490 -> <<107, 8490, 107>> [] x = 383 -> <<383, 83, 115>>
    [] x \in {229, 197} -> <<229, 197, 229>> [] x = 8491 -> <<229, 8491, 229>>]
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE IF c \in DOMAIN Special THEN Special[c][1] ELSE c
UpperC(c) == IF c \in 97..122 THEN c - 32 ELSE IF c \in DOMAIN Special THEN Special[c][2] ELSE c
FoldC(c)  == IF c \in 65..90 THEN c + 32 ELSE IF c \in DOMAIN Special THEN Special[c][3] ELSE c
Map(op(_), s) == [i \in DOMAIN s |-> op(s[i])]
Lower(s) == Map(LowerC, s)
Upper(s) == Map(UpperC, s)
SameFold(s, u) == Map(FoldC, s) = Map(FoldC, u)

Empty == [k |-> <<>>, t |-> "nil", s |-> <<>>]
Shown(a) == IF a.t = "nil" THEN <<60, 110, 105, 108, 62>> ELSE a.s
KeyMatches(f, a) == IF f.ci THEN SameFold(f.key, a.k) ELSE f.key = a.k
GroupOK(f, gs) == CASE f.chk = "nil" -> TRUE
                    [] f.chk = "top" -> gs = <<>>
                    [] f.chk = "cur" -> gs # <<>> /\ gs[Len(gs)] = f.g
Touches(f, gs, a) == KeyMatches(f, a) /\ GroupOK(f, gs)

CONSTANTS Depth, KeepGoing, Emit
RECURSIVE Apply(_, _, _)
Apply(f, gs, a) ==
  CASE f.f = "multi" ->
         FoldLeft(LAMBDA acc, g : IF acc = Empty /\ ~KeepGoing THEN acc ELSE Apply(g, gs, acc), a, f.fs)
    [] f.f = "same" -> a
    [] ~Touches(f, gs, a) -> a
    [] f.f = "key" -> [a EXCEPT !.k = f.arg.s]
    [] f.f = "value" -> [a EXCEPT !.t = f.arg.t, !.s = f.arg.s]
    [] f.f = "case" -> CASE f.arg.t = "lower" -> [a EXCEPT !.t = "str", !.s = Lower(Shown(a))]
                         [] f.arg.t = "upper" -> [a EXCEPT !.t = "str", !.s = Upper(Shown(a))]
                         [] OTHER -> a
    [] f.f = "remove" -> Empty

(* ---- model: one function applied to an attribute, function by function *)
T(c) == <<c>>
Fn(f, key, ci, chk, g, t, s) == [f |-> f, key |-> key, ci |-> ci, chk |-> chk, g |-> g, arg |-> [t |-> t, s |-> s], fs |-> <<>>]
Basic == {Fn("key", T(97), FALSE, "nil", <<>>, "str", T(98)), Fn("key", T(98), FALSE, "top", <<>>, "str", T(97)),
          Fn("key", T(65), TRUE, "cur", T(103), "str", <<>>), Fn("key", <<>>, FALSE, "nil", <<>>, "str", T(98)),
          Fn("value", T(98), FALSE, "nil", <<>>, "int", T(55)), Fn("value", T(66), TRUE, "top", <<>>, "nil", <<>>),
          Fn("case", T(97), TRUE, "nil", <<>>, "lower", <<>>), Fn("case", T(98), FALSE, "cur", T(103), "upper", <<>>),
          Fn("remove", T(97), FALSE, "top", <<>>, "str", <<>>), Fn("remove", T(66), TRUE, "nil", <<>>, "str", <<>>)}
VARIABLES chain, gs, attr, cur, i, gone
vars == <<chain, gs, attr, cur, i, gone>>
Init == /\ chain = <<>> /\ i = 0 /\ gone = FALSE
        /\ gs \in {<<>>, <<T(103)>>, <<T(104), T(103)>>, <<T(103), T(104)>>}
        /\ attr \in {[k |-> k, t |-> t, s |-> <<77, 120>>] : k \in {T(97), T(65), T(98), <<>>}, t \in {"str", "err"}}
        /\ cur = attr
Extend(f) == /\ Len(chain) < Depth
             /\ chain' = Append(chain, f)
             /\ i' = i + 1
             /\ cur' = IF gone /\ ~KeepGoing THEN cur ELSE Apply(f, gs, cur)
             /\ gone' = (gone \/ cur' = Empty)
             /\ UNCHANGED <<gs, attr>>
Next == \E f \in Basic : Extend(f)
Spec == Init /\ [][Next]_vars
Multi == [f |-> "multi", key |-> <<>>, ci |-> FALSE, chk |-> "nil", g |-> <<>>, arg |-> [t |-> "", s |-> <<>>], fs |-> chain]
(* The chain is the composition, nothing comes back once it is removed, and *)
(* an attribute no function names stays as it is.                           *)
Composition == Apply(Multi, gs, attr) = cur
StaysRemoved == gone => cur = Empty
Untouched == (\A j \in DOMAIN chain : ~Touches(chain[j], gs, attr)) => cur = attr
(* Nesting chains makes no difference. *)
Nested == \A n \in 0..Len(chain) :
            Apply([Multi EXCEPT !.fs = <<[Multi EXCEPT !.fs = SubSeq(chain, 1, n)], [Multi EXCEPT !.fs = SubSeq(chain, n + 1, Len(chain))]>>], gs, attr) = cur
EmitCase == (Emit /\ Len(chain) = Depth) => PrintT("CASE " \o ToJson([fs |-> chain, gs |-> gs, a |-> attr]))
=============================================================================
