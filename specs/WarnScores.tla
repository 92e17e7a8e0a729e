----------------------------- MODULE WarnScores -----------------------------
(* Warning scores: for each level the share of the warnings reported for any *)
(* handler that a handler avoids, averaged with the weights of the levels.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS Handlers, Levels, Names, MaxW, CountsRepeats, Emit
VARIABLES got,   (* set of <<handler, level, name, instances>> *)
          weight, before
vars == <<got, weight, before>>
Known(g, l) == {x[3] : x \in {y \in g : y[2] = l}}
Had(g, h, l) == {x[3] : x \in {y \in g : y[1] = h /\ y[2] = l}}
Number(g, h, l) == IF CountsRepeats THEN FoldSet(LAMBDA x, n : n + x[4], 0, {y \in g : y[1] = h /\ y[2] = l}) ELSE Cardinality(Had(g, h, l))
Sum(w) == FoldFunction(LAMBDA a, b : a + b, 0, w)
(* 12 * 100 * share avoided, for at most four warnings of a level. *)
Part(g, h, l) == IF Had(g, h, l) = {} THEN 1200 ELSE (1200 * (Cardinality(Known(g, l)) - Number(g, h, l))) \div Cardinality(Known(g, l))
(* Score times the sum of weights. *)
LS == SetToSeq(Levels)
Score(g, w, h) == FoldLeft(LAMBDA n, l : n + w[l] * Part(g, h, l), 0, LS)
Full(w) == 1200 * FoldLeft(LAMBDA n, l : n + w[l], 0, LS)

Init == /\ got \in SUBSET {<<h, l, n, c>> : h \in Handlers, l \in Levels, n \in Names, c \in {1}}
        /\ weight \in [Levels -> 0 .. MaxW]
        /\ before = <<>>
Next == /\ before = <<>>
        /\ \/ \E x \in got : before' = <<[h |-> x[1], kind |-> "repeat", got |-> got, l |-> x[2]]>>
                             /\ got' = (got \ {x}) \cup {<<x[1], x[2], x[3], x[4] + 1>>}
           \/ \E h \in Handlers, l \in Levels : \E n \in Known(got, l) \ Had(got, h, l) :
                before' = <<[h |-> h, kind |-> "more", got |-> got, l |-> l]>> /\ got' = got \cup {<<h, l, n, 1>>}
        /\ UNCHANGED weight
Spec == Init /\ [][Next]_vars
Bounded == \A h \in Handlers : Score(got, weight, h) \in 0 .. Full(weight)
HundredIff == \A h \in Handlers : Score(got, weight, h) = Full(weight) <=> \A l \in Levels : weight[l] = 0 \/ Had(got, h, l) = {}
Repeats == (before # <<>> /\ before[1].kind = "repeat") => \A h \in Handlers : Score(got, weight, h) = Score(before[1].got, weight, h)
Falls == (before # <<>> /\ before[1].kind = "more") =>
           /\ Score(before[1].got, weight, before[1].h) - Score(got, weight, before[1].h) = weight[before[1].l] * (1200 \div Cardinality(Known(got, before[1].l)))
           /\ \A h \in Handlers \ {before[1].h} : Score(got, weight, h) = Score(before[1].got, weight, h)
Alike == \A h, k \in Handlers : (\A l \in Levels : Had(got, h, l) = Had(got, k, l)) => Score(got, weight, h) = Score(got, weight, k)
EmitCase == (Emit /\ before = <<>>) => PrintT("CASE " \o ToJson([got |-> SetToSeq(got), weight |-> weight]))
=============================================================================
