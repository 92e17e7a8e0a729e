------------------------------- MODULE Scores -------------------------------
(* Benchmark scores. A record has a value for each measure, lower is better. *)
(* Scores are fractions <<numerator, denominator>>, None without parts.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS Handlers, Tests, Measures, MaxV, MaxW, EqualCounts, Inverted, Emit
VARIABLES rec,   (* handler -> test -> measure -> value, Absent if not run *)
          weight, sel, before
vars == <<rec, weight, sel, before>>
None == <<0, 0>>
Add(x, y) == <<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>
Times(x, n) == <<x[1] * n, x[2]>>
Over(x, n) == <<x[1], x[2] * n>>
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Same(x, y) == x[1] * y[2] = y[1] * x[2]
Hundred == <<100, 1>>

(* Weighted average of parts: sequence of <<fraction, weight>>. *)
Total(parts) == FoldLeft(LAMBDA n, p : n + p[2], 0, parts)
Average(parts) == IF Total(parts) = 0 THEN None
                  ELSE Over(FoldLeft(LAMBDA x, p : Add(x, Times(p[1], p[2])), <<0, 1>>, parts), Total(parts))

Ran(r, t) == {h \in DOMAIN r : t \in DOMAIN r[h]}
Values(r, t, m) == {r[h][t][m] : h \in Ran(r, t)}
Length(r, t, m) == IF Values(r, t, m) = {} THEN 0 ELSE Max(Values(r, t, m)) - Min(Values(r, t, m))
Counts(r, t, m) == Length(r, t, m) > 0 \/ EqualCounts
Ranged(r, h, t, m) == IF Length(r, t, m) = 0 THEN <<0, 1>>
                      ELSE IF Inverted THEN <<100 * (r[h][t][m] - Min(Values(r, t, m))), Length(r, t, m)>>
                      ELSE <<100 * (Max(Values(r, t, m)) - r[h][t][m]), Length(r, t, m)>>
MSeq == SetToSeq(Measures)
TSeq == SetToSeq(Tests)
TestParts(r, w, h, t) == LET ms == SelectSeq(MSeq, LAMBDA m : Counts(r, t, m))
                         IN [i \in DOMAIN ms |-> <<Ranged(r, h, t, ms[i]), w[ms[i]]>>]
TestScore(r, w, h, t) == Average(TestParts(r, w, h, t))
Selected(r, s, h) == SelectSeq(TSeq, LAMBDA t : t \in s /\ t \in DOMAIN r[h])
ByTest(r, w, s, h) == LET ts == SelectSeq(Selected(r, s, h), LAMBDA t : TestScore(r, w, h, t) # None)
                      IN Average([i \in DOMAIN ts |-> <<TestScore(r, w, h, ts[i]), 1>>])
Measure(r, s, h, m) == LET ts == SelectSeq(Selected(r, s, h), LAMBDA t : Counts(r, t, m))
                       IN Average([i \in DOMAIN ts |-> <<Ranged(r, h, ts[i], m), 1>>])
ByData(r, w, s, h) == LET ms == SelectSeq(MSeq, LAMBDA m : Measure(r, s, h, m) # None)
                      IN Average([i \in DOMAIN ms |-> <<Measure(r, s, h, ms[i]), w[ms[i]]>>])
Overall(r, w, s, h) == IF ByTest(r, w, s, h) = None THEN None ELSE Average(<< <<ByTest(r, w, s, h), 1>>, <<ByData(r, w, s, h), 1>> >>)

(* ---- model: any data and weights, then one measure of one handler gets worse ---- *)
Pending == <<>>
Init == /\ rec \in [Handlers -> UNION {[S -> [Measures -> 0 .. MaxV]] : S \in SUBSET Tests}]
        /\ weight = Pending /\ sel = {} /\ before = <<>>
Configure == /\ weight = Pending
             /\ weight' \in [Measures -> 0 .. MaxW] /\ sel' \in SUBSET Tests
             /\ UNCHANGED <<rec, before>>
Worsen == /\ weight # Pending /\ before = <<>>
          /\ \E h \in Handlers : \E t \in DOMAIN rec[h] : \E m \in Measures :
               /\ rec[h][t][m] < MaxV
               /\ before' = <<[h |-> h, rec |-> rec]>>
               /\ rec' = [rec EXCEPT ![h][t][m] = @ + 1]
          /\ UNCHANGED <<weight, sel>>
Next == Configure \/ Worsen
Spec == Init /\ [][Next]_vars
Best(h, t) == \A m \in Measures : weight[m] > 0 => rec[h][t][m] = Min(Values(rec, t, m))
Worst(h, t) == \A m \in Measures : weight[m] > 0 => rec[h][t][m] = Max(Values(rec, t, m))
Within(x) == x # None => Leq(<<0, 1>>, x) /\ Leq(x, Hundred)
Ready == weight # Pending
Bounded == Ready => \A h \in Handlers : /\ \A t \in DOMAIN rec[h] : Within(TestScore(rec, weight, h, t))
                               /\ Within(ByTest(rec, weight, sel, h)) /\ Within(ByData(rec, weight, sel, h)) /\ Within(Overall(rec, weight, sel, h))
Extremes == Ready => \A h \in Handlers : \A t \in DOMAIN rec[h] :
              LET x == TestScore(rec, weight, h, t)
              IN x # None => /\ Best(h, t) => Same(x, Hundred)
                             /\ Worst(h, t) => Same(x, <<0, 1>>)
(* A test has a score unless all handlers are equal. *)
Scored == Ready => \A h \in Handlers : \A t \in DOMAIN rec[h] :
            TestScore(rec, weight, h, t) = None <=> \A m \in Measures : weight[m] = 0 \/ Length(rec, t, m) = 0
NotBetter(x, y) == (x # None /\ y # None) => Leq(x, y)
Monotone == before # <<>> =>
              /\ \A t \in DOMAIN rec[before[1].h] : NotBetter(TestScore(rec, weight, before[1].h, t), TestScore(before[1].rec, weight, before[1].h, t))
              /\ NotBetter(Overall(rec, weight, sel, before[1].h), Overall(before[1].rec, weight, sel, before[1].h))
(* Tests outside of the selection have no influence. *)
Chosen(r) == [h \in DOMAIN r |-> [t \in DOMAIN r[h] \cap sel |-> r[h][t]]]
Selective == (Ready /\ before = <<>>) => \A h \in Handlers : Overall(rec, weight, sel, h) = Overall(Chosen(rec), weight, sel, h)
EmitCase == (Emit /\ Ready /\ before = <<>>) => PrintT("CASE " \o ToJson([rec |-> rec, weight |-> weight, sel |-> sel]))
=============================================================================
