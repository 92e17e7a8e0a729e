------------------------------ MODULE Tabular -------------------------------
(* Printing of loaded data: a table per test with a row per handler that has *)
(* data for it, then the warnings of each handler.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS Tests, Handlers, Warns, Variant, Emit
(* Variant: "right"; "stale" a missing record leaves the one before in place;  *)
(* "all" rows without data are printed; "index" rows are named by position;  *)
(* "ran" only handlers that ran a test have their warnings listed.           *)
VARIABLES data, warns, test, handler, last, out
vars == <<data, warns, test, handler, last, out>>
(* data: which handlers have data for which tests; the value of a pair is    *)
(* the pair. warns: which handlers have which warnings.                      *)
Init == /\ data = {} /\ warns = {} /\ test = 0 /\ handler = 0 /\ last = <<0, 0>> /\ out = <<>>
Load == /\ test = 0
        /\ \E d \in SUBSET ((1 .. Tests) \X (1 .. Handlers)), w \in SUBSET ((1 .. Handlers) \X (1 .. Warns)) : data' = d /\ warns' = w
        /\ test' = 1 /\ UNCHANGED <<handler, last, out>>
Of(t) == {h \in 1 .. Handlers : <<t, h>> \in data}
Ran == {h \in 1 .. Handlers : \E t \in 1 .. Tests : <<t, h>> \in data}
Put(x) == out' = Append(out, x)
Title == /\ test \in 1 .. Tests /\ handler = 0
         /\ handler' = 1
         /\ IF Of(test) = {} THEN out' = out ELSE Put([k |-> "table", t |-> test, h |-> 0, v |-> <<0, 0>>, w |-> 0])
         /\ UNCHANGED <<data, warns, test, last>>
Row == /\ test \in 1 .. Tests /\ handler \in 1 .. Handlers
       /\ LET has == handler \in Of(test)
              v == IF has THEN <<test, handler>> ELSE IF Variant = "stale" THEN last ELSE <<0, 0>>
              show == (has \/ (Variant = "all" /\ handler \in Ran) \/ (Variant = "stale" /\ last # <<0, 0>>)) /\ Of(test) # {}
              name == IF Variant = "index" THEN Cardinality({h \in Of(test) : h <= handler}) ELSE handler
          IN /\ IF show THEN Put([k |-> "row", t |-> test, h |-> name, v |-> v, w |-> 0]) ELSE out' = out
             /\ last' = v
       /\ handler' = handler + 1 /\ UNCHANGED <<data, warns, test>>
After == /\ test \in 1 .. Tests /\ handler > Handlers /\ test' = test + 1
         /\ handler' = IF test = Tests THEN 1 ELSE 0
         /\ UNCHANGED <<data, warns, last, out>>
Mine(h) == {w \in 1 .. Warns : <<h, w>> \in warns}
Block == /\ test = Tests + 1 /\ handler \in 1 .. Handlers
         /\ IF Mine(handler) = {} \/ (Variant = "ran" /\ handler \notin Ran) THEN out' = out
            ELSE out' = out \o <<[k |-> "block", t |-> 0, h |-> handler, v |-> <<0, 0>>, w |-> 0]>>
                            \o [i \in 1 .. Cardinality(Mine(handler)) |-> [k |-> "warning", t |-> 0, h |-> handler, v |-> <<0, 0>>, w |-> SetToSortSeq(Mine(handler), <)[i]]]
         /\ handler' = handler + 1 /\ UNCHANGED <<data, warns, test, last>>
Next == Load \/ Title \/ Row \/ After \/ Block
Spec == Init /\ [][Next]_vars
Done == test = Tests + 1 /\ handler > Handlers

Sel(k) == SelectSeq(out, LAMBDA x : x.k = k)
Once(s, S) == Len(s) = Cardinality(S) /\ {s[i] : i \in DOMAIN s} = S
Complete == Done =>
  /\ Once([i \in DOMAIN Sel("row") |-> <<Sel("row")[i].t, Sel("row")[i].h, Sel("row")[i].v>>], {<<d[1], d[2], d>> : d \in data})
  /\ Once([i \in DOMAIN Sel("table") |-> Sel("table")[i].t], {d[1] : d \in data})
  /\ Once([i \in DOMAIN Sel("block") |-> Sel("block")[i].h], {w[1] : w \in warns})
  /\ Once([i \in DOMAIN Sel("warning") |-> <<Sel("warning")[i].h, Sel("warning")[i].w>>], warns)
(* Rows follow the title of their table, in order; warnings their handler. *)
InPlace == \A i \in DOMAIN out :
  /\ out[i].k = "row" => /\ i > 1 /\ out[i - 1].k \in {"table", "row"} /\ out[i - 1].t = out[i].t
                         /\ out[i - 1].k = "row" => out[i - 1].h < out[i].h
  /\ out[i].k = "warning" => i > 1 /\ out[i - 1].k \in {"block", "warning"} /\ out[i - 1].h = out[i].h
EmitShape == (Emit /\ Done) => PrintT("CASE " \o ToJson([data |-> SetToSortSeq(data, LAMBDA a, b : a[1] * 9 + a[2] < b[1] * 9 + b[2]),
                                                         warns |-> SetToSortSeq(warns, LAMBDA a, b : a[1] * 9 + a[2] < b[1] * 9 + b[2])]))
=============================================================================
