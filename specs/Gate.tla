-------------------------------- MODULE Gate --------------------------------
(* Level gating: loggers derived at different times, a level that may be    *)
(* fixed, unset or a variable, records of every level.  A record comes out  *)
(* exactly when its level reaches the level configured at that moment.      *)
(* The second variant remembers the level when a logger is derived.         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Kind,     \* Kind: "none", "fixed" or "var"
          Frozen, Emit
Levels == {-5, -4, 0, 3, 8}
Set == {-8, -1, 4, 9}

VARIABLES level, seen, emitted, hist
vars == <<level, seen, emitted, hist>>
Init == /\ level \in (IF Kind = "fixed" THEN {-4, 2, 4, 9} ELSE {0})
        /\ seen = <<level>> /\ emitted = TRUE
        /\ hist = << [op |-> "init", l |-> 0, v |-> level] >>
Threshold(l) == IF Frozen THEN seen[l] ELSE level
More == Len(hist) <= Depth
Derive(l) == /\ More /\ seen' = Append(seen, level)
             /\ hist' = Append(hist, [op |-> "derive", l |-> l, v |-> 0])
             /\ UNCHANGED <<level, emitted>>
Change(v) == /\ More /\ Kind = "var" /\ level' = v
             /\ hist' = Append(hist, [op |-> "level", l |-> 0, v |-> v])
             /\ UNCHANGED <<seen, emitted>>
Log(l, n) == /\ More
             /\ hist' = Append(hist, [op |-> "log", l |-> l, v |-> n])
             /\ emitted' = (n >= Threshold(l))
             /\ UNCHANGED <<level, seen>>
Next == \/ \E l \in DOMAIN seen : Derive(l) \/ (\E n \in Levels : Log(l, n))
        \/ \E v \in Set : Change(v)
Spec == Init /\ [][Next]_vars
Follows == hist # <<>> /\ hist[Len(hist)].op = "log" => emitted = (hist[Len(hist)].v >= level)
EmitHist == (Emit /\ Len(hist) = Depth + 1) => PrintT("CASE " \o ToJson(hist))
=============================================================================
