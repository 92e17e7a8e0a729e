------------------------------ MODULE Keepers -------------------------------
(* Filters of nested groups and the registry of keepers with its cached list. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS Depth, StaleCache, Replaces, DropsNested, Emit
VARIABLES items,  (* items of a filter: [name], or [items] for a group *)
          reg,    (* tag -> number of the registration it refers to *)
          cache, hist, ret
vars == <<items, reg, cache, hist, ret>>

(* Names below items, and the flat map which building groups from the inside out gives. *)
RECURSIVE Leaves(_)
Leaves(s) == UNION {IF s[i].group THEN Leaves(s[i].items) ELSE {s[i].name} : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(s) == FoldLeft(LAMBDA f, x : IF x.group THEN (IF DropsNested /\ f # {} THEN f ELSE f \cup Flat(x.items)) ELSE f \cup {x.name}, {}, s)
Keeps(kind, s, name) == CASE kind = "none" -> TRUE [] kind = "include" -> name \in Leaves(s) [] OTHER -> name \notin Leaves(s)

(* Order of tags: special ones (here "+...") last. *)
Tags == <<"", "B", "a", "+", "+Z", "+b">>
Rank(t) == CHOOSE i \in DOMAIN Tags : Tags[i] = t
Listed(s) == SetToSortSeq(s, LAMBDA x, y : Rank(x) < Rank(y))
None == <<>>

Names == {"x", "y"}
Leaf == {[group |-> FALSE, name |-> n, items |-> <<>>] : n \in Names}
Group(S) == {[group |-> TRUE, name |-> "", items |-> s] : s \in UNION {[1 .. n -> S] : n \in 0 .. 2}}
Trees == UNION {[1 .. n -> Leaf \cup Group(Leaf \cup {[group |-> TRUE, name |-> "", items |-> <<l>>] : l \in Leaf})] : n \in 0 .. 2}

Init == /\ reg = <<>> /\ cache = <<FALSE, None>> /\ hist = <<>> /\ ret = [op |-> "", tag |-> "", list |-> <<>>, id |-> 0, err |-> FALSE]
        /\ items \in IF Depth = 0 THEN Trees ELSE {<<>>}
Adds == Len(SelectSeq(hist, LAMBDA h : h.op = "add"))
Did(op, tag, list, id, err) == /\ hist' = Append(hist, [op |-> op, tag |-> tag])
                               /\ ret' = [op |-> op, tag |-> tag, list |-> list, id |-> id, err |-> err]
                               /\ UNCHANGED items
Add(t) == LET n == Adds + 1 IN
          IF t \in DOMAIN reg
          THEN /\ reg' = IF Replaces THEN [reg EXCEPT ![t] = n] ELSE reg
               /\ Did("add", t, <<>>, n, TRUE) /\ UNCHANGED cache
          ELSE /\ reg' = (t :> n) @@ reg
               /\ cache' = IF StaleCache THEN cache ELSE <<FALSE, None>>
               /\ Did("add", t, <<>>, n, FALSE)
Get(t) == Did("get", t, <<>>, IF t \in DOMAIN reg THEN reg[t] ELSE 0, FALSE) /\ UNCHANGED <<reg, cache>>
List == LET l == IF cache[1] THEN cache[2] ELSE Listed(DOMAIN reg)
        IN cache' = <<TRUE, l>> /\ Did("list", "", l, 0, FALSE) /\ UNCHANGED reg
Next == /\ Len(hist) < Depth
        /\ (List \/ \E t \in {"", "B", "a", "+", "+b"} : Add(t) \/ Get(t))
Spec == Init /\ [][Next]_vars

(* What history says about registrations, without caches. *)
Registered(h) == {h[i].tag : i \in {j \in DOMAIN h : h[j].op = "add"}}
AddsBefore(h, i) == Cardinality({j \in 1 .. i : h[j].op = "add"})
FirstId(h, t) == IF t \notin Registered(h) THEN 0
                 ELSE AddsBefore(h, Min({i \in DOMAIN h : h[i].op = "add" /\ h[i].tag = t}))
Past == SubSeq(hist, 1, Len(hist) - 1)
FoundByTag == ret.op = "get" => ret.id = FirstId(hist, ret.tag)
ListComplete == ret.op = "list" => ret.list = Listed(Registered(hist))
DuplicatesRefused == ret.op = "add" => (ret.err <=> ret.tag \in Registered(Past))
FlatIsLeaves == Flat(items) = Leaves(items)
Opposite == \A n \in Names : Keeps("include", items, n) # Keeps("exclude", items, n)
EmitCase == (Emit /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson(IF Depth = 0 THEN items ELSE hist))
=============================================================================
