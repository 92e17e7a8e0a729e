-------------------------------- MODULE Site ---------------------------------
(* The web server as clients see it: loaded data, pages that name what they  *)
(* show, links between them, and clients that ask at the same time. A server *)
(* answers in two steps, first preparing what the page is made from.         *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS Handlers, Tests, Checks, Clients, Depth, Variant, Emit
VARIABLES data, made, at, shown, asked
H == 1 .. Handlers
T == 1 .. Tests
V == 1 .. Checks
Page(k, i) == [k |-> k, i |-> i]
Home == Page("home", 0)
Idle == Page("idle", 0)
(* bench: who has a benchmark record for which test; warns: who has a        *)
(* warning from which verification test.                                     *)
Loaded == [bench : SUBSET (H \X T), warns : SUBSET (H \X V)]
Hs(d) == {x[1] : x \in d.bench}
Ts(d) == {x[2] : x \in d.bench}
Vs(d) == {x[2] : x \in d.warns}
Content(d, p) ==
  CASE p.k = "handler" -> [bench |-> {x \in d.bench : x[1] = p.i}, warns |-> {x \in d.warns : x[1] = p.i}]
    [] p.k = "test" -> [bench |-> {x \in d.bench : x[2] = p.i}, warns |-> {}]
    [] p.k = "check" -> [bench |-> {}, warns |-> {x \in d.warns : x[2] = p.i}]
    [] p.k = "matrix" -> [bench |-> {}, warns |-> d.warns]
    [] OTHER -> [bench |-> {}, warns |-> {}]
(* Every page leads to all others. *)
Links(d) == {Home, Page("matrix", 0)}
            \cup {Page("handler", i) : i \in IF Variant = "warned" THEN {x[1] : x \in d.warns} ELSE Hs(d)}
            \cup {Page("test", i) : i \in IF Variant = "alltests" THEN T ELSE Ts(d)}
            \cup {Page("check", i) : i \in Vs(d)}
Init == /\ data \in Loaded
        /\ made = [c \in 1 .. Clients |-> Idle] /\ at = [c \in 1 .. Clients |-> Idle]
        /\ shown = <<>> /\ asked = 0
Ask(c, p) == /\ at[c] = Idle /\ asked < Depth
             /\ at' = [at EXCEPT ![c] = p]
             /\ made' = IF Variant = "shared" THEN [x \in 1 .. Clients |-> p] ELSE [made EXCEPT ![c] = p]
             /\ asked' = asked + 1
             /\ UNCHANGED <<data, shown>>
(* "first": a page of a kind is made only once. *)
Old(p) == {i \in DOMAIN shown : shown[i].p.k = p.k}
Answer(c) == /\ at[c] # Idle
             /\ LET m == IF Variant = "first" /\ Old(at[c]) # {} THEN shown[CHOOSE i \in Old(at[c]) : TRUE].got ELSE Content(data, made[c])
                IN shown' = Append(shown, [c |-> c, p |-> at[c], got |-> m])
             /\ at' = [at EXCEPT ![c] = Idle]
             /\ UNCHANGED <<data, made, asked>>
Next == \E c \in 1 .. Clients : Answer(c) \/ \E p \in Links(data) : Ask(c, p)
Spec == Init /\ [][Next]_<<data, made, at, shown, asked>>
(* ---- what users rely on ---- *)
Own == \A i \in DOMAIN shown : shown[i].got = Content(data, shown[i].p)
Reach == /\ data.bench = UNION {Content(data, p).bench : p \in Links(data)}
         /\ data.warns = UNION {Content(data, p).warns : p \in Links(data)}
         (* by handler and by test *)
         /\ \A x \in data.bench : Page("handler", x[1]) \in Links(data) /\ Page("test", x[2]) \in Links(data)
NoDangling == \A p \in Links(data) \ {Home, Page("matrix", 0)} : Content(data, p) # Content(data, Home)
EmitRun == (Emit /\ Len(shown) = Depth) => PrintT("CASE " \o ToJson([bench |-> data.bench, warns |-> data.warns, visits |-> [i \in DOMAIN shown |-> shown[i].p]]))
=============================================================================
