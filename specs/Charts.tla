------------------------------- MODULE Charts --------------------------------
(* Charts are drawn once and kept: a request looks for a kept chart, draws   *)
(* one if there is none, keeps it and sends it; requests overlap.            *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS Names, Items, Clients, Depth, Variant, Emit
VARIABLES kept, pc, asks, sent
Charts == [k : {"bar"}, n : 1 .. Names, i : 1 .. Items] \cup [k : {"score"}, n : 1 .. Names, i : 1 .. Items]
Key(a) == CASE Variant = "noitem" -> <<a.k, a.n>>
            [] Variant = "noname" -> <<a.k, a.i>>
            [] Variant = "nokind" -> <<a.n, a.i>>
            [] OTHER -> <<a.k, a.n, a.i>>
Value(a) == <<a.k, a.n, a.i>>
Init == kept = {} /\ pc = [c \in 1 .. Clients |-> [at |-> "idle", a |-> 0, v |-> 0]] /\ asks = <<>> /\ sent = <<>>
Found(a) == {x \in kept : x[1] = Key(a)}
Ask(c, a) == /\ pc[c].at = "idle" /\ Len(asks) < Depth
             /\ asks' = Append(asks, a)
             /\ pc' = [pc EXCEPT ![c] = IF Found(a) = {} THEN [at |-> "draw", a |-> a, v |-> <<>>]
                                        ELSE [at |-> "send", a |-> a, v |-> (CHOOSE x \in Found(a) : TRUE)[2]]]
             (* "early": an empty chart is kept while it is drawn *)
             /\ kept' = IF Variant = "early" /\ Found(a) = {} THEN kept \cup {<<Key(a), <<>>>>} ELSE kept
             /\ UNCHANGED sent
Draw(c) == /\ pc[c].at = "draw"
           /\ pc' = [pc EXCEPT ![c].at = "keep", ![c].v = Value(pc[c].a)]
           /\ UNCHANGED <<kept, asks, sent>>
Keep(c) == /\ pc[c].at = "keep"
           /\ kept' = {x \in kept : x[1] # Key(pc[c].a)} \cup {<<Key(pc[c].a), pc[c].v>>}
           /\ pc' = [pc EXCEPT ![c].at = "send"]
           /\ UNCHANGED <<asks, sent>>
Send(c) == /\ pc[c].at = "send"
           /\ sent' = Append(sent, <<pc[c].a, pc[c].v>>)
           /\ pc' = [pc EXCEPT ![c] = [at |-> "idle", a |-> 0, v |-> 0]]
           /\ UNCHANGED <<kept, asks>>
Next == \E c \in 1 .. Clients : Draw(c) \/ Keep(c) \/ Send(c) \/ \E a \in Charts : Ask(c, a)
Spec == Init /\ [][Next]_<<kept, pc, asks, sent>>
Exact == \A s \in {sent[i] : i \in DOMAIN sent} : s[2] = Value(s[1])
EmitRun == (Emit /\ Len(sent) = Depth) => PrintT("CASE " \o ToJson(asks))
=============================================================================
