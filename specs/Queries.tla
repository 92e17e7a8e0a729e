------------------------------ MODULE Queries -------------------------------
(* Concurrent queries over loaded data. Whatever a query keeps for later     *)
(* ones must be published whole and synchronized.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC
CONSTANTS Threads, Asks, Length, Items, Variant, Emit
(* Variant: "fresh" answers are computed each time, "locked" they are kept   *)
(* under a lock, "lazy" kept without one, "partial" published while filled.  *)
VARIABLES pc, asked, mine, cell, lock, touch, answers, sched
vars == <<pc, asked, mine, cell, lock, touch, answers, sched>>
view == <<pc, asked, mine, cell, lock, touch, answers>>
None == [set |-> FALSE, items |-> {}]
Init == /\ pc = [t \in Threads |-> "idle"] /\ asked = [t \in Threads |-> <<>>]
        /\ mine = [t \in Threads |-> {}] /\ cell = [q \in Asks |-> None] /\ lock = 0
        /\ touch = [t \in Threads |-> <<0, "">>]  (* which cell a thread accesses right now, and how *)
        /\ answers = {} /\ sched = <<>>
Q(t) == asked[t][Len(asked[t])]
Note(k, t, q) == sched' = Append(sched, [k |-> k, t |-> t, q |-> q])
Go(t, to) == pc' = [pc EXCEPT ![t] = to]
Touch(t, how) == touch' = [touch EXCEPT ![t] = <<IF how = "" THEN 0 ELSE Q(t), how>>]

Begin(t) == /\ pc[t] = "idle" /\ Len(asked[t]) < Length
            /\ \E q \in Asks : asked' = [asked EXCEPT ![t] = Append(@, q)] /\ Note("begin", t, q)
            /\ Go(t, IF Variant = "fresh" THEN "compute" ELSE IF Variant = "locked" THEN "lock" ELSE "look")
            /\ mine' = [mine EXCEPT ![t] = {}]
            /\ UNCHANGED <<cell, lock, touch, answers>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Go(t, "look")
           /\ UNCHANGED <<asked, mine, cell, touch, answers, sched>>
Look(t) == /\ pc[t] = "look" /\ touch[t][2] = "" /\ Touch(t, "read")
           /\ UNCHANGED <<pc, asked, mine, cell, lock, answers, sched>>
Looked(t) == /\ pc[t] = "look" /\ touch[t][2] = "read" /\ Touch(t, "")
             /\ IF cell[Q(t)].set THEN mine' = [mine EXCEPT ![t] = cell[Q(t)].items] /\ Go(t, "answer")
                ELSE mine' = mine /\ Go(t, IF Variant = "partial" THEN "publish" ELSE "compute")
             /\ UNCHANGED <<asked, cell, lock, answers, sched>>
Compute(t) == /\ pc[t] = "compute"
              /\ IF mine[t] = Items THEN mine' = mine /\ Go(t, IF Variant = "fresh" THEN "answer" ELSE "store")
                 ELSE \E i \in Items \ mine[t] : (i = Min(Items \ mine[t])) /\ mine' = [mine EXCEPT ![t] = @ \cup {i}] /\ pc' = pc
              /\ UNCHANGED <<asked, cell, lock, touch, answers, sched>>
Store(t) == /\ pc[t] = "store" /\ touch[t][2] = "" /\ Touch(t, "write")
            /\ UNCHANGED <<pc, asked, mine, cell, lock, answers, sched>>
Stored(t) == /\ pc[t] = "store" /\ touch[t][2] = "write" /\ Touch(t, "")
             /\ cell' = [cell EXCEPT ![Q(t)] = [set |-> TRUE, items |-> mine[t]]] /\ Go(t, "answer")
             /\ UNCHANGED <<asked, mine, lock, answers, sched>>
Publish(t) == /\ pc[t] = "publish"
              /\ LET c == cell[Q(t)].items IN
                 IF c = Items THEN mine' = [mine EXCEPT ![t] = c] /\ Go(t, "answer") /\ cell' = cell
                 ELSE /\ cell' = [cell EXCEPT ![Q(t)] = [set |-> TRUE, items |-> c \cup {Min(Items \ c)}]]
                      /\ UNCHANGED <<mine, pc>>
              /\ UNCHANGED <<asked, lock, touch, answers, sched>>
Answer(t) == /\ pc[t] = "answer" /\ Go(t, "idle")
             /\ lock' = IF lock = t THEN 0 ELSE lock
             /\ answers' = answers \cup {<<Q(t), mine[t]>>} /\ Note("end", t, Q(t))
             /\ UNCHANGED <<asked, mine, cell, touch>>
Next == \E t \in Threads : Begin(t) \/ Lock(t) \/ Look(t) \/ Looked(t) \/ Compute(t) \/ Store(t) \/ Stored(t) \/ Publish(t) \/ Answer(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A t \in Threads : pc[t] = "idle" /\ Len(asked[t]) = Length

Complete == \A a \in answers : a[2] = Items
NoConflict == \A t, u \in Threads : (t # u /\ touch[t][1] # 0 /\ touch[t][1] = touch[u][1]) => touch[t][2] = "read" /\ touch[u][2] = "read"
AllAnswered == <>Done
EmitSched == (Emit /\ Done) => PrintT("CASE " \o ToJson(sched))
=============================================================================
