-------------------------------- MODULE Conc --------------------------------
(* Concurrent logging through loggers of one root.  Every record is logged  *)
(* by its own process: it takes a buffer from a pool, composes its pieces,  *)
(* takes the mutex shared by the family, hands the buffer to the writer in  *)
(* one call, and gives mutex and buffer back, also when composing panics or *)
(* the writer fails.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Recs,       \* records, e.g. 1..3
          Pieces,     \* user code runs between the pieces
          Booms,      \* subsets of Recs: which records panic while composing
          Fails,      \* subsets of Recs: for which records the writer fails
          Early,      \* TRUE: faulty variant, buffer goes back before it is written
          Locked,     \* FALSE: faulty variant without mutex
          Leaky,      \* TRUE: faulty variant, mutex kept when the writer fails
          Emit        \* TRUE: print schedules for replay

VARIABLES boom, fail, pc, buf, pool, cell, mutex, out, res, sched
vars == <<boom, fail, pc, buf, pool, cell, mutex, out, res, sched>>
view == <<boom, fail, pc, buf, pool, cell, mutex, out, res>>

None == 0
Buffers == 1..Cardinality(Recs)
Init == /\ boom \in Booms /\ fail \in Fails
        /\ pc = [r \in Recs |-> "idle"] /\ buf = [r \in Recs |-> None]
        /\ pool = <<>> /\ cell = [b \in Buffers |-> <<>>]
        /\ mutex = None /\ out = <<>> /\ res = [r \in Recs |-> ""] /\ sched = <<>>

InUse == {buf[r] : r \in {x \in Recs : pc[x] \notin {"idle", "done"}}}
Note(a, r) == sched' = Append(sched, [a |-> a, r |-> r])

(* A buffer from the pool (last in, first out) or a new one. *)
Start(r) ==
  /\ pc[r] = "idle"
  /\ LET b == IF pool # <<>> THEN pool[Len(pool)]
              ELSE CHOOSE x \in Buffers : x \notin InUse
     IN /\ buf' = [buf EXCEPT ![r] = b]
        /\ cell' = [cell EXCEPT ![b] = <<r>>]
        /\ pool' = IF pool # <<>> THEN SubSeq(pool, 1, Len(pool) - 1) ELSE pool
  /\ pc' = [pc EXCEPT ![r] = "composing"]
  /\ Note("start", r) /\ UNCHANGED <<boom, fail, mutex, out, res>>

Piece(r) ==
  /\ pc[r] = "composing" /\ Len(cell[buf[r]]) < Pieces + 1
  /\ cell' = [cell EXCEPT ![buf[r]] = Append(@, r)]
  /\ Note("step", r) /\ UNCHANGED <<boom, fail, pc, buf, pool, mutex, out, res>>

Panic(r) ==
  /\ pc[r] = "composing" /\ r \in boom
  /\ pc' = [pc EXCEPT ![r] = "done"] /\ res' = [res EXCEPT ![r] = "panic"]
  /\ pool' = Append(pool, buf[r])
  /\ Note("step", r) /\ UNCHANGED <<boom, fail, buf, cell, mutex, out>>

Composed(r) ==
  /\ pc[r] = "composing" /\ Len(cell[buf[r]]) >= Pieces + 1 /\ r \notin boom
  /\ pc' = [pc EXCEPT ![r] = "waiting"]
  /\ pool' = IF Early THEN Append(pool, buf[r]) ELSE pool
  /\ UNCHANGED <<boom, fail, buf, cell, mutex, out, res, sched>>

Write(r) ==
  /\ pc[r] = "waiting" /\ (Locked => mutex = None)
  /\ mutex' = r
  /\ pc' = [pc EXCEPT ![r] = "writing"]
  /\ UNCHANGED <<boom, fail, buf, pool, cell, out, res, sched>>

(* The writer sees the buffer until its call returns. *)
Written(r) ==
  /\ pc[r] = "writing"
  /\ out' = IF r \in fail THEN out ELSE Append(out, cell[buf[r]])
  /\ res' = [res EXCEPT ![r] = IF r \in fail THEN "error" ELSE "ok"]
  /\ pc' = [pc EXCEPT ![r] = "done"]
  /\ mutex' = IF Leaky /\ r \in fail THEN mutex ELSE None
  /\ pool' = IF Early THEN pool ELSE Append(pool, buf[r])
  /\ Note("wend", r) /\ UNCHANGED <<boom, fail, buf, cell>>

Done == \A r \in Recs : pc[r] = "done"
Next == \E r \in Recs : Start(r) \/ Piece(r) \/ Panic(r) \/ Composed(r) \/ Write(r) \/ Written(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exclusive == Cardinality({r \in Recs : pc[r] = "writing"}) <= 1
Whole == \A i \in DOMAIN out : \E r \in Recs : out[i] = [k \in 1..(Pieces + 1) |-> r]
Once == \A r \in Recs : Cardinality({i \in DOMAIN out : out[i] # <<>> /\ out[i][1] = r}) <= 1
Reported == \A r \in Recs : pc[r] = "done" => res[r] =
              (IF r \in boom THEN "panic" ELSE IF r \in fail THEN "error" ELSE "ok")
NoneLost == Done => \A r \in Recs : res[r] = "ok" => \E i \in DOMAIN out : out[i][1] = r
Returned == Done => mutex = None
Progress == <>Done

EmitSched == (Emit /\ Done) => PrintT("CASE " \o ToJson([sched |-> sched, boom |-> boom, fail |-> fail]))
=============================================================================
