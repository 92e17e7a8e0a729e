------------------------------- MODULE Family -------------------------------
(* Families of loggers derived from one root whose prefixes, suffixes and   *)
(* group lists are Go slices: a length and a capacity over a shared backing *)
(* array.  TLC checks for every order of derivations that each logger keeps *)
(* the content its own path gave it (Isolated).  With Copying = FALSE the   *)
(* derivation appends in place whenever there is room, as Go's append does  *)
(* on a slice that isn't clipped; TLC finds the interference then.          *)
(* The derivation histories are also printed for replay against the code.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth,    \* number of derivations
          Trunk,    \* length of the chain the derivations start from
          Cap,      \* capacity of a fresh array
          Copying, Emit

VARIABLES heap,     \* backing arrays: sequences of cells
          slice,    \* per logger: [arr, len]
          path,     \* per logger: what its derivation path says
          hist,     \* the calls, for replay
          trunk     \* length of the chain all started from
vars == <<heap, slice, path, hist, trunk>>

Sizes == [short |-> 1, long |-> 2, group |-> 1]
Cells(tag, n) == [i \in 1..n |-> tag]
Pad(s, n) == s \o [i \in 1..(IF n > Len(s) THEN n - Len(s) ELSE 0) |-> 0]

(* The root, or a chain of d groups opened one after the other. *)
Init == \E d \in 0..Trunk :
        /\ trunk = d
        /\ path = [i \in 1..(d + 1) |-> [j \in 1..(i - 1) |-> j]]
        /\ heap = [i \in 1..(d + 1) |-> Pad([j \in 1..(i - 1) |-> j], Cap + i - 1)]
        /\ slice = [i \in 1..(d + 1) |-> [arr |-> i, len |-> i - 1]]
        /\ hist = [i \in 1..d |-> [l |-> i, kind |-> "group"]]

Content(l) == SubSeq(heap[slice[l].arr], 1, slice[l].len)

Derive(l, kind) ==
  /\ Len(hist) < Depth + trunk
  /\ LET new  == Cells(Len(path), Sizes[kind])        \* a tag naming this derivation
         s    == slice[l]
         len  == s.len + Len(new)
         room == ~Copying /\ len <= Len(heap[s.arr])
     IN /\ IF room
           THEN /\ heap' = [heap EXCEPT ![s.arr] =
                              [i \in DOMAIN @ |-> IF i > s.len /\ i <= len THEN new[i - s.len] ELSE @[i]]]
                /\ slice' = Append(slice, [arr |-> s.arr, len |-> len])
           ELSE /\ heap' = Append(heap, Pad(Content(l) \o new, Cap + len))
                /\ slice' = Append(slice, [arr |-> Len(heap) + 1, len |-> len])
        /\ path' = Append(path, path[l] \o new)
  /\ trunk' = trunk
  /\ hist' = Append(hist, [l |-> l, kind |-> kind])
  /\ (Emit /\ Len(hist') >= Depth + trunk) => PrintT("CASE " \o ToJson(hist'))

Next == \E l \in DOMAIN path, kind \in DOMAIN Sizes : Derive(l, kind)
Spec == Init /\ [][Next]_vars

Isolated == \A l \in DOMAIN path : Content(l) = path[l]
=============================================================================
