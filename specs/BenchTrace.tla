----------------------------- MODULE BenchTrace ----------------------------
(* Validates benchmark data parsed in several passes and everything that    *)
(* can be asked about it.                                                   *)
EXTENDS Bench
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES p, n
R == Trace[p]
Q == R.passes[n]
Upto == FoldLeft(Step, Start, FlattenSeq([i \in 1 .. n |-> R.passes[i].lines]))

(* ---- decimal numbers as texts ---- *)
From(s, i) == SubSeq(s, i, Len(s))
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Point(_, _)
Point(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) = "." THEN i ELSE Point(s, i + 1)
RECURSIVE DropZeros(_)
DropZeros(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN DropZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Unlead(_)
Unlead(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Unlead(From(s, 2)) ELSE s
Shown(whole, frac) == LET f == DropZeros(frac) w == Unlead(whole) IN IF f = "" THEN w ELSE w \o "." \o f
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
(* s divided by ten to the power k *)
Scaled(s, k) == LET d == Point(s, 1)
                    w == Zeros(k + 1 - (d - 1)) \o SubSeq(s, 1, d - 1)
                    m == Len(w) - k
                IN Shown(SubSeq(w, 1, m), From(w, m + 1) \o From(s, d + 1))
Opt(s) == IF s = "" THEN "0" ELSE s
(* Columns: runs, ns/op, MB/s, B/op, allocs/op; "" if absent. *)
Want(v) == [runs |-> Scaled(v.runs, 0), ns |-> Scaled(v.ns, 0), allocs |-> Scaled(Opt(v.allocs), 0), bytes |-> Scaled(Opt(v.bytes), 0),
            mb |-> Scaled(Opt(v.mb), 0), gb |-> Scaled(Opt(v.mb), 3), tb |-> Scaled(Opt(v.mb), 6)]

Order == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Place(_, _)
Place(c, i) == IF i > Len(Order) \/ SubSeq(Order, i, i) = c THEN i ELSE Place(c, i + 1)
RECURSIVE Less(_, _)
Less(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
              ELSE LET x == SubSeq(a, 1, 1) y == SubSeq(b, 1, 1)
                   IN IF x = y THEN Less(From(a, 2), From(b, 2)) ELSE Place(x, 1) < Place(y, 1)
Sorted(s) == \A i \in 1 .. Len(s) - 1 : ~Less(s[i + 1].name, s[i].name)
Exactly(s, S) == Len(s) = Cardinality(S) /\ RangeOf(s) = S
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

Bad(s) ==
  LET hs == {d.h : d \in s.data}
      ts == {"Bench." \o d.t : d \in s.data}
      Name(h) == LET d == {x \in s.defs : x.h = h} IN IF d # {} THEN (CHOOSE x \in d : TRUE).c ELSE ""
      all == {[h |-> d.h, t |-> "Bench." \o d.t, v |-> Want(d.v)] : d \in s.data}
      named == hs \cup {d.h : d \in s.defs}
      NameOf(h) == IF Name(h) # "" THEN Name(h) ELSE LET i == SelectInSeq(Q.plain, LAMBDA x : x.tag = h) IN IF i = 0 THEN h ELSE Q.plain[i].name
  IN IF ~Exactly(Map(Q.handlers, LAMBDA x : x.tag), hs) THEN "handlers " \o ToString(Q.handlers) \o " instead of " \o ToString(hs)
     ELSE IF ~Exactly(Map(Q.tests, LAMBDA x : x.tag), ts) THEN "tests " \o ToString(Q.tests) \o " instead of " \o ToString(ts)
     ELSE IF ~Sorted(Q.handlers) \/ ~Sorted(Q.tests) THEN "tags out of order"
     ELSE IF \E x \in RangeOf(Q.handlers) : x.name # NameOf(x.tag) THEN "handler names " \o ToString(Q.handlers)
     ELSE IF ~Exactly(Q.bytest, all) THEN "by test " \o ToString(RangeOf(Q.bytest) \ all) \o " instead of " \o ToString(all \ RangeOf(Q.bytest))
     ELSE IF ~Exactly(Q.byhandler, all) THEN "by handler " \o ToString(RangeOf(Q.byhandler) \ all) \o " instead of " \o ToString(all \ RangeOf(Q.byhandler))
     ELSE IF ~Exactly(Q.items, all) THEN "items " \o ToString(RangeOf(Q.items) \ all) \o " instead of " \o ToString(all \ RangeOf(Q.items))
     ELSE IF {x.name : x \in RangeOf(Q.lookup)} # {NameOf(h) : h \in named} \/ Len(Q.lookup) # Cardinality({NameOf(h) : h \in named})
             \/ \E x \in RangeOf(Q.lookup) : x.tag \notin named \/ NameOf(x.tag) # x.name THEN "lookup " \o ToString(Q.lookup)
     ELSE IF Q.strange # "" THEN Q.strange
     ELSE LET first == SelectInSeq(s.text, LAMBDA c : c # "")
              text == IF first = 0 THEN <<>> ELSE SubSeq(s.text, first, Len(s.text))
              read == LET f == SelectInSeq(Q.text, LAMBDA c : c # "") IN IF f = 0 THEN <<>> ELSE SubSeq(Q.text, f, Len(Q.text))
          IN IF read # text THEN "warning text " \o ToString(read) \o " instead of " \o ToString(text) ELSE ""
Wrong == IF Q.panic # "" THEN Q.panic ELSE IF Q.err # "" THEN "error " \o Q.err ELSE Bad(Upto)
TraceInit == p = 1 /\ n = 1 /\ TLCSet(1, 0) /\ st = 0 /\ lines = 0
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|pass " \o ToString(n) \o ": " \o m)
             /\ IF n = Len(R.passes) THEN p' = p + 1 /\ n' = 1 /\ TLCSet(1, p) ELSE p' = p /\ n' = n + 1
             /\ UNCHANGED <<st, lines>>
TraceSpec == TraceInit /\ [][TraceNext]_<<st, lines, p, n>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
