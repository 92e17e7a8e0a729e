------------------------------- MODULE Loaded --------------------------------
(* The state of a server: what it has loaded. Trace events are "load" with   *)
(* the lines of the files, and responses to requests.                        *)
EXTENDS Report
VARIABLE db
Url(s, x) == LET i == SelectInSeq(s, LAMBDA u : u.tag = x) IN IF i = 0 THEN x ELSE s[i].name
Load(r) ==
  LET b == FoldLeft(B!Step, B!Start, r.bench)
      tags == {d.h : d \in b.data \cup b.defs}
      Name(d) == LET n == {x \in b.defs : x.h = d} IN IF n # {} THEN (CHOOSE x \in n : TRUE).c ELSE Plain(r.plain, d)
      Tag(n) == LET s == {h \in tags : Name(h) = n} IN IF s = {} THEN n ELSE CHOOSE h \in s : TRUE
      f == Flush(FoldLeft(LAMBDA s, l : Step(s, l, Tag), Start("Bench"), r.lines))
      says == [i \in DOMAIN f.says |-> [h |-> Tag(f.says[i].a), known |-> \E h \in tags : Name(h) = f.says[i].a, text |-> f.says[i].b, links |-> f.says[i].c]]
      (* a name of a handler that isn't in the benchmarks is shown in capitals *)
      Shown(h) == IF h \in tags THEN Name(h) ELSE Plain(r.titles, h)
  IN [data |-> b.data, hs |-> {d.h : d \in b.data}, ts |-> {d.t : d \in b.data},
      hname |-> [h \in {d.h : d \in b.data} |-> Name(h)],
      tname |-> [t \in {d.t : d \in b.data} |-> Plain(r.tests, t)],
      got |-> f.got, sum |-> f.sum, whs |-> f.hs, says |-> says,
      wname |-> [h \in f.hs |-> Shown(h)],
      wts |-> {Test(f.got[i]) : i \in DOMAIN f.got},
      cname |-> [t \in {Test(f.got[i]) : i \in DOMAIN f.got} |-> Plain(r.checks, (CHOOSE x \in RangeOf(f.got) : Test(x) = t).fn)],
      group |-> r.group, point |-> r.point, plain |-> r.plain, checks |-> r.checks, catalog |-> r.catalog, keepers |-> r.keepers,
      texts |-> r.texts, calls |-> r.calls, urls |-> r.urls]
LoadedInit == p = 1 /\ TLCSet(1, 0) /\ st = 0 /\ lines = 0 /\ db = 0
LoadedNext(Wrong(_)) ==
  /\ p <= Len(Trace)
  (* A load that stopped shows nothing more; it is reported as such. *)
  /\ IF R.k = "load" THEN (IF R.strange = "" THEN db' = Load(R) ELSE db' = 0) ELSE db' = db
  /\ LET m == IF R.k = "load" THEN (IF R.strange # "" THEN R.strange ELSE "") ELSE Wrong(R)
     IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
  /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED <<st, lines>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
