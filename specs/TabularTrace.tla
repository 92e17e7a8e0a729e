---------------------------- MODULE TabularTrace ----------------------------
(* Validates the printed report: what it shows is what the input says, with  *)
(* the input read as in Bench and Warnings.                                  *)
EXTENDS Report
(* ---- tables ---- *)
Bench == FoldLeft(B!Step, B!Start, R.bench)
Named(d) == LET n == {x \in Bench.defs : x.h = d} IN IF n # {} THEN (CHOOSE x \in n : TRUE).c ELSE Plain(R.plain, d)
BadTable(t) ==
  LET rows == SelectSeq(t.rows, LAMBDA r : Len(r) = 6)
      of == {d \in Bench.data : Plain(R.tests, d.t) = t.title}
      head == t.head
      Fits(r, d) == r[1] = Named(d.h) /\ \A i \in 2 .. 6 : r[i] = Cell(d.v, head[i], R)
  IN IF Len(head) # 6 \/ {head[i] : i \in 2 .. 6} # Label THEN "columns " \o ToString(head)
     ELSE IF Len(rows) # Len(t.rows) THEN "broken rows " \o ToString(t.rows)
     ELSE IF ~Same(Map(rows, LAMBDA r : r[1]), Map(SetToSeq(of), LAMBDA d : Named(d.h))) THEN "rows " \o ToString(Map(rows, LAMBDA r : r[1])) \o " instead of " \o ToString({Named(d.h) : d \in of})
     ELSE IF ~Sorted(Map(rows, LAMBDA r : r[1])) THEN "rows out of order"
     ELSE LET bad == {r \in RangeOf(rows) : ~\E d \in of : Fits(r, d)}
              lost == {d \in of : ~\E r \in RangeOf(rows) : Fits(r, d)}
          IN IF bad # {} THEN "row " \o ToString(CHOOSE r \in bad : TRUE) \o " but the input says " \o ToString({d \in of : Named(d.h) = (CHOOSE r \in bad : TRUE)[1]})
             ELSE IF lost # {} THEN "no row for " \o ToString(CHOOSE d \in lost : TRUE) ELSE ""

(* ---- warnings ---- *)
Tags == {d.h : d \in Bench.data \cup Bench.defs}
Tag(n) == LET s == {h \in Tags : Named(h) = n} IN IF s = {} THEN n ELSE CHOOSE h \in s : TRUE
Shown(n) == IF \E h \in Tags : Named(h) = n THEN n ELSE R.titles[CHOOSE i \in DOMAIN R.titles : R.titles[i].tag = n].name
Read == Flush(FoldLeft(LAMBDA s, l : Step(s, l, LAMBDA n : Shown(n)), Start("Bench"), R.lines))
Many(s) == \E i \in 1 .. Len(s) : Ch(s, i) = "\n"
Inst(x) == (IF x.src = "" THEN "" ELSE x.src \o ":") \o x.fn \o (IF x.text = "" THEN "" ELSE IF Many(x.text) THEN ": \n" \o x.text ELSE ": " \o x.text)
           \o (IF x.rec = "" THEN "" ELSE "\n" \o x.rec)
BadWarn(b, l, w, f) ==
  LET want == Map(SelectSeq(f.got, LAMBDA x : x.h = b.name /\ Severity(x.level) = l.name /\ x.w = w.name), Inst)
  IN IF w.count # ToString(Len(w.insts)) THEN w.name \o " counts " \o w.count
     ELSE IF ~\E x \in f.sum : x[1] = b.name /\ Severity(x[2]) = l.name /\ x[3] = w.name /\ x[4] = w.summary THEN w.name \o " says " \o w.summary
     ELSE IF ~Same(w.insts, want) THEN "instances of " \o w.name \o " " \o ToString(w.insts) \o " instead of " \o ToString(want) ELSE ""
BadLevel(b, l, f) == IF ~Exactly(Map(l.ws, LAMBDA w : w.name), {x[3] : x \in {y \in f.sum : y[1] = b.name /\ Severity(y[2]) = l.name}})
                     THEN "warnings " \o ToString(Map(l.ws, LAMBDA w : w.name)) \o " at " \o l.name
                     ELSE IF ~Sorted(Map(l.ws, LAMBDA w : w.name)) THEN "warnings out of order"
                     ELSE FirstBad(l.ws, LAMBDA w : BadWarn(b, l, w, f))
BadBlock(b, f) ==
  LET ls == Map(b.levels, LAMBDA l : l.name)
      m == IF ~Exactly(ls, {Severity(x[2]) : x \in {y \in f.sum : y[1] = b.name}}) THEN "severities " \o ToString(ls)
           ELSE IF \E i \in 1 .. Len(ls) - 1 : Rank(ls[i]) < Rank(ls[i + 1]) THEN "severities out of order"
           ELSE FirstBad(b.levels, LAMBDA l : BadLevel(b, l, f))
  IN IF m = "" THEN "" ELSE "warnings for " \o b.name \o ": " \o m

Titles == {Plain(R.tests, d.t) : d \in Bench.data}
Wrong ==
  IF R.strange # "" THEN "unexpected output " \o R.strange
  ELSE LET f == Read
           names == Map(R.warnings, LAMBDA b : b.name)
           t == FirstBad(R.tables, LAMBDA x : LET m == BadTable(x) IN IF m = "" THEN "" ELSE "table " \o x.title \o ": " \o m)
       IN IF ~Exactly(Map(R.tables, LAMBDA x : x.title), Titles) THEN "tables " \o ToString(Map(R.tables, LAMBDA x : x.title)) \o " instead of " \o ToString(Titles)
          ELSE IF ~Sorted(Map(R.tables, LAMBDA x : x.title)) THEN "tables out of order"
          ELSE IF t # "" THEN t
          ELSE IF ~Exactly(names, f.hs) THEN "warnings for " \o ToString(names) \o " instead of " \o ToString(f.hs)
          ELSE IF ~Sorted(names) THEN "handlers with warnings out of order"
          ELSE FirstBad(R.warnings, LAMBDA b : BadBlock(b, f))
TraceInit == p = 1 /\ TLCSet(1, 0) /\ st = 0 /\ lines = 0
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED <<st, lines>>
TraceSpec == TraceInit /\ [][TraceNext]_<<st, lines, p>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
