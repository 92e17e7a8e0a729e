----------------------------- MODULE ChartsTrace -----------------------------
(* Validates the charts of the server against what it has loaded: bars are   *)
(* as long as the values are large, points lie where the scores say.         *)
EXTENDS Loaded
Says(cond, msg) == IF cond THEN "" ELSE msg
First(ms) == FirstBad(ms, LAMBDA m : m)
RECURSIVE AsInt(_, _)
AsInt(s, n) == IF s = "" THEN n ELSE AsInt(From(s, 2), 10 * n + (CHOOSE i \in 0 .. 9 : Ch(Digits, i + 1) = Ch(s, 1)))
(* Hundredths of a number, for numbers the integers of TLC can be multiplied with. *)
Hundred(s) == LET d == Point(s, 1) IN AsInt(SubSeq(s, 1, d - 1) \o SubSeq(From(s, d + 1) \o "00", 1, 2), 0)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Item(v, item) == CASE item = "Nanos" -> Hundred(v.ns) [] item = "MemAllocs" -> Hundred(Opt(v.allocs)) [] item = "MemBytes" -> Hundred(Opt(v.bytes)) [] OTHER -> Hundred(Opt(v.mb))
Title(item) == CASE item = "Nanos" -> "Nanoseconds per operation" [] item = "MemAllocs" -> "Memory allocations per operation"
                 [] item = "MemBytes" -> "Bytes allocated per operation" [] OTHER -> "Gigabytes processed per second"
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
(* The end of the axis, in hundredths. *)
AxisEnd(s) == IF Ch(s, Len(s)) = "k" THEN 1000 * Hundred(SubSeq(s, 1, Len(s) - 1)) ELSE Hundred(s)
BadBar(r, tag, item) ==
  LET g == r.svg
      byTest == {d \in db.data : "Bench." \o d.t = tag}
      of == IF byTest # {} THEN byTest ELSE {d \in db.data : d.h = tag}
      Name(d) == IF byTest # {} THEN db.hname[d.h] ELSE db.tname[d.t]
      val == [i \in DOMAIN g.labels |-> LET s == {d \in of : Name(d) = g.labels[i]} IN IF s = {} THEN 0 ELSE Item((CHOOSE d \in s : TRUE).v, item)]
      unit == IF item = "GbPerSec" THEN 1000 ELSE 1
      low == unit * AxisEnd(g.min)
      range == unit * AxisEnd(g.max) - low
      (* Numbers at the axis are rounded. *)
      off == {i \in DOMAIN val : Abs(g.bars[i] * (range \div 10) - g.width * ((val[i] - low) \div 10)) > 2 * (range \div 10) + g.width * (range \div 2000 + low \div 2000 + unit)}
  IN IF of = {} THEN Says(r.code # 200, "a chart of nothing")
     ELSE IF r.code # 200 THEN "status " \o ToString(r.code)
     ELSE IF g.title # Title(item) THEN "title " \o g.title
     ELSE IF ~Same(g.labels, Map(SetToSeq(of), Name)) THEN "bars for " \o ToString(g.labels) \o " instead of " \o ToString({Name(d) : d \in of})
     ELSE IF ~Sorted(g.labels) THEN "bars out of order"
     ELSE IF Len(g.bars) # Len(g.labels) THEN "number of bars"
     ELSE IF range <= 0 THEN Says(\A i \in DOMAIN val : val[i] = 0, "no scale")
     ELSE Says(off = {}, "bars " \o ToString(g.bars) \o " of " \o ToString(g.width) \o " from " \o g.min \o " to " \o g.max \o " for " \o ToString(val) \o " of " \o ToString(g.labels))
(* ---- scores ---- *)
Low(size) == CASE size = "0" -> 0 [] size = "1" -> 2500 [] size = "2" -> 5000 [] OTHER -> 7500
BadScore(r, tag, size) ==
  LET g == r.svg
      is == {k \in RangeOf(db.keepers) : k.tag = tag}
      k == CHOOSE x \in is : TRUE
      ax == [w \in {"X", "Y"} |-> CHOOSE a \in RangeOf(k.axes) : a.which = w]
      Score(w, h) == LET s == (CHOOSE x \in RangeOf(ax[w].rows) : x.h = h).score IN IF s = "NaN" THEN 0 - 1 ELSE Hundred(s)
      hs == {h \in db.hs : \E x \in RangeOf(ax["X"].rows) : x.h = h}
      low == Low(size)
      (* Handlers that score nothing in Y, or at the edge of the chart, may be left out. *)
      sure == {h \in hs : (low = 0 \/ Score("X", h) > low + 1) /\ Score("Y", h) > low + 1}
      may == {h \in hs : Score("X", h) >= low /\ Score("Y", h) >= low}
      Near(pt, h) == pt.label = db.hname[h] /\ Abs(pt.x - Score("X", h)) <= 30 /\ Abs(pt.y - Score("Y", h)) <= 30
      bad == {pt \in RangeOf(g.points) : ~\E h \in may : Near(pt, h)}
      lost == {h \in sure : ~\E pt \in RangeOf(g.points) : Near(pt, h)}
  IN IF is = {} THEN Says(r.code # 200, "a chart of nothing")
     ELSE IF r.code # 200 THEN "status " \o ToString(r.code)
     ELSE IF \E h \in hs : \E w \in {"X", "Y"} : Score(w, h) < 0 THEN ""
     ELSE IF g.title = "no ticks" THEN "no scale"
     ELSE IF bad # {} THEN "point " \o ToString(bad) \o " but the scores are " \o ToString({<<db.hname[h], Score("X", h), Score("Y", h)>> : h \in hs})
     ELSE IF lost # {} THEN "no point for " \o ToString({<<db.hname[h], Score("X", h), Score("Y", h)>> : h \in lost})
     ELSE IF Len(g.points) > Cardinality(may) THEN "points " \o ToString(g.points)
     ELSE Says({ax["X"].name, ax["Y"].name} \subseteq RangeOf(g.names), "axes " \o ToString(g.names))
Wrong(r) == LET m == IF r.kind = "bar" THEN BadBar(r, r.name, r.item) ELSE BadScore(r, r.name, r.item) IN IF m = "" THEN "" ELSE r.path \o ": " \o m
TraceSpec == LoadedInit /\ [][LoadedNext(Wrong)]_<<st, lines, p, db>>
=============================================================================
