--------------------------- MODULE WarningsTrace ---------------------------
(* Validates the views of parsed reports: by handler, by test and by        *)
(* warning.                                                                 *)
EXTENDS Warnings
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
Tag(n) == LET s == {i \in DOMAIN R.lookup : R.lookup[i].name = n} IN IF s = {} THEN n ELSE R.lookup[CHOOSE i \in s : TRUE].tag
(* What managers were told, as it can be read back: blanks at the end of    *)
(* lines and before the text don't survive.                                 *)
Blank == {" ", "\t"}
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) \in Blank THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimStart(_)
TrimStart(s) == IF s # "" /\ SubSeq(s, 1, 1) \in Blank THEN TrimStart(From(s, 2)) ELSE s
RECURSIVE Ends(_, _, _)
(* s with its lines trimmed; line is what was read of the current one. *)
Ends(s, i, line) == IF i > Len(s) THEN TrimEnd(line)
                    ELSE IF SubSeq(s, i, i) = "\n" THEN TrimEnd(line) \o "\n" \o Ends(s, i + 1, "")
                    ELSE Ends(s, i + 1, line \o SubSeq(s, i, i))
RECURSIVE Chomp(_)
Chomp(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = "\n" THEN Chomp(SubSeq(s, 1, Len(s) - 1)) ELSE s
Warning(n) == R.warns[CHOOSE i \in DOMAIN R.warns : R.warns[i].name = n]
Told == LET kept == SelectSeq(R.acts, LAMBDA a : ~(a.w = "Unused" /\ \E i \in DOMAIN R.acts : R.acts[i].m = a.m /\ R.acts[i].w = a.text))
            hs == {Tag(R.mgrs[i].name) : i \in DOMAIN R.mgrs}
        IN [hs |-> hs, sum |-> {<<Tag(R.mgrs[kept[i].m].name), Warning(kept[i].w).level, kept[i].w, Warning(kept[i].w).summary>> : i \in DOMAIN kept},
            got |-> [i \in DOMAIN kept |-> [h |-> Tag(R.mgrs[kept[i].m].name), level |-> Warning(kept[i].w).level, w |-> kept[i].w, src |-> R.src,
                       fn |-> Bare(kept[i].fn), text |-> Ends(TrimStart(kept[i].text), 1, ""), rec |-> Ends(Chomp(kept[i].rec), 1, "")]]]
Read == Flush(FoldLeft(LAMBDA s, l : Step(s, l, Tag), Start(R.src), R.lines))
Order == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Place(_, _)
Place(c, i) == IF i > Len(Order) \/ SubSeq(Order, i, i) = c THEN i ELSE Place(c, i + 1)
RECURSIVE Less(_, _)
Less(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
              ELSE LET x == SubSeq(a, 1, 1) y == SubSeq(b, 1, 1)
                   IN IF x = y THEN Less(From(a, 2), From(b, 2)) ELSE Place(x, 1) < Place(y, 1)
Sorted(s, Key(_)) == \A i \in 1 .. Len(s) - 1 : ~Less(Key(s[i + 1]), Key(s[i]))
Same(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) : Len(SelectSeq(s, LAMBDA y : y = x)) = Len(SelectSeq(t, LAMBDA y : y = x))
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Exactly(s, S) == Len(s) = Cardinality(S) /\ RangeOf(s) = S

HName(h) == LET s == {i \in DOMAIN R.hnames : R.hnames[i].tag = h} IN IF s = {} THEN h ELSE R.hnames[CHOOSE i \in s : TRUE].name
(* Levels of a view: levels, warnings and instances. *)
BadLevels(ls, want, Show(_), keys) ==
  LET lv == {k[1] : k \in keys}
  IN IF ~Exactly(Map(ls, LAMBDA l : l.level), lv) THEN "severities " \o ToString(Map(ls, LAMBDA l : l.level)) \o " instead of " \o ToString(lv)
     ELSE IF \E i \in 1 .. Len(ls) - 1 : ls[i].level < ls[i + 1].level THEN "severities out of order"
     ELSE IF \E i \in DOMAIN ls : ~Exactly(Map(ls[i].ws, LAMBDA w : w.name), {k[2] : k \in {x \in keys : x[1] = ls[i].level}}) THEN "wrong warnings in " \o ToString(ls)
     ELSE IF \E i \in DOMAIN ls : ~Sorted(ls[i].ws, LAMBDA w : w.name) THEN "warnings out of order"
     ELSE LET bad == {<<i, j>> \in (DOMAIN ls) \X (1 .. 99) : j \in DOMAIN ls[i].ws /\
                        ~Same(ls[i].ws[j].insts, Map(SelectSeq(want, LAMBDA x : x.level = ls[i].level /\ x.w = ls[i].ws[j].name), Show))}
          IN IF bad = {} THEN "" ELSE LET b == CHOOSE b \in bad : TRUE w == ls[b[1]].ws[b[2]]
                                      IN "instances of " \o w.name \o " " \o ToString(w.insts) \o " instead of "
                                         \o ToString(Map(SelectSeq(want, LAMBDA x : x.level = ls[b[1]].level /\ x.w = w.name), Show))
ByHandler(x) == [tag |-> x.fn, src |-> x.src, extra |-> x.text, line |-> x.rec]
ByTest(x) == [tag |-> HName(x.h), src |-> "", extra |-> x.text, line |-> x.rec]

BadHandler(v, f) ==
  LET keys == {<<x[2], x[3]>> : x \in {y \in f.sum : y[1] = v.tag}}
      m == BadLevels(v.levels, SelectSeq(f.got, LAMBDA x : x.h = v.tag), ByHandler, keys)
  IN IF m # "" THEN "handler " \o v.tag \o ": " \o m
     ELSE IF \E i \in DOMAIN v.levels : \E j \in DOMAIN v.levels[i].ws :
               <<v.tag, v.levels[i].level, v.levels[i].ws[j].name, v.levels[i].ws[j].summary>> \notin f.sum
     THEN "handler " \o v.tag \o ": wrong summary" ELSE ""
BadTest(v, f) ==
  LET want == SelectSeq(f.got, LAMBDA x : Test(x) = v.tag)
      m == BadLevels(v.levels, want, ByTest, {<<x.level, x.w>> : x \in RangeOf(want)})
  IN IF m # "" THEN "test " \o v.tag \o ": " \o m ELSE ""
BadWarning(v, f) ==
  LET of == {x \in RangeOf(f.got) : x.w = v.name}
  IN IF {<<c.h, c.n>> : c \in RangeOf(v.counts)} # {<<x.h, Count(f.got, x.h, v.name)>> : x \in of} THEN v.name \o " counts " \o ToString(v.counts)
     ELSE IF ~Exactly(v.hs, {x.h : x \in of}) THEN v.name \o " handlers " \o ToString(v.hs)
     ELSE IF ~Exactly(v.ts, {Test(x) : x \in of}) THEN v.name \o " tests " \o ToString(v.ts)
     ELSE IF ~Sorted(v.hs, LAMBDA h : HName(h)) THEN v.name \o " handlers out of order" ELSE ""
(* The summary last given for a handler that can be looked up. *)
Summaries(h, f) == SelectSeq(f.says, LAMBDA l : \E i \in DOMAIN R.lookup : R.lookup[i].name = l.a /\ R.lookup[i].tag = h)
BadSummary(v, f) ==
  LET s == Summaries(v.tag, f)
      w == IF s = <<>> THEN [b |-> FALSE, c |-> <<>>] ELSE s[Len(s)]
  IN IF R.nosum THEN ""
     ELSE IF v.hassum # w.b THEN v.tag \o " has summary: " \o ToString(v.hassum)
     ELSE IF {<<l.name, l.url>> : l \in RangeOf(v.links)} # {<<l.name, l.url>> : l \in RangeOf(w.c)} THEN v.tag \o " links " \o ToString(v.links) ELSE ""
FirstBad(s, F(_)) == LET b == SelectInSeq(s, LAMBDA v : F(v) # "") IN IF b = 0 THEN "" ELSE F(s[b])
Wrong ==
  IF R.panic # "" THEN R.panic ELSE IF R.err # "" THEN "error " \o R.err
  ELSE LET f == IF R.mode = "managers" THEN Told ELSE Read
           h == FirstBad(R.handlers, LAMBDA v : BadHandler(v, f))
           t == FirstBad(R.tests, LAMBDA v : BadTest(v, f))
           w == FirstBad(R.ws, LAMBDA v : BadWarning(v, f))
       IN IF ~Exactly(Map(R.handlers, LAMBDA v : v.tag), f.hs) THEN "handlers " \o ToString(Map(R.handlers, LAMBDA v : v.tag)) \o " instead of " \o ToString(f.hs)
          ELSE IF h # "" THEN h
          ELSE IF ~Exactly(Map(R.tests, LAMBDA v : v.tag), {Test(x) : x \in RangeOf(f.got)})
          THEN "tests " \o ToString(Map(R.tests, LAMBDA v : v.tag)) \o " instead of " \o ToString({Test(x) : x \in RangeOf(f.got)})
          ELSE IF t # "" THEN t ELSE IF w # "" THEN w
          ELSE FirstBad(R.handlers, LAMBDA v : BadSummary(v, f))
TraceInit == p = 1 /\ TLCSet(1, 0) /\ st = 0 /\ lines = 0
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED <<st, lines>>
TraceSpec == TraceInit /\ [][TraceNext]_<<st, lines, p>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
