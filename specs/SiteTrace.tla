------------------------------ MODULE SiteTrace ------------------------------
(* Validates the pages of the server against what it has loaded.             *)
EXTENDS Loaded
Says(cond, msg) == IF cond THEN "" ELSE msg
(* The first complaint. *)
First(ms) == FirstBad(ms, LAMBDA m : m)
Ref(to, name) == <<to, name>>
Refs(s) == Map(s, LAMBDA x : Ref(x.to, x.name))
(* ---- menus and lists, the same on all pages ---- *)
BenchTag(t) == "Bench." \o t
Checks == {t \in db.wts : Starts(t, "Verify.")}
HandlerLinks == {<<h, db.hname[h]>> : h \in db.hs}
TestLinks == {<<BenchTag(t), db.tname[t]>> : t \in db.ts}
CheckLinks == {<<t, db.cname[t]>> : t \in Checks}
KeeperLinks == {<<k.tag, k.tag>> : k \in RangeOf(db.keepers)}
TextLinks == {<<"text/" \o t.name \o "/display.html", t.name>> : t \in {x \in RangeOf(db.texts) : x.text # ""}}
OtherLinks == {<<"index.html", "Home">>, <<"warnings.html", "Warnings">>, <<"guts.html", "Guts">>} \cup TextLinks
BadMenu(m, what, links, on, sorted) ==
  IF ~Exactly(Refs(m), links) THEN "menu of " \o what \o " " \o ToString(Refs(m)) \o " instead of " \o ToString(links)
  ELSE IF sorted /\ ~Sorted(Map(m, LAMBDA x : x.name)) THEN "menu of " \o what \o " out of order"
  ELSE LET o == {x.to : x \in {y \in RangeOf(m) : y.on}}
           w == {on} \cap {l[1] : l \in links}
       IN Says(o = w, "menu of " \o what \o " is at " \o ToString(o) \o " instead of " \o ToString(w))
BadMenus(g, h, t, k, o) ==
  IF Len(g.menus) # 5 THEN "number of menus"
  ELSE First(<<BadMenu(g.menus[1], "handlers", HandlerLinks, h, TRUE), BadMenu(g.menus[2], "tests", TestLinks, t, TRUE),
             BadMenu(g.menus[3], "checks", CheckLinks, t, TRUE), BadMenu(g.menus[4], "scores", KeeperLinks, k, FALSE),
             BadMenu(g.menus[5], "other pages", OtherLinks, o, FALSE)>>)
To(dir, t) == "/go-slog/" \o dir \o "/" \o Url(db.urls, t) \o ".html"
BadList(l, what, links) == Says(Exactly(Refs(l), links), "list of " \o what \o " " \o ToString(Refs(l)) \o " instead of " \o ToString(links))
BadHome(g) ==
  IF Len(g.lists) # 5 THEN "number of lists"
  ELSE First(<<BadList(g.lists[1], "handlers", {<<To("handler", l[1]), l[2]>> : l \in HandlerLinks}),
             BadList(g.lists[2], "tests", {<<To("test", l[1]), l[2]>> : l \in TestLinks}),
             BadList(g.lists[3], "checks", {<<To("test", l[1]), l[2]>> : l \in CheckLinks}),
             BadList(g.lists[4], "scores", {<<"/go-slog/scores/" \o l[1] \o "/summary.html", l[2]>> : l \in KeeperLinks}),
             BadList(g.lists[5], "other pages", {<<"/go-slog/warnings.html", "Warnings">>, <<"/go-slog/guts.html", "Guts">>} \cup TextLinks)>>)
(* ---- tables of records ---- *)
BadRecords(g, of, first, Name(_)) ==
  IF of = {} THEN Says(g.tables = <<>> /\ g.images = <<>>, "tables without data")
  ELSE IF Len(g.tables) # 1 THEN "number of tables"
  ELSE LET t == g.tables[1]
           Fits(r, d) == Len(r) = 6 /\ r[1] = Name(d) /\ \A i \in 2 .. 6 : r[i] = Cell(d.v, t.head[i], db)
           bad == {r \in RangeOf(t.rows) : ~\E d \in of : Fits(r, d)}
           lost == {d \in of : ~\E r \in RangeOf(t.rows) : Fits(r, d)}
       IN IF Len(t.head) # 6 \/ t.head[1] # first \/ {t.head[i] : i \in 2 .. 6} # Label THEN "columns " \o ToString(t.head)
          ELSE IF bad # {} THEN "row " \o ToString(CHOOSE r \in bad : TRUE) \o " but the input says " \o ToString({d \in of : Name(d) = (CHOOSE r \in bad : TRUE)[1]})
          ELSE IF lost # {} THEN "no row for " \o ToString(CHOOSE d \in lost : TRUE)
          ELSE Says(Len(t.rows) = Cardinality(of), "rows " \o ToString(Len(t.rows)))
Items == <<"Nanos", "MemAllocs", "MemBytes", "GbPerSec">>
BadImages(g, of, tag, name) ==
  IF of = {} THEN ""
  ELSE Says(Exactly(Refs(g.images), {<<"/go-slog/chart/" \o Url(db.urls, tag) \o "/" \o Items[i] \o ".svg",
                                       name \o <<" Ns/Op", " Allocs/Op", " Bytes/Op", " GB/Sec">>[i]>> : i \in 1 .. 4}), "charts " \o ToString(Refs(g.images)))
(* ---- warnings ---- *)
(* The lines of a text; a reference to a line of a source file is shown as two. *)
RECURSIVE Split(_, _, _)
Split(s, i, j) == IF j > Len(s) THEN <<SubSeq(s, i, Len(s))>> ELSE IF Ch(s, j) = "\n" THEN <<SubSeq(s, i, j - 1)>> \o Split(s, j + 1, j + 1) ELSE Split(s, i, j + 1)
Call(l) == LET i == SelectInSeq(db.calls, LAMBDA c : c.line = l) IN IF i = 0 THEN [line |-> l, lines |-> <<l>>, to |-> ""] ELSE db.calls[i]
Extra(text) == FoldLeft(LAMBDA a, l : a \o SelectSeq(Call(l).lines, LAMBDA x : x # ""), <<>>, Split(text, 1, 1))
Linked(text) == FoldLeft(LAMBDA a, l : IF Call(l).to = "" THEN a ELSE Append(a, <<Call(l).to, Call(l).lines[2]>>), <<>>, Split(text, 1, 1))
(* A record may be shown with other space between its parts. *)
RECURSIVE Strip(_, _, _)
Strip(s, i, in) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
       IN IF in /\ c = "\\" THEN SubSeq(s, i, IF i < Len(s) THEN i + 1 ELSE i) \o Strip(s, i + 2, in)
          ELSE IF c = "\"" THEN c \o Strip(s, i + 1, ~in)
          ELSE IF ~in /\ c \in {" ", "\t", "\n"} THEN Strip(s, i + 1, in)
          ELSE c \o Strip(s, i + 1, in)
Bared(s) == Strip(s, 1, FALSE)
InstWant(x, Name(_)) == [name |-> Name(x), extra |-> Extra(x.text), links |-> Linked(x.text), has |-> x.rec # "", log |-> Bared(x.rec)]
InstGot(i) == [name |-> i.name, extra |-> i.extra, links |-> Refs(i.links), has |-> i.has, log |-> Bared(i.log)]
BadWarn(l, w, of, sums, Name(_)) ==
  LET want == Map(SelectSeq(of, LAMBDA x : Severity(x.level) = l.name /\ x.w = w.name), LAMBDA x : InstWant(x, Name))
      got == Map(w.insts, InstGot)
  IN IF ~\E x \in sums : Severity(x[2]) = l.name /\ x[3] = w.name /\ x[4] = w.summary THEN w.name \o " says " \o w.summary
     ELSE Says(Same(got, want), "instances of " \o w.name \o " " \o ToString(got) \o " instead of " \o ToString(want))
BadWarnings(g, of, sums, Name(_)) ==
  LET ls == Map(g.warnings, LAMBDA l : l.name)
      Ws(l) == {x[3] : x \in {y \in sums : Severity(y[2]) = l}}
  IN IF ~Exactly(ls, {Severity(x[2]) : x \in sums}) THEN "severities " \o ToString(ls)
     ELSE IF \E i \in 1 .. Len(ls) - 1 : Rank(ls[i]) < Rank(ls[i + 1]) THEN "severities out of order"
     ELSE FirstBad(g.warnings, LAMBDA l : IF ~Exactly(Map(l.ws, LAMBDA w : w.name), Ws(l.name)) THEN "warnings " \o ToString(Map(l.ws, LAMBDA w : w.name)) \o " at " \o l.name \o " instead of " \o ToString(Ws(l.name))
                                          ELSE IF ~Sorted(Map(l.ws, LAMBDA w : w.name)) THEN "warnings out of order"
                                          ELSE FirstBad(l.ws, LAMBDA w : BadWarn(l, w, of, sums, Name)))
(* ---- pages ---- *)
FromFn(x) == (IF x.src = "" THEN "" ELSE x.src \o ": ") \o Plain(db.checks, x.fn)
BadHandler(r, h) ==
  LET g == r.page
      of == {d \in db.data : d.h = h}
      name == IF of = {} THEN h ELSE db.hname[h]
      says == SelectSeq(db.says, LAMBDA s : s.known /\ s.h = h)
      last == says[Len(says)]
  IN First(<<BadMenus(g, h, "", "", ""), Says(g.title = "Handler " \o name, "title " \o g.title),
           BadRecords(g, of, "Benchmark", LAMBDA d : db.tname[d.t]), BadImages(g, of, h, name),
           BadWarnings(g, SelectSeq(db.got, LAMBDA x : x.h = h), {x \in db.sum : x[1] = h}, FromFn),
           (* summaries are shown for handlers with reports *)
           IF says = <<>> \/ h \notin db.whs THEN Says(~g.summary /\ g.refs = <<>>, "summary " \o ToString(g.refs))
           ELSE IF ~last.text THEN "" 
           ELSE Says(g.summary /\ Exactly(Refs(g.refs), {<<l.url, l.name>> : l \in RangeOf(last.links)}), "references " \o ToString(Refs(g.refs)) \o " instead of " \o ToString(last.links))>>)
BadTest(r, t) ==
  LET g == r.page
      of == {d \in db.data : BenchTag(d.t) = t}
      name == IF of # {} THEN db.tname[(CHOOSE d \in of : TRUE).t] ELSE IF t \in db.wts THEN db.cname[t] ELSE t
      got == SelectSeq(db.got, LAMBDA x : Test(x) = t)
  IN First(<<BadMenus(g, "", t, "", ""), Says(g.title = "Test " \o name, "title " \o g.title),
           BadRecords(g, of, "Handler", LAMBDA d : db.hname[d.h]), BadImages(g, of, t, name),
           BadWarnings(g, got, {x \in db.sum : \E y \in RangeOf(got) : y.h = x[1] /\ y.level = x[2] /\ y.w = x[3]}, LAMBDA x : Plain(db.plain, x.h))>>)
BadMatrix(r) ==
  LET g == r.page
      cat == FoldLeft(LAMBDA a, l : a \o [i \in DOMAIN l.warns |-> [level |-> l.level, name |-> l.warns[i], summary |-> l.texts[i]]], <<>>, db.catalog)
      u == g.usage
      Who(w) == {Plain(db.plain, x.h) : x \in {y \in RangeOf(db.got) : y.w = w}}
      Which(w) == {db.cname[Test(x)] : x \in {y \in RangeOf(db.got) : y.w = w}}
      t == g.tables[1]
      Number(n) == IF n = 0 THEN "" ELSE ToString(n)
      RowFor(w) == {r2 \in RangeOf(t.rows) : Len(r2) = Len(t.head) + 0 /\ r2[2] = w}
      heads == [i \in 1 .. Len(t.head) - 1 |-> t.head[i + 1]]
      counted == {w.name : w \in RangeOf(cat)}
      badrow == {w \in counted : ~\E q \in RangeOf(t.rows) :
                   /\ Len(q) = Len(heads) + 2 /\ q[2] = w
                   /\ \A n \in RangeOf(heads) : LET is == {i \in DOMAIN heads : heads[i] = n} hs == {h \in db.whs : db.wname[h] = n}
                                                IN \E i \in is : \E h \in hs : q[i + 2] = Number(Count(db.got, h, w))}
  IN First(<<BadMenus(g, "", "", "", "warnings.html"), Says(g.title = "Warnings", "title " \o g.title),
           Says(Map(u, LAMBDA x : <<x.level, x.name, x.summary>>) = Map(cat, LAMBDA x : <<x.level, x.name, x.summary>>), "catalog " \o ToString(Map(u, LAMBDA x : x.name))),
           FirstBad(u, LAMBDA x : IF x.on # (Who(x.name) # {}) THEN "usage of " \o x.name
                                  ELSE IF RangeOf(x.handlers) # Who(x.name) THEN "handlers with " \o x.name \o " " \o ToString(x.handlers) \o " instead of " \o ToString(Who(x.name))
                                  ELSE Says(RangeOf(x.tests) = Which(x.name), "tests with " \o x.name \o " " \o ToString(x.tests) \o " instead of " \o ToString(Which(x.name)))),
           IF Len(g.tables) # 1 THEN "number of tables"
           ELSE IF ~Same(heads, Map(SetToSeq(db.whs), LAMBDA h : db.wname[h])) THEN "handlers " \o ToString(heads)
           ELSE IF ~Sorted(heads) THEN "handlers out of order"
           ELSE Says(badrow = {}, "counts of " \o ToString(badrow) \o " in " \o ToString(t.rows))>>)
BadGuts(r) ==
  LET g == r.page
      Pairs(i) == RangeOf(g.tables[i].rows)
      want == <<{<<l[1], l[2]>> : l \in HandlerLinks}, TestLinks, {<<h, db.wname[h]>> : h \in db.whs}, {<<t, db.cname[t]>> : t \in db.wts}>>
  IN First(<<BadMenus(g, "", "", "", "guts.html"),
           IF Len(g.tables) # 4 THEN "number of tables"
           ELSE FirstBad(<<1, 2, 3, 4>>, LAMBDA i : Says(Pairs(i) = want[i], "tags " \o ToString(Pairs(i)) \o " instead of " \o ToString(want[i])))>>)
(* ---- scores ---- *)
RECURSIVE OnlyZeros(_)
OnlyZeros(s) == s = "" \/ (Ch(s, 1) = "0" /\ OnlyZeros(From(s, 2)))
(* Halves of the last digit may go either way. *)
Fixed(s, n) == IF s = "NaN" THEN {s} ELSE {Fix(s, n, db)} \cup (LET d == Point(s, 1) t == From(s, d + 1) IN IF Len(t) > n /\ Ch(t, n + 1) = "5" /\ OnlyZeros(From(t, n + 2)) THEN {Rounded(s, n, db, FALSE)} ELSE {})
Micro(s) == LET d == Point(s, 1) w == Pad(SubSeq(s, 1, d - 1), 4) IN SubSeq(w, 1, Len(w) - 3) \o "." \o SubSeq(w, Len(w) - 2, Len(w)) \o From(s, d + 1)
Hundredths(v) == Fixed(v, 2)
Of(cells, c) == {x.v : x \in {y \in RangeOf(cells) : y.c = c}}
BadTable(t, rows, links, Want(_, _)) ==
  LET Fits(q, x) == Len(q) = Len(t.head) /\ \A i \in 2 .. Len(q) : q[i] \in Want(x, t.head[i])
      at(x) == {i \in DOMAIN t.rows : t.rows[i][1] = db.hname[x.h] /\ (~links \/ t.links[i] = To("handler", x.h))}
      bad == {x \in RangeOf(rows) : ~\E i \in at(x) : Fits(t.rows[i], x)}
  IN IF Len(t.rows) # Len(rows) THEN "table " \o t.id \o " has " \o ToString(Len(t.rows)) \o " rows"
     ELSE IF links /\ Len(t.links) # Len(t.rows) THEN "table " \o t.id \o " without links"
     ELSE Says(bad = {}, "table " \o t.id \o " shows " \o ToString({t.rows[i] : i \in UNION {at(x) : x \in bad}}) \o " but the scores are " \o ToString(bad) \o " under " \o ToString(t.head))
BadScores(r, tag) ==
  LET g == r.page
      known == \E k \in RangeOf(db.keepers) : k.tag = tag
      shown == IF known THEN tag ELSE "Default"
      k == CHOOSE x \in RangeOf(db.keepers) : x.tag = shown
      ax == [w \in {"X", "Y"} |-> CHOOSE a \in RangeOf(k.axes) : a.which = w]
      Table(id) == LET i == SelectInSeq(g.tables, LAMBDA t : t.id = id) IN IF i = 0 THEN [id |-> id, head |-> <<>>, rows |-> <<>>, links |-> <<>>] ELSE g.tables[i]
      Row(a, h) == CHOOSE x \in RangeOf(a.rows) : x.h = h
      main == BadTable(Table("score-table-scores"), ax["X"].rows, TRUE,
                       LAMBDA x, c : UNION {Hundredths(Row(ax[w], x.h).score) : w \in {v \in {"X", "Y"} : ax[v].name = c}})
      Types(x, c) == UNION {Hundredths(v) : v \in Of(x.types, c)}
      Tests(a, c) == {t \in RangeOf(a.tests) : \E n \in db.ts : BenchTag(n) = t /\ db.tname[n] = c}
      Record(h, t, F(_), zero) == LET d == {y \in db.data : y.h = h /\ BenchTag(y.t) = t} IN IF d = {} THEN {zero} ELSE F((CHOOSE y \in d : TRUE).v)
      Data(a, x, c, F(_), zero) == IF Of(x.types, c) # {} THEN Types(x, c) ELSE UNION {Record(x.h, t, F, zero) : t \in Tests(a, c)}
      heads(a, id) == LET hd == Table(id).head IN {"Score"} \cup {db.tname[n] : n \in {m \in db.ts : BenchTag(m) \in RangeOf(a.tests)}} \subseteq RangeOf(hd)
      levels(id) == LET hd == Table(id).head IN {"Required", "Implied", "Suggested", "Administrative", "Score"} \subseteq RangeOf(hd)
      ids(a) == IF a.kind = "bench" THEN {"score-table-" \o a.which \o "-" \o n : n \in {"details", "micros", "allocs", "bytes"}} ELSE {"warn-table-" \o a.which \o "-" \o n : n \in {"details", "counts"}}
      axis(a) ==
        LET id(n) == (IF a.kind = "bench" THEN "score-table-" ELSE "warn-table-") \o a.which \o "-" \o n
            cols == {i \in ids(a) : IF a.kind = "bench" THEN ~heads(a, i) ELSE ~levels(i)}
        IN IF cols # {} THEN "columns of " \o ToString(cols)
           ELSE IF a.kind = "bench"
           THEN First(<<BadTable(Table(id("details")), a.rows, TRUE, LAMBDA x, c : IF Of(x.types, c) # {} THEN Types(x, c) ELSE UNION {UNION {Hundredths(v) : v \in Of(x.tests, t)} : t \in Tests(a, c)}),
                      BadTable(Table(id("micros")), a.rows, TRUE, LAMBDA x, c : Data(a, x, c, LAMBDA v : Fixed(Micro(v.ns), 3), Fix("0", 3, db))),
                      BadTable(Table(id("allocs")), a.rows, TRUE, LAMBDA x, c : Data(a, x, c, LAMBDA v : {Whole(Opt(v.allocs), db)}, "0")),
                      BadTable(Table(id("bytes")), a.rows, TRUE, LAMBDA x, c : Data(a, x, c, LAMBDA v : {Whole(Opt(v.bytes), db)}, "0"))>>)
           ELSE First(<<BadTable(Table(id("details")), a.rows, TRUE, LAMBDA x, c : Types(x, c) \cup UNION {Hundredths(v) : v \in Of(x.levels, c)}),
                      BadTable(Table(id("counts")), a.rows, TRUE, LAMBDA x, c : Types(x, c) \cup {Whole(v, db) : v \in Of(x.counts, c)})>>)
      charts == {<<"/go-slog/scores/" \o shown \o "/" \o n \o "/chart.svg", "Handler Scoring">> : n \in {"0", "1", "2", "3"}}
  IN First(<<BadMenus(g, "", "", shown, ""), Says(g.title = "Handler Scores", "title " \o g.title), main, axis(ax["X"]), axis(ax["Y"]),
           Says(Exactly(Refs(g.images), charts), "charts " \o ToString(Refs(g.images)))>>)
BadText(r, name) ==
  LET t == SelectSeq(db.texts, LAMBDA x : x.name = name /\ x.text # "")
      g == r.page
  IN IF t # <<>> THEN First(<<BadMenus(g, "", "", "", "text/" \o name \o "/display.html"), Says(g.title = "Text File " \o name, "title " \o g.title), Says(g.text = t[1].text, "text " \o g.text)>>)
     ELSE First(<<BadMenus(g, "", "", "", ""), Says(g.about = "Text Not Found" /\ g.text = "Path: " \o name, "unknown text is " \o g.about \o g.text)>>)
Page(r) ==
  CASE r.what = "home" -> First(<<BadMenus(r.page, "", "", "", "index.html"), BadHome(r.page)>>)
    [] r.what = "handler" -> BadHandler(r, r.name)
    [] r.what = "test" -> BadTest(r, r.name)
    [] r.what = "warnings" -> BadMatrix(r)
    [] r.what = "guts" -> BadGuts(r)
    [] r.what = "scores" -> BadScores(r, r.name)
    [] r.what = "text" -> BadText(r, r.name)
    [] OTHER -> ""
Wrong(r) ==
  LET m == IF r.what = "unknown" THEN Says(r.code = 404, "status " \o ToString(r.code))
           ELSE IF r.what = "chart" THEN ""
           ELSE IF r.code # 200 THEN "status " \o ToString(r.code) ELSE Page(r)
  IN IF m = "" THEN "" ELSE r.path \o ": " \o m
TraceSpec == LoadedInit /\ [][LoadedNext(Wrong)]_<<st, lines, p, db>>
=============================================================================
