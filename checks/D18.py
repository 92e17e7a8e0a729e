CFG = "SPECIFICATION Spec\nINVARIANTS LastCounts OrderFree EmitLines\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n FirstWins = %s\n Emit = %s\n"
HS = ["SlogJSON", "ChanchalZap", "MadkinsFlash", "A", "PhsymZerolog", "X9y", "lower", "A_b", "Über", "slogJSON", "LOWER"]
TS = ["Simple", "BigGroup", "WithAttrsKeyValues", "S", "HTTP2", "Under_score", "Sub/part", "Sub/part#01", "a.b", "simple", "bigGroup"]
NAMES = ["slog/JSONHandler", "chanchal/zaphandler", "a", "b", "madkins/flash", "é"]
COMMENTS = ["", "", "Warnings for a:", "  Implied", "     1 [SourceKey] Source: x", '{"a":1}', "Handler[A]=", 'Handler[A b]="x"', " ", "BenchmarkA/BenchmarkS-8 1 2 ns/op",
            "#", "# x", "<LONG>", "trailing  ", "é %d", 'Handler[]="x"']
NOISE = ["", "goos: linux", "pkg: github.com/madkins23/go-slog/bench", "PASS", "ok  \tgithub.com/x\t1.5s", "BenchmarkSlogJSON", "BenchmarkSlogJSON/BenchmarkSimple-8",
         "BenchmarkSimple-8   \t 100\t 12 ns/op", "BenchmarkA/BenchmarkB-8 \t2024/02/25 07:54:11 WARN x", "  \t 100\t 12 ns/op", "#no blank", "#", "<LONG>",
         "BenchmarkA/Simple-8 \t 100\t 12 ns/op", "BenchmarkA/BenchmarkB-8 \t x\t 12 ns/op", "BenchmarkA/BenchmarkB-8 \t 100\t 12 s/op", "BenchmarkA/BenchmarkB-8 \t 100\t 12 ns/opera",
         " # indented", "x BenchmarkA/BenchmarkB-8 \t 100\t 12 ns/op", "--- FAIL: BenchmarkA/BenchmarkB-8", "BenchmarkA/BenchmarkB-8 \t -3\t 12 ns/op", "BenchmarkA/BenchmarkB-8 \t 100\t n/a ns/op"]


def number(rng, big):
    x = rng.random()
    s = str(rng.randint(0, 10 ** rng.randint(0, big)))
    if x < 0.5:
        s += "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, min(5, 11 - len(s)) if len(s) < 10 else 1)))
    return s


def columns(rng):
    return dict(runs=str(rng.choice([1, 7, 1000000, 428577214, 9223372036854775807, rng.randint(1, 10 ** 9)])), ns=number(rng, 9),
                mb=rng.choice(["", number(rng, 9)]), bytes=rng.choice(["", "0", str(rng.randint(1, 10 ** 9)), "4294967296"]),
                allocs=rng.choice(["", "0", str(rng.randint(1, 10 ** 6))]))


def render(rng, l):
    if l["k"] == "D":
        v = l["v"]
        sp = lambda: rng.choice([" ", "\t", " \t ", "         \t"])
        s = "Benchmark%s/Benchmark%s%s" % (l["h"], l["t"], rng.choice(["-8", "-8", "-128", ""])) + sp() + v["runs"] + sp() + v["ns"] + " ns/op"
        if v["mb"]:
            s += sp() + v["mb"] + " MB/s"
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            s += sp() + number(rng, 5) + rng.choice([" widgets/op", " p99-ns", " %", " GB"])
        if v["bytes"]:
            s += sp() + v["bytes"] + " B/op"
        if v["allocs"]:
            s += sp() + v["allocs"] + " allocs/op"
        return s + rng.choice(["", " "])
    if l["k"] == "F":
        return '# Handler[%s]="%s"' % (l["h"], l["c"])
    return "# " + l["c"] if l["k"] == "C" else l["c"]


def line(rng, m=None):
    """A line, of the kind and with the names of a model's line if given."""
    k = m["k"] if m else rng.choice("DDDDDDDDFCCN")
    l = dict(k=k, h="", t="", v=0, c="")
    if k == "D":
        l.update(h=rng.choice(HS), t=rng.choice(TS), v=columns(rng))
    elif k == "F":
        l.update(h=rng.choice(HS), c=rng.choice(NAMES))
    elif k == "C":
        l.update(c=rng.choice(COMMENTS))
    else:
        l.update(c=rng.choice(NOISE))
    return l


def run(ctx):
    rng = ctx.rng
    ctx.model("Bench", CFG % (ctx.pick(4, 5), "FALSE", "FALSE"), "every sequence of lines", workers=8, mem="8g")
    ctx.model("Bench", CFG % (3, "TRUE", "FALSE"), "the first line of a pair wins", expect="LastCounts")
    cases = ctx.generate("Bench", CFG % (ctx.pick(3, 4), "FALSE", "TRUE"), workers=8, mem="8g")
    rng.shuffle(cases)
    progs = []

    def add(ls):
        passes = [[]]
        for l in ls:
            if rng.random() < 0.08 and len(passes) < 4:
                passes.append([])
            passes[-1].append(l)
        out = []
        for q in passes:
            raw = "\n".join(render(rng, l) for l in q) + rng.choice(["\n", "\n", ""])
            out.append(dict(raw=raw.replace("\n", "\r\n") if rng.random() < 0.05 else raw, lines=q, strange="", err="", panic=""))
        progs.append(dict(tags=HS, passes=out))

    for c in cases[:ctx.pick(1500, 15000)]:
        hs, ts, ns = rng.sample(HS, 2), rng.sample(TS, 2), rng.sample(NAMES, 3)
        cols = [columns(rng), columns(rng)]
        ls = []
        for m in c:
            l = line(rng, m)
            if m["k"] in "DF":
                l["h"] = hs[m["h"] == "hb"]
            if m["k"] == "D":
                l["t"], l["v"] = ts[m["t"] == "tb"], cols[m["v"] - 1]
            if m["k"] == "F":
                l["c"] = ns["abc".index(m["c"][1])]
            if m["k"] == "C" and m["c"] == "":
                l["c"] = ""
            ls.append(l)
        add(ls)
    for _ in range(ctx.pick(500, 5000)):
        add([line(rng) for _ in range(rng.choice([1, 8, 20] + [120] * (rng.random() < 0.06)))])
    full = ctx.drive("benchdata", progs, jobs=8)
    ctx.events = sum(len(q["lines"]) for p in full for q in p["passes"])
    for p in full[:3]:
        ctx.sample((p["passes"][0]["raw"], p["passes"][0]["byhandler"]))
    for i, why in ctx.validate("BenchTrace", full, const="CONSTANTS Depth = 0\n FirstWins = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
