import glob, os
import warngen
CFG = ("SPECIFICATION Spec\nINVARIANTS Complete NoConflict EmitSched\n%sCHECK_DEADLOCK FALSE\nVIEW view\nCONSTANTS Threads = {%s}\n Asks = {%s}\n Length = %d\n Items = {1, 2}\n Variant = \"%s\"\n Emit = %s\n")


def cfg(threads, asks, length, variant, emit=False):
    n = lambda k: ", ".join(str(i + 1) for i in range(k))
    text = CFG % ("" if emit else "PROPERTY AllAnswered\n", n(threads), n(asks), length, variant, "TRUE" if emit else "FALSE")
    return text.replace("VIEW view\n", "") if emit else text


TESTS = ["Alpha", "Beta", "Gamma", "Delta", "Zeta", "Simple"]
HTAGS = ["SlogJSON", "ChanchalZap", "MadkinsFlash", "Azz", "PhsymZerolog", "X9y"]
NAMES = ["slog/JSONHandler", "chanchal/zaphandler", "a", "b", "madkins/flash", "phsym/zeroslog"]
WARNS = [w for w in warngen.WARNS if w[0] != "Unused"] + [("Duplicates", 2, "Duplicate field(s) found"), ("DefaultLevel", 4, "Handler doesn't default to slog.LevelInfo")]


def order(xs, name=lambda x: x):
    return sorted(xs, key=lambda x: (name(x).encode(), x.encode()))


def program(rng, n, large=False):
    """Data with a name of its own for every handler and test, as some caches are global."""
    mark = "q%d" % n
    k = rng.randint(1, 6 if not large else 30)
    tags = [t + mark for t in rng.sample(HTAGS + [t + u for t in HTAGS for u in "ABCDE" if large], k)]
    names = rng.sample(NAMES + [t + u for t in NAMES for u in "stuvw" if large], k)
    if k > 1 and rng.random() < 0.2:
        names[1] = names[0]
    name = dict(zip(tags, names))
    tests = [t + mark for t in rng.sample(TESTS, rng.randint(1, len(TESTS)))]
    lines, ran = [], []
    for h in tags:
        lines.append('# Handler[%s]="%s"' % (h, name[h]))
        for t in tests:
            if rng.random() < 0.8:
                ran.append((h, t))
                lines.append("Benchmark%s/Benchmark%s-8 %d %d.5 ns/op %d B/op %d allocs/op" % (h, t, rng.randint(1, 999), rng.randint(1, 9999), rng.randint(0, 99), rng.randint(0, 9)))
    rng.shuffle(lines)
    bh, bt = {h for h, _ in ran}, {"Bench." + t for _, t in ran}
    # The tag of a name that several handlers share depends on the map; give reports to names of one handler.
    reports = [x for x in names if names.count(x) == 1] + ["Zother" + mark]
    wh, wt, texts = set(), set(), []
    for src, pre in (("Bench", "# "), ("Verify", "")):
        out = []
        for x in rng.sample(reports, rng.randint(0, len(reports))):
            tag = next((t for t in tags if name[t] == x), x)
            out.append(pre + "Warnings for %s:" % x)
            ws = rng.sample(WARNS, rng.randint(1, 6))
            for l in (4, 3, 2, 1):
                mine = [w for w in ws if w[1] == l]
                if mine:
                    out.append(pre + "  " + warngen.LEVELS[l])
                for w in mine:
                    out.append(pre + "  %4d [%s] %s" % (1, w[0], w[2]))
                    for _ in range(rng.randint(1, 3)):
                        t = rng.choice(TESTS) + mark
                        out.append(pre + "         %s%s: %s" % ("Benchmark" if src == "Bench" else "Test", t, rng.choice(["text", "x: y", "missing: a (/snap/go/1/src/testing/slogtest/slogtest.go:61)"])))
                        if rng.random() < 0.5:
                            out.append(pre + '           {"a":1,"b":{"c":[1,2]}}')
                        wt.add(src + "." + t)
            wh.add(tag)
            if rng.random() < 0.5 and src == "Verify":
                out += [":[ " + x, ":: Handler ^x^ does _this_", ":> x --> http://y", ":]"]
        texts.append("\n".join(out))
    wname = lambda t: name.get(t, t)
    base = lambda t: t.split(".")[1]
    qs = [("bench.handlers", order(bh, lambda t: name[t])), ("bench.tests", order(bt, base)), ("bench.lookup", None), ("bench.text", None), ("warn.handlers", order(wh, wname)),
          ("warn.tests", order(wt, base)), ("warn.source|Bench", order([t for t in wt if t.startswith("Bench.")], base)),
          ("warn.source|Ben", []), ("warn.source|Verif", []), ("warn.source|Bench.A", []), ("warn.source|", []),
          ("warn.source|Verify", order([t for t in wt if t.startswith("Verify.")], base)), ("score.handlers", order(bh, lambda t: name[t])), ("score.tests", order(bt, base)),
          ("score.docs", None), ("warning.levels", None)]
    if len(set(names)) < k:  # which of the handlers that share a name it finds is arbitrary
        qs = [q for q in qs if q[0] != "bench.lookup"]
    for h in sorted(bh | wh | {"Nobody"}):
        qs += [(q + "|" + h, None) for q in ("bench.handler", "handler.name", "warn.handler", "warn.summary", "score.handler")]
    for t in sorted(bt | wt | {"Bench.None" + mark}):
        qs += [(q + "|" + t, None) for q in ("bench.test", "test.name", "warn.test", "score.test")]
    qs += [("warn.warning|" + w[0], None) for w in WARNS] + [("warn.warning|Missing", None)]
    return dict(bench="\n".join(lines) + "\n" + texts[0] + "\n", verify=texts[1] + "\n", queries=qs)


def plain(q):
    return dict(any=q is None, list=q or [])


def run(ctx):
    rng = ctx.rng
    ctx.model("Queries", cfg(2, 2, 2, "fresh"), "answers computed for each query", workers=8)
    ctx.model("Queries", cfg(2, 2, 2, "locked"), "answers kept under a lock", workers=8)
    ctx.model("Queries", cfg(3, 2, 1, "locked"), "three threads", workers=8)
    if ctx.thorough:
        ctx.model("Queries", cfg(3, 2, 2, "fresh"), "three threads, two queries each", workers=8, mem="12g")
    ctx.model("Queries", cfg(2, 1, 1, "lazy"), "answers kept without a lock", expect="NoConflict")
    ctx.model("Queries", cfg(2, 1, 1, "partial"), "answers published before they are complete", expect="Complete")
    scheds = ctx.generate("Queries", cfg(2, 3, 2, "fresh", True).replace("Items = {1, 2}", "Items = {}"), workers=8, mem="8g")
    scheds += ctx.generate("Queries", cfg(4, 3, 2, "fresh", True).replace("Items = {1, 2}", "Items = {}"), workers=1,
                           args=["-simulate", "num=%d" % ctx.pick(300, 3000), "-depth", "60", "-seed", str(ctx.seed)])
    rng.shuffle(scheds)
    progs = []
    for n, s in enumerate(scheds[:ctx.pick(160, 1500)]):
        p = program(rng, n)
        qs = p["queries"]
        rng.shuffle(qs)
        if rng.random() < 0.5:  # all of one kind
            kind = rng.choice(qs)[0].split("|")[0].split(".")[0]
            qs = [q for q in qs if q[0].startswith(kind)] + qs
        if rng.random() < 0.6:  # without scores
            qs = [q for q in qs if not q[0].startswith("score")]
        n = max(e["q"] for e in s)
        qs = qs[:n]
        progs.append(dict(bench=p["bench"], verify=p["verify"], queries=[q[0] for q in qs], want=[plain(q[1]) for q in qs], sched=s, times=rng.choice([1, 2, 8]), rounds=rng.choice([1, 3]), alone=[], answers=[], panic=""))
    # Everything at once, several times.
    for n in range(ctx.pick(24, 200)):
        p = program(rng, 100000 + n)
        qs = p["queries"]
        rng.shuffle(qs)
        qs = [q for q in qs if n % 3 == 0 or not q[0].startswith("score")][:ctx.pick(40, 80)]
        s = [dict(k="begin", t=i, q=i + 1) for i in range(len(qs))]
        progs.append(dict(bench=p["bench"], verify=p["verify"], queries=[q[0] for q in qs], want=[plain(q[1]) for q in qs], sched=s, times=4, rounds=2, alone=[], answers=[], panic=""))
    # The same few queries asked by many goroutines at once, over and over, with more data.
    for n in range(ctx.pick(24, 300)):
        p = program(rng, 200000 + n, True)
        qs = [q for q in p["queries"] if n % 4 == 0 or not q[0].startswith("score")]
        lists = [q for q in qs if q[1]]
        qs = rng.sample(lists, min(len(lists), 2)) if n % 2 else rng.sample(qs, min(len(qs), 3))
        s = [dict(k="begin", t=i, q=i + 1) for i in range(len(qs))]
        progs.append(dict(bench=p["bench"], verify=p["verify"], queries=[q[0] for q in qs], want=[plain(q[1]) for q in qs], sched=s, times=4, rounds=ctx.pick(30, 100), alone=[], answers=[], panic=""))
    logs = os.path.join(ctx.work, "race")
    full = ctx.drive("queries", progs, jobs=8, race=True, timeout=800, env=dict(GORACE="halt_on_error=0 exitcode=0 log_path=%s" % logs))
    ctx.events = sum(len(p["answers"]) for p in full)
    ctx.notes["queries_answered_concurrently"] = ctx.events
    races = [r for r in (open(f).read() for f in sorted(glob.glob(logs + "*"))) if "DATA RACE" in r]
    for r in races[:3]:
        where = [l.strip().split(" ")[0] for l in r.splitlines() if ".go:" in l and "/usr" not in l][:4]
        ctx.violation("conflicting access to the loaded data: " + " ".join(where), dict(race=r[:5000]))
    for p in full[:3]:
        ctx.sample((p["queries"], p["sched"], [a["text"] for a in p["answers"]][:4]))
    for i, why in ctx.validate("QueriesTrace", full):
        ctx.violation(why, full[i])
