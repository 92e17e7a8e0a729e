ADMIN = [("SkipDedup", 1, "Test depends on dedup order"), ("NoHandlerCreation", 1, "Test depends on unavailable handler creation"),
         ("SkippingTest", 1, "Skipping test"), ("TestError", 1, "Test harness error"), ("Undefined", 1, "Undefined Warnings(s)"),
         ("Unused", 1, "Unused Warnings(s)")]
OWN = [("ZzAlpha", 2, "First warning"), ("ZzBeta", 4, "Second warning"), ("ZzA", 2, "Short name"), ("ZzAlphabet", 2, "Long name"), ("Zz1", 3, "x"),
       ("Aa0", 4, "Strange [summary]: %d"), ("zz", 3, "lower case"), ("Bb", 2, "own suggestion"), ("ZZ", 3, "upper case")]
CAT = [dict(name=n, level=l, summary=s) for n, l, s in ADMIN + OWN]
TEXTS = ["", "", "no 'source' key", "a\nb", "%s %d", "Skipping test", "ZzAlpha", "Unused", "é", "x: y", " "]
RECS = ["", "", '{"a":1}', '{"a":1}\n', '{"a":1}\n\n\n', '{"a":1}\n{"b":2}\n', "text", "{}", "\n"]
CFG = "SPECIFICATION Spec\nINVARIANTS Counted Ordered EmitHist\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Eager = %s\n Emit = %s\n"


def fill(rng, o, prefix):
    """Adds what the model leaves open."""
    fns = ["TestAlpha", "TestBeta"] if prefix == "Test" else ["BenchmarkGamma"]
    o.setdefault("deep", rng.choice([0, 0, 1, 3]))
    if o["op"] == "add":
        o["api"] = rng.choice(["AddWarning", "AddWarningFn", "AddWarningFnText"])
        o["rec"] = rng.choice(RECS)
        o["text"] = rng.choice(TEXTS) if o["api"] != "AddWarningFn" else ""
        o["fn"] = rng.choice(fns + ["Unknown"]) if o["api"] == "AddWarning" else rng.choice(fns + ["Other", "x.y"])
    else:
        o["api"] = ""
        o["fn"] = rng.choice(fns + ["Unknown"])
        if o["op"] == "unused":
            o["rec"] = rng.choice(RECS)
    o.update(res=False, names=[], list=[], panic="")
    return o


def run(ctx):
    rng = ctx.rng
    ctx.model("Warn", CFG % (ctx.pick(4, 5), "FALSE", "FALSE"), "every history of one manager", workers=8)
    ctx.model("Warn", CFG % (3, "TRUE", "FALSE"), "unused notices judged when added", expect="Counted")
    hists = ctx.generate("Warn", CFG % (ctx.pick(3, 4), "FALSE", "TRUE"), workers=8)
    rng.shuffle(hists)
    progs = []

    def add(ops, n):
        k = len(progs)
        names = ["m%d-%s" % (k, x) for x in rng.sample(["a", "b", "c/d", "A", "z-z"], n)]
        mgrs = [dict(name=x, prefix=rng.choice(["Test", "Test", "Benchmark"]), show=rng.choice(["", "# "])) for x in names]
        progs.append(dict(cat=CAT, mgrs=mgrs, ops=[fill(rng, o, mgrs[o["m"] - 1]["prefix"]) for o in ops], closing=[]))

    blank = lambda op, m, w="", ws=(): dict(op=op, m=m, w=w, ws=list(ws), text="", rec="")
    for h in hists[:ctx.pick(900, 8000)]:
        h = [dict(o) for o in h]
        h.insert(rng.randint(0, len(h)), blank("show", 1))
        add(h + [blank("get", 1)], 1)
    names = [c["name"] for c in CAT]
    for i in range(ctx.pick(500, 6000)):
        n = rng.randint(1, 3)
        some = rng.sample(names, rng.randint(2, 8) if i % 25 else 2)
        ops = []
        for _ in range(rng.choice([6, 12, 25]) if i % 25 else 170):
            op = rng.choice(["predefine", "warnonly", "warnonly", "unused", "unused", "add", "add", "add", "skip", "skipif", "has", "haslist", "get", "get", "show"] +
                            ["add"] * (80 if i % 25 == 0 else 0))
            ops.append(blank(op, rng.randint(1, n), rng.choice(some), [rng.choice(some) for _ in range(rng.randint(0, 4))]))
        add(ops + [blank(x, m) for m in range(1, n + 1) for x in ("get", "show", "get")], n)
    full = ctx.drive("warn", progs, jobs=8)
    ctx.events = sum(len(p["ops"]) for p in full)
    for p in full[:2]:
        ctx.sample([p["ops"][-1]["list"], p["closing"]])
    for i, why in ctx.validate("WarnTrace", full, const="CONSTANTS Depth = 0\n Eager = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
