CFG = ("SPECIFICATION Spec\nINVARIANTS FoundByTag ListComplete DuplicatesRefused FlatIsLeaves Opposite EmitCase\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS Depth = %d\n StaleCache = %s\n Replaces = %s\n DropsNested = %s\n Emit = %s\n")
F, T = "FALSE", "TRUE"
APP = ["Default", "Simple", "Size", "+Dedup", "+ReplAttr"]
TAGS = ["", "B", "a", "+", "+Z", "+b", "Zed", "++", "a+", " ", "Über", "default", "+É", "Sizes"]
NAMES = ["slog/JSONHandler", "madkins/flash", "madkins/replattr", "snqk/meld", "veqryn/dedup/Append", "veqryn/dedup/Ignore", "veqryn/dedup/Increment",
         "veqryn/dedup/Overwrite", "veqryn/dedup", "phsym/zeroslog", "x", "y", "Zz"]
BENCH = ["Alpha", "Beta", "Gamma", "Delta"]


def order(tags):
    return [dict(tag=t, special=t.startswith("+")) for t in sorted(set(tags), key=lambda t: t.encode())]


def data(rng):
    n = rng.randint(0, 8)
    names = rng.sample(NAMES, n)
    if rng.random() < 0.03:  # far more than usual
        names += ["more/h%d" % i for i in range(rng.choice([12, 40]))]
        n = len(names)
    tags = ["H" + ("ABCDEFGHIJ"[i] if i < 10 else "K%d" % i) for i in range(n)]
    named = [rng.random() < 0.9 for _ in range(n)]
    if n > 1 and rng.random() < 0.2:
        names[0] = names[1]  # two handlers with one name
    ts = rng.sample(BENCH, rng.randint(1, 4))
    lines, hs, tests = [], [], set()
    for h, name, k in zip(tags, names, named):
        if k:
            lines.append('# Handler[%s]="%s"' % (h, name))
        mine = [t for t in ts if rng.random() < 0.7]
        lines += ["Benchmark%s/Benchmark%s-8 100 %d ns/op %d B/op %d allocs/op" % (h, t, rng.randint(1, 99), rng.randint(0, 99), rng.randint(0, 9)) for t in mine]
        if mine:
            hs.append(dict(name=name if k else h, tag=h))
        tests |= set(mine)
    # Warning reports of some handlers, also ones without benchmarks.
    warn = ""
    for name in rng.sample(names + ["other/handler"], rng.randint(0, n)):
        warn += "Warnings for %s:\n  Required\n     1 [ZvOne] x\n         TestAlpha: y\n" % name
    hs.sort(key=lambda x: (x["name"].encode(), x["tag"]))
    rng.shuffle(lines)
    return dict(raw="\n".join(lines) + "\n", warn=warn, handlers=hs, tests=["Bench." + t for t in sorted(tests)])


def tree(rng, depth=3):
    return [dict(group=False, name=rng.choice(NAMES), items=[]) if depth == 0 or rng.random() < 0.6 else dict(group=True, name="", items=tree(rng, depth - 1))
            for _ in range(rng.randint(0, 4))]


def op(name, **kw):
    return dict(dict(op=name, tag="", kind="none", items=[], names=[], data=0, err=False, id=0, list=[], handlers=[], tests=[], kept=[]), **kw)


def add(rng, tag):
    return op("add", tag=tag, kind=rng.choice(["include", "exclude", "exclude", "none"]), items=tree(rng))


def run(ctx):
    rng = ctx.rng
    ctx.model("Keepers", CFG % (ctx.pick(4, 5), F, F, F, F), "histories of registrations and queries", workers=8, mem="8g")
    ctx.model("Keepers", CFG % (0, F, F, F, F), "filters of nested groups", workers=8)
    ctx.model("Keepers", CFG % (3, T, F, F, F), "the list is never renewed", expect="ListComplete", workers=4)
    ctx.model("Keepers", CFG % (3, F, T, F, F), "duplicates replace", expect="FoundByTag", workers=4)
    ctx.model("Keepers", CFG % (0, F, F, T, F), "later groups are dropped", expect="FlatIsLeaves", workers=4)
    cases = ctx.generate("Keepers", CFG % (ctx.pick(3, 4), F, F, F, T), workers=8, mem="8g")
    trees = ctx.generate("Keepers", CFG % (0, F, F, F, T), workers=8, mem="8g")
    rng.shuffle(cases)
    rng.shuffle(trees)
    progs = []

    def program(ops):
        progs.append(dict(order=order(TAGS + APP + [o["tag"] for o in ops]), ops=ops, data=[data(rng), data(rng)], panic=""))

    for c in cases[:ctx.pick(400, 3000)]:
        to = dict(zip(["", "B", "a", "+", "+b"], rng.sample(TAGS, 5)))
        ops = []
        for h in c:
            o = add(rng, to[h["tag"]]) if h["op"] == "add" else op(h["op"], tag=to[h["tag"]] if h["op"] == "get" else "")
            ops.append(o)
        program(ops + [op("list"), op("get", tag=rng.choice(list(to.values())))])
    # The model's filters, many to a program.
    rename = lambda s, m: [dict(group=x["group"], name=m.get(x["name"], ""), items=rename(x["items"], m)) for x in s]
    trees = trees[:ctx.pick(1000, 20000)]
    for i in range(0, len(trees), 50):
        ops = []
        for t in trees[i:i + 50]:
            m = dict(zip("xy", rng.sample(NAMES, 2)))
            ops.append(op("keep", kind=rng.choice(["include", "exclude"]), items=rename(t, m), names=list(m.values()) + rng.sample(NAMES, 3)))
        program(ops)
    for _ in range(ctx.pick(400, 3000)):
        ops, tags = [], rng.sample(TAGS, rng.randint(1, 8))
        app = False
        for _ in range(rng.choice([5, 15, 40])):
            k = rng.choice(["add", "add", "list", "get", "setup", "ask", "ask", "keep", "app"])
            t = rng.choice(tags + (APP if app else []))
            if k == "add":
                ops.append(add(rng, t))
            elif k == "keep":
                ops.append(op("keep", kind=rng.choice(["include", "exclude", "none"]), items=tree(rng), names=NAMES))
            elif k == "app":
                if rng.random() < 0.3:
                    app = True
                    ops.append(op("app", data=rng.choice([1, 2])))
            elif k == "setup":
                ops += [op("setup", tag=t, data=rng.choice([1, 2])), op("ask", tag=t)]
            else:
                ops.append(op(k, tag=t if k != "list" else ""))
        if app:
            ops += [op("ask", tag=t) for t in APP]
        program(ops)
    full = ctx.drive("keepers", progs, jobs=8)
    ctx.events = sum(len(p["ops"]) for p in full)
    for p in full[-3:]:
        ctx.sample(([(o["op"], o["tag"], o["list"], o["handlers"]) for o in p["ops"]][:12], p["data"][0]["handlers"]))
    for i, why in ctx.validate("KeepersTrace", full, const="CONSTANTS Depth = 0\n StaleCache = FALSE\n Replaces = FALSE\n DropsNested = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
