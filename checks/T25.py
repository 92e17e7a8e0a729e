import D18
import warngen
CFG = ("SPECIFICATION Spec\nINVARIANTS Complete InPlace EmitShape\nCHECK_DEADLOCK FALSE\nCONSTANTS Tests = %d\n Handlers = %d\n Warns = %d\n Variant = \"%s\"\n Emit = %s\n")
LANGS = [([], ",", "."), (["-language", "en"], ",", "."), (["-language=de"], ".", ","), (["-language", "fr"], "\u00a0", ","), (["-language=zz-bad-tag-x"], ",", ".")]


MOREH, MORET, MORE = ["Wide%s" % c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"], ["Broad%s" % c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"], ["more/h%d" % i for i in range(30)]


def columns(rng):
    v = D18.columns(rng)
    for k in ("ns", "mb"):
        w, _, f = v[k].partition(".")
        if f[2:3] == "5":  # no ties
            v[k] = w + "." + f[:2] + "6"
    return v


def title(n):
    return "/".join(p[:1].upper() + p[1:].lower() for p in n.split("/")).replace("/", " ")


def some(rng, usual, more, n):
    return rng.sample(usual, n) if n <= len(usual) else rng.sample(usual + more, n)


def program(rng, shape, extra=None):
    """Benchmarks and warnings for who has what in shape, or random ones."""
    nt = max([d[0] for d in shape["data"]] + [1])
    nh = max([d[1] for d in shape["data"]] + [w[0] for w in shape["warns"]] + [1])
    hs, ts, ns = some(rng, D18.HS, MOREH, nh), some(rng, D18.TS, MORET, nt), rng.sample(D18.NAMES, min(nh, len(D18.NAMES)))
    bench = [dict(k="D", h=hs[h - 1], t=ts[t - 1], v=columns(rng), c="") for t, h in shape["data"]]
    bench += [dict(bench[rng.randrange(len(bench))], v=columns(rng)) for _ in range(rng.choice([0, 0, 1, 2])) if bench]  # repeated
    named = {}
    for h, n in zip(hs, ns):
        if rng.random() < 0.7:
            named[h] = n
            bench.append(dict(k="F", h=h, t="", v=0, c=n))
    rng.shuffle(bench)
    for _ in range(rng.choice([0, 0, 3])):
        bench.insert(rng.randint(0, len(bench)), dict(k="N", h="", t="", v=0, c=rng.choice(D18.NOISE)))
    # Reports by the names known, and by others.
    taken = set(ns) | set(hs)
    free = [n for n in warngen.HNAMES if n not in taken and title(n) not in taken]
    rng.shuffle(free)
    free = MORE[:len(hs)] + free if len(hs) > 8 else free
    who = [named.get(h) or free.pop() for h in hs]
    parts = []
    for _ in range(2):
        ls = []
        for i in rng.sample(range(nh), nh):
            mine = [w for h, w in shape["warns"] if h == i + 1]
            if not mine and rng.random() < 0.8:
                continue
            if rng.random() < 0.6 or not mine:
                ls += warngen.report(rng, who[i])
        if rng.random() < 0.2:
            ls.insert(rng.randint(0, len(ls)), warngen.line("N", rng.choice(warngen.NOISE)))
        parts.append(ls)
    if extra:
        extra(parts, [named.get(h) for h in hs])
    verify = rng.random() < 0.85
    if not verify:
        parts[1] = []
    elif rng.random() < 0.3:
        parts[1] = parts[1] + [warngen.line("E")] + warngen.report(rng, who[0]) + [warngen.line("N", "PASS")]
    # The warning lines of the benchmarks stand between their other lines.
    blines, wlines = [D18.render(rng, l) for l in bench], [warngen.render(rng, l, "# ") for l in parts[0]]
    at = sorted(rng.choice([0, len(blines), rng.randint(0, len(blines))]) for _ in wlines)
    text = []
    for i in range(len(blines) + 1):
        text += [w for a, w in zip(at, wlines) if a == i] + blines[i:i + 1]
    pre = rng.choice(["", "", "# "])
    args, group, point = rng.choice(LANGS)
    return dict(btext="\n".join(text) + "\n", vtext="\n".join(warngen.render(rng, l, pre) for l in parts[1]) + "\n", stdin=rng.random() < 0.3, verify=verify,
                args=args, group=group, point=point, bench=bench, lines=parts[0] + [warngen.line("F", "Verify")] + parts[1], htags=D18.HS + MOREH, ttags=D18.TS + MORET,
                titles=[dict(tag=n, name=title(n)) for n in warngen.HNAMES + D18.NAMES + MORE], plain=[], tests=[], tables=[], warnings=[], strange="")


def run(ctx):
    rng = ctx.rng
    ctx.model("Tabular", CFG % (2, ctx.pick(3, 4), 2, "right", "FALSE"), "all who has what", workers=8, mem="8g")
    ctx.model("Tabular", CFG % (3, 2, 1, "right", "FALSE"), "three tests", workers=8, mem="8g")
    for v in ("stale", "all", "index", "ran"):
        ctx.model("Tabular", CFG % (2, 2, 1, v, "FALSE"), "reports that are " + v, expect="Complete", workers=1)
    shapes = ctx.generate("Tabular", CFG % (2, 3, 1, "right", "TRUE"), workers=8, mem="8g")
    rng.shuffle(shapes)
    shapes = shapes[:ctx.pick(250, 512)]
    pairs = lambda a, b, p: [[i, j] for i in range(1, a + 1) for j in range(1, b + 1) if rng.random() < p]
    for _ in range(ctx.pick(150, 2500)):
        t, h = rng.randint(1, 8), rng.randint(1, 6)
        if rng.random() < 0.04:
            t, h = rng.choice([(1, 28), (28, 1), (2, 15), (15, 2)])
        shapes.append(dict(data=pairs(t, h, rng.choice([0.3, 0.8, 1])), warns=pairs(h, 1, 0.7)))
    full = ctx.drive("tabular", [program(rng, s) for s in shapes], jobs=8, env=dict(TABULAR=ctx.build("./cmd/tabular")))
    ctx.events = sum(len(t["rows"]) for p in full for t in p["tables"]) + sum(len(w["insts"]) for p in full for b in p["warnings"] for l in b["levels"] for w in l["ws"])
    ctx.notes["rows_and_instances_printed"] = ctx.events
    for p in full[:3]:
        ctx.sample((p["btext"], p["tables"], p["warnings"][:1]))
    for i, why in ctx.validate("TabularTrace", full, const=warngen.CONST):
        ctx.violation(why[:1500], full[i])
