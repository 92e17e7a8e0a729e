from urllib.parse import quote
import warngen
import webgen
CFG = "SPECIFICATION Spec\nINVARIANTS Exact EmitRun\nCHECK_DEADLOCK FALSE\nCONSTANTS Names = %d\n Items = %d\n Clients = %d\n Depth = %d\n Variant = \"%s\"\n Emit = %s\n"


def asks(rng, p, run):
    """Paths for the charts a model run asks for."""
    hs = sorted({l["h"] for l in p["bench"] if l["k"] == "D"})
    ts = ["Bench." + t for t in sorted({l["t"] for l in p["bench"] if l["k"] == "D"})]
    names = rng.sample(hs, min(2, len(hs))) + rng.sample(ts, min(2, len(ts)))
    items, keepers = rng.sample(webgen.ITEMS, 4), rng.sample(["Default", "Simple", "Size", "Nobody"], 4)
    for a in run:
        if a["k"] == "score":
            yield "/go-slog/scores/%s/%d/chart.svg" % (keepers[a["n"] - 1], a["i"] - 1)
        elif names:
            yield "/go-slog/chart/%s/%s.svg" % (quote(names[(a["n"] - 1) % len(names)]), items[a["i"] - 1])


def run(ctx):
    rng = ctx.rng
    ctx.model("Charts", CFG % (2, 2, 2, ctx.pick(3, 4), "right", "FALSE"), "two clients", workers=8, mem="8g")
    for v in ("noitem", "noname", "nokind", "early"):
        ctx.model("Charts", CFG % (2, 2, 2, 4, v, "FALSE"), "charts kept " + v, expect="Exact", workers=1)
    runs = ctx.generate("Charts", CFG % (4, 4, 3, 24, "right", "TRUE"), workers=1, mem="8g", args=["-simulate", "num=%d" % ctx.pick(60, 600), "-depth", "97", "-seed", str(ctx.seed)])
    progs = []
    for i, r in enumerate(runs):
        t, h = rng.randint(1, 6), rng.randint(1, 6)
        if i % 15 == 14:  # more than usual
            t, h = rng.choice([(2, 24), (24, 2), (1, 13), (13, 1)])
        shape = dict(data=[[a + 1, b + 1] for a in range(t) for b in range(h) if rng.random() < rng.choice([0.6, 1])], warns=[[a + 1, 1] for a in range(h) if rng.random() < 0.7])
        p = webgen.program(rng, shape, markup=False, columns=webgen.charted, clients=4 if i % 4 == 0 else 0)
        p.update(paths=list(asks(rng, p, r)), all=i % 3 == 0 and not p["clients"])
        progs.append(p)
    one, two = [p for p in progs if not p["clients"]], [p for p in progs if p["clients"]]
    full = ctx.drive("server", one, jobs=8) + ctx.drive("server", two, race=True, jobs=4, timeout=800)
    ev, of = webgen.events(full, lambda w: w == "chart")
    ctx.events = len(ev)
    for p in full[:2]:
        ctx.sample((p["btext"], [r["svg"] for r in p["res"]][:4]))
    for i, why in ctx.validate("ChartsTrace", ev, const=warngen.CONST, starts=lambda e: e["k"] == "load"):
        ctx.violation(why[:1500], webgen.brief(full[of[i]], ev[i].get("path")))
