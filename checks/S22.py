CFG = ("SPECIFICATION Spec\nINVARIANTS Bounded Extremes Scored Monotone Selective EmitCase\nCHECK_DEADLOCK FALSE\nCONSTANTS Handlers = {%s}\n Tests = {%s}\n Measures = {%s}\n"
       " MaxV = %d\n MaxW = %d\n EqualCounts = %s\n Inverted = %s\n Emit = %s\n")
MS = ["ns", "bytes", "allocs"]


def cfg(h, t, m, v, w, equal="FALSE", inverted="FALSE", emit="FALSE"):
    s = lambda x, n: ", ".join('"%s%d"' % (x, i + 1) for i in range(n))
    return CFG % (s("h", h), s("t", t), ", ".join('"%s"' % x for x in MS[:m]), v, w, equal, inverted, emit)


def number(rng, m, k, scale):
    """Value k of a measure; the units keep differences exact enough."""
    base, unit = scale[m]
    n = base + k * unit
    if m != "ns":
        return str(n)
    return "%d.%02d" % (n // 100, n % 100) if n % 100 or rng.random() < 0.2 else str(n // 100)


def scales(rng, top):
    out = {}
    for m in MS:
        if m != "ns" and top <= 1 and rng.random() < 0.2:
            out[m] = (2 ** 63, rng.choice([1500, 1600, 3000]))  # such numbers are rounded
            continue
        unit = rng.choice([1, 1, 3, 16, 1000, 10 ** 6])
        out[m] = (rng.choice([0, 0, 1, 7, 1000]) * unit + rng.choice([0, 0, 5]), unit)
    return out


def program(rng, lines, weights, include, exclude):
    """lines: (handler, test, {measure: small number})"""
    scale = scales(rng, max([x for l in lines for x in l[2].values()] or [0]))
    text, obs = [], []
    for h, t, v in lines:
        s = "Benchmark%s/Benchmark%s-8 \t %d\t %s ns/op" % (h, t, rng.choice([1, 1, rng.randint(1, 10 ** 6)]), number(rng, "ns", v["ns"], scale))
        if rng.random() < 0.3:
            s += "\t %d.%02d MB/s" % (rng.randint(0, 999), rng.randint(0, 99))
        text.append(s + "\t %s B/op\t %s allocs/op" % (number(rng, "bytes", v["bytes"], scale), number(rng, "allocs", v["allocs"], scale)))
        obs.append(dict(h=h, t="Bench." + t, v=v))
    ask, askt = sorted({l[0] for l in lines}), sorted({"Bench." + l[1] for l in lines})
    rng.shuffle(ask)
    rng.shuffle(askt)
    return dict(mode="bench", raw="\n".join(text) + "\n", texts=[], lines=obs, facts=0, ask=ask, askt=askt, weights=weights,
                weight={m: weights.get(m, 0) for m in MS}, include=["Bench." + t for t in include] if include is not None else ["*"],
                exclude=["Bench." + t for t in exclude], tests=[], scores=[], panic="")


HS = ["SlogJSON", "A", "MadkinsFlash", "X9", "lower", "Zed", "B", "C"]
TS = ["Simple", "BigGroup", "S", "HTTP2", "Under_score", "Logging", "U", "V"]


def run(ctx):
    rng = ctx.rng
    ctx.model("Scores", cfg(3, 1, ctx.pick(2, 3), 1, 2), "one test, any weights", workers=8, mem="8g")
    ctx.model("Scores", cfg(2, 2, 2, 1, ctx.pick(1, 2)), "two tests, two measures, any selection", workers=8, mem="8g")
    if ctx.thorough:
        ctx.model("Scores", cfg(3, 1, 2, 2, 2), "one test, three values", workers=8, mem="8g")
        ctx.model("Scores", cfg(3, 2, 1, 2, 1), "three handlers, two tests", workers=8, mem="8g")
    ctx.model("Scores", cfg(2, 1, 2, 1, 1, equal="TRUE"), "equal handlers count", expect="Extremes")
    ctx.model("Scores", cfg(2, 1, 2, 1, 1, inverted="TRUE"), "more is better", expect="Extremes")
    progs = []
    cases = ctx.generate("Scores", cfg(3, 1, 3, 1, 1, emit="TRUE"), workers=8, mem="8g") + ctx.generate("Scores", cfg(2, 2, 2, 1, 1, emit="TRUE"), workers=8, mem="8g")
    rng.shuffle(cases)
    for c in cases[:ctx.pick(1500, 15000)]:
        hs, ts = dict(zip(["h1", "h2", "h3"], rng.sample(HS, 3))), dict(zip(["t1", "t2"], rng.sample(TS, 2)))
        grow = rng.choice([1, 1, 5, 100])
        ls = [(hs[h], ts[t], {m: v.get(m, 0) * grow for m in MS}) for h, r in c["rec"].items() if r for t, v in r.items()]
        rng.shuffle(ls)
        times = rng.choice([1, 1, 2, 7])
        sel = [ts[t] for t in c["sel"]]
        inc, exc = (sel, []) if rng.random() < 0.5 else (None, [t for t in ts.values() if t not in sel])
        progs.append(program(rng, ls, {m: w * times for m, w in c["weight"].items() if w or rng.random() < 0.5}, inc, exc))
    for i in range(ctx.pick(1200, 12000)):
        flat = rng.random() < 0.15
        hs, ts = rng.sample(HS, rng.randint(1, 8)), rng.sample(TS, rng.randint(1, 8))
        if i % 60 == 59:  # far more handlers or tests than usual
            hs += ["W%d" % j for j in range(rng.choice([0, 12, 40]))]
            ts = ts[:3] + ["Wide%d" % j for j in range(rng.choice([0, 12, 30]) if len(hs) < 9 else 0)]
        top = {m: rng.choice([0, 1, 1]) if flat else rng.choice([0, 1, 3, 50, 999]) for m in MS}
        ls = [(h, t, {m: rng.randint(0, top[m]) for m in MS}) for h in hs for t in ts if rng.random() < 0.8]
        if ls and rng.random() < 0.3:  # some lines repeat with other values
            ls += [(h, t, {m: rng.randint(0, top[m]) for m in MS}) for h, t, _ in rng.sample(ls, min(3, len(ls)))]
        rng.shuffle(ls)
        inc = None if rng.random() < 0.6 else rng.sample(ts + ["Missing"], rng.randint(0, len(ts)))
        exc = [] if rng.random() < 0.6 else rng.sample(ts + ["Missing"], rng.randint(0, len(ts)))
        progs.append(program(rng, ls, {m: rng.choice([0, 1, 1, 2, 3, 8, 100]) for m in MS if rng.random() < 0.95}, inc, exc))
    full = ctx.drive("scores", progs, jobs=8)
    ctx.events = sum(len(p["tests"]) + len(p["scores"]) for p in full)
    for p in full[:3]:
        ctx.sample((p["raw"], p["weight"], p["tests"], p["scores"]))
    for i, why in ctx.validate("ScoresTrace", full, const="CONSTANTS Handlers = {}\n Tests = {}\n Measures = {}\n MaxV = 0\n MaxW = 0\n EqualCounts = FALSE\n Inverted = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
