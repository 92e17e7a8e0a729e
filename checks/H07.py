import hgen as g


def run(ctx):
    const = ("SPECIFICATION Spec\nINVARIANTS Follows EmitHist\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n"
             " Kind = \"%s\"\n Frozen = %s\n Emit = %s\n")
    ctx.model("Gate", const % (ctx.pick(4, 5), "var", "FALSE", "FALSE"), "gating with a level variable", workers=6)
    ctx.model("Gate", const % (3, "var", "TRUE", "FALSE"), "level remembered at derivation", expect="Follows")
    rng, progs = ctx.rng, []
    for kind in ("var", "none", "fixed"):
        hs = ctx.generate("Gate", const % (ctx.pick(3, 4), kind, "FALSE", "TRUE"))
        hs.sort(key=repr)
        rng.shuffle(hs)
        # Longer histories at random, with loggers derived from derived ones.
        far = ctx.generate("Gate", const % (10, kind, "FALSE", "TRUE"), workers=4,
                           args=["-simulate", "num=%d" % ctx.pick(40, 400), "-depth", "12", "-seed", str(ctx.seed)])
        far.sort(key=repr)
        rng.shuffle(far)
        for i, h in enumerate(hs[:ctx.pick(1200, 12000)] + far[:ctx.pick(600, 8000)]):
            level = {"var": "var", "none": "none", "fixed": str(h[0]["v"])}[kind]
            evs = [g.ev("root")]
            n = 1
            for s in h[1:]:
                if s["op"] == "derive":
                    evs.append(g.ev("group", l=s["l"], n="g") if rng.random() < 0.5 else
                               g.ev("with", l=s["l"], **{"as": [g.leaf("a", "n:1")]}))
                    n += 1
                elif s["op"] == "level":
                    evs.append(g.ev("level", v=s["v"]))
                else:
                    evs.append(log(rng, s["l"], s["v"]))
            if level == "var" and rng.random() < 0.5:  # all loggers have been used when the level changes
                evs += [log(rng, l, 20) for l in range(1, n + 1)] + [g.ev("level", v=rng.choice([-8, -1, 4, 9]))]
            for l in range(1, n + 1):
                evs.append(log(rng, l, rng.randint(-9, 13)))
            progs.append(prog(rng, i, level, evs))
    # Every level in a wide range against every threshold, with the name it must have.
    for h in ("flash", "sloggy"):
        for t in (["none", "var", "-3", "0", "1", "5", "100"] if not ctx.thorough else ["none", "var"] + [str(n) for n in range(-12, 20)]):
            evs = [g.ev("root")]
            if t == "var":
                evs.append(g.ev("level", v=-1000))
            for n in list(range(-12, 17)) + [-1000, 1000, 99, 127, 128, -128, -129, 255, 256, 32767, 32768, 65536]:
                if t == "var" and n % 5 == 0:
                    evs.append(g.ev("level", v=n + rng.choice([-1, 0, 1])))
                evs.append(log(rng, 1, n))
            progs.append(dict(chk=["gate"], c=g.cfg(h=h, level=t, rep=rng.random() < 0.3), ev=evs))
    # nil options mean INFO
    for h in ("flash", "sloggy"):
        progs.append(dict(chk=["gate"], c=g.cfg(h=h, nil=True),
                          ev=[g.ev("root")] + [log(rng, 1, n) for n in range(-6, 12)]))
    full, bad = g.run(ctx, progs)
    for p in full[:4]:
        ctx.sample([(e["op"], e["l"], e["v"] or e["r"]["level"], e["o"]["n"]) for e in p["ev"]])
    for i, why in bad:
        ctx.violation("%s: %s" % (full[i]["c"]["h"], why), full[i])


def log(rng, l, n):
    return g.ev("log", l=l, ctx=rng.choice(["", "canceled"]), api=rng.choice(["handler", "logger"]),
                r=g.rec([g.leaf("x", "n:1")], level=n))


def prog(rng, i, level, evs):
    h = ["flash", "sloggy"][i % 2]
    return dict(chk=["gate"], c=g.cfg(h=h, via=g.via(rng, h), level=level, rep=rng.random() < 0.2), ev=evs)
