import hgen as g


def run(ctx):
    const = "SPECIFICATION Spec\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Elide = %s\n Emit = %s\n"
    ctx.model("Compose", const % (ctx.pick(2, 3), "TRUE", "FALSE"), "prefix/suffix design refines Render",
              timeout=850, workers=6, mem="6g")
    ctx.model("Compose", const % (2, "FALSE", "FALSE"), "variant without group elision", expect="Refines")
    gen = [c for c in ctx.generate("Compose", const % (2, "TRUE", "TRUE"), args=["-seed", str(ctx.seed)]) if not c["rules"]]
    gen.sort(key=lambda c: __import__("json").dumps(c))
    ctx.rng.shuffle(gen)
    progs, rng = [], ctx.rng
    for i, c in enumerate(gen[:ctx.pick(2500, 100000)]):
        h = ["flash", "sloggy"][i % 2]
        evs = [g.ev("root")]
        for j, s in enumerate(c["steps"]):
            evs.append(g.ev("with" if s["op"] == "with" else "group", l=j + 1, n=s["n"], **{"as": s["as"]}))
        evs.append(g.ev("log", l=len(evs), r=g.rec(c["rec"])))
        progs.append(dict(chk=["tree"], c=g.cfg(h=h, via=g.via(rng, h, evs)), ev=evs))
    keys = ["a", "b", "c", "g", "time", "msg", "level", "key{", "{", "}", 'q"', ""]
    for i in range(ctx.pick(1500, 15000)):
        ctr = [0]
        evs = g.chain(rng, keys, rng.randint(0, 6), ctr)
        bulk = None
        if i % 11 == 10:
            evs, bulk = g.large(rng, keys, ctr)
        last = len(evs)
        for _ in range(rng.randint(1, 3)):
            evs.append(g.ev("log", l=last, api=rng.choice(["handler", "handler", "logger"]),
                            r=g.rec(bulk if bulk is not None else g.rattrs(rng, keys, 0, 7, True, ctr), time=rng.choice(g.TIMES + [""]),
                                    level=rng.choice([0, 4, 8, 2, 5]), pc=rng.random() < 0.6,
                                    msg=rng.choice(["message", "", "{", "a: {"]))))
        h = ["flash", "sloggy"][i % 2]
        progs.append(dict(chk=["tree"], c=g.cfg(h=h, via=g.via(rng, h, evs), src=rng.random() < 0.4,
                                                rep=rng.random() < 0.3), ev=evs))
    full, bad = g.run(ctx, progs)
    for p in full[:2] + full[-4:]:
        ctx.sample(p["ev"][-1]["o"]["raw"])
    for i, why in bad:
        ctx.violation("%s: %s" % (full[i]["c"]["h"], why), full[i])
