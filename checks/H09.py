import copy
import hgen as g

FMTS = ["", "", "2006-01-02", "15:04:05.000", "Jan _2 06 03:04PM -0700", "\"2006\" \\ \t x", "2006-01-02T15:04:05Z07:00", "é2006"]


def run(ctx):
    # The configuration only changes the basic fields; the design model is the one of composition.
    const = "SPECIFICATION Spec\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = 1\n Elide = TRUE\n Emit = FALSE\n"
    ctx.model("Compose", const, "composition of basic fields and attributes")
    rng, progs = ctx.rng, []

    def pickname(d):
        return rng.choice(["", "", "x" + d, d.upper(), 'q"', "msg", "ключ", "\\"])

    masks = [(a, b, c, d, e, n) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1) for e in (0, 1) for n in (0, 1, 2)]
    rng.shuffle(masks)
    for i in range(ctx.pick(1200, 12000)):
        m = masks[i % len(masks)]
        names = []
        if m[5]:
            for l in rng.sample([-8, -4, -1, 0, 1, 4, 6, 8, 12], rng.randint(1, 5) if m[5] == 1 else 9):
                names.append(dict(l=l, n=rng.choice(["LVL%d" % l, "", "naïve", 'a"b', "trace"])))
        c = g.cfg(h="flash", src=rng.random() < 0.5, names=names, level=rng.choice(["-100", "var", "-8"]),
                  tk="T" + pickname("time") if m[0] else "", lk="L" + pickname("level") if m[1] else "",
                  mk="M" + pickname("msg") if m[2] else "", sk="S" + pickname("source") if m[3] else "",
                  tf=rng.choice(FMTS) if m[4] else "", rep=rng.random() < 0.3, share=rng.random() < 0.7)
        sl = copy.deepcopy(c)
        sl.update(h="sloggy", names=[], tk="", lk="", mk="", sk="", tf="")
        evs = [g.ev("level", v=-100)] if False else []
        evs.append(g.ev("root"))
        kinds = ["flash"]
        roots = [1]
        n = 1
        cs = [c]
        for _ in range(rng.randint(0, 3)):
            x = rng.random()
            if x < 0.4:
                evs.append(g.ev("root", c=c))
                kinds.append("flash")
            elif x < 0.6 and c["share"]:
                evs.append(g.ev("root", c=sl))
                kinds.append("sloggy")
            else:
                l = rng.randint(1, n)
                evs.append(g.ev("with", l=l, **{"as": [g.leaf("w", "n:1")]}) if rng.random() < 0.5 else g.ev("group", l=l, n="g"))
                kinds.append(kinds[l - 1])
            n += 1
        for l in range(1, n + 1):
            for lv in rng.sample([-8, -4, -3, -1, 0, 1, 2, 4, 5, 6, 8, 12, 13], 3):
                if c["level"] == "var" and lv < 0:
                    continue
                evs.append(g.ev("log", l=l, r=g.rec([g.leaf("x", "n:1")], time=rng.choice(g.TIMES + [""]), level=lv,
                                                    pc=rng.random() < 0.5)))
        progs.append(dict(chk=["tree", "config"], c=c, ev=evs))
        plain = copy.deepcopy(evs)
        for e in plain:
            if e["hasc"]:
                e["c"].update(names=[], tk="", lk="", mk="", sk="", tf="", share=False)
        progs.append(dict(chk=["tree"], c=dict(c, names=[], tk="", lk="", mk="", sk="", tf="", share=False), ev=plain))
    full, bad = g.run(ctx, progs)
    why = dict(bad)
    for p in full[:8:2]:
        ctx.sample(dict(names=p["c"]["names"], tf=p["c"]["tf"], raw=p["ev"][-1]["o"]["raw"]))
    for i in range(0, len(full), 2):
        if i in why and (i + 1 not in why or "modified" in why[i]):
            ctx.violation("%s: %s" % (full[i]["c"]["h"], why[i]), full[i])
