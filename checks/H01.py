import hgen as g


def run(ctx):
    const = "SPECIFICATION Spec\nINVARIANT Isolated\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Trunk = %d\n Cap = %d\n Copying = %s\n Emit = %s\n"
    ctx.model("Family", const % (4, ctx.pick(0, 2), 3, "TRUE", "FALSE"), "copying derivations are isolated", workers=6)
    ctx.model("Family", const % (3, 0, 3, "FALSE", "FALSE"), "appending in place", expect="Isolated")
    hists = ctx.generate("Family", const % (4, 0, 3, "TRUE", "TRUE"))
    # Pairs (and triples) of siblings below longer chains of groups.
    fans = ctx.generate("Family", const % (ctx.pick(2, 3), 6, 3, "TRUE", "TRUE"))
    rng = ctx.rng
    hists.sort(key=lambda c: repr(c))
    rng.shuffle(hists)
    fans = [h for h in fans if h not in hists and h[-1]["l"] > len([1 for j, s in enumerate(h) if s == dict(l=j + 1, kind="group")]) - 1]
    fans.sort(key=lambda c: repr(c))
    rng.shuffle(fans)
    progs = []

    # Every derivation order TLC found, with attributes of various lengths.
    for i, h in enumerate(hists[:ctx.pick(400, 6000)] + fans[:ctx.pick(250, 4000)]):
        # Either all of about one length or long ones with short ones derived from them, which would fit
        # whatever capacity was left over.
        size = rng.choice([1, 30, 170, 500, 0, 0])
        ops = []
        for j, s in enumerate(h):
            unit = size or (rng.choice([260, 330, 700, 2500]) if s["kind"] == "long" else rng.choice([1, 1, 9, 60]))
            if s["kind"] == "group":
                ops.append(("group", s["l"], "g%d" % j + "x" * rng.choice([0, unit // 8])))
            else:
                n = unit * (2 if s["kind"] == "long" else 1)
                ops.append(("with", s["l"], [g.leaf("a%d" % j, "s:" + chr(97 + j) * n)]))
        progs.append(program(rng, ["flash", "sloggy"][i % 2], ops, rep=i % 4 > 1))

    # Longer random families.
    keys = ["a", "b", "c", "g"]
    for i in range(ctx.pick(150, 2500)):
        ops, ctr = [], [0]
        bias = rng.random()
        # Some families are derived from one logger with much on it, some are far deeper than usual.
        trunk = rng.choice([0, 0, 520, 700, 1100, 2100, 5000])
        deep = i % 9 == 8
        for j in range(rng.randint(14, 22) if deep else rng.randint(3, ctx.pick(9, 14))):
            l = rng.randint(1, j + 1) if rng.random() < bias and not (deep and j < 10) else j + 1
            if j == 0 and trunk and not deep:
                ops.append(("with", 1, [g.leaf("pad", "s:" + "p" * trunk)]))
            elif trunk and 0 < j < 4 and not deep:
                ops.append(("with" if rng.random() < 0.7 else "group", 2, None))
                ops[-1] = ops[-1][:2] + ([g.leaf("w%d" % j, "n:%d" % j)] if ops[-1][0] == "with" else "w%d" % j,)
            elif rng.random() < 0.55:
                as_ = g.rattrs(rng, keys, 0, 3, True, ctr)
                if rng.random() < 0.3:
                    as_.append(g.leaf("pad", "s:" + "p" * rng.choice([10, 100, 400, 520, 1100])))
                ops.append(("with", l, as_))
            else:
                ops.append(("group", l, rng.choice(["g", "h", "a-long-group-name-" * 3, ""])))
        progs.append(program(rng, ["flash", "sloggy"][i % 2], ops, rep=rng.random() < 0.4,
                             fail=rng.random() < 0.3))
    full, bad = g.run(ctx, progs)
    for p in full[:3] + full[-3:]:
        ctx.sample(dict(ops=[(e["op"], e["l"], e["n"] or e["as"]) for e in p["ev"]][:8], raw=p["ev"][-1]["o"]["raw"]))
    for i, why in bad:
        ctx.violation("%s: %s" % (full[i]["c"]["h"], why), full[i])


# A ReplaceAttr function that shows the group path it is given.
PATH = [dict(k=k, any=True, p=[], act="path", s="", a=[]) for k in ("rec", "b", "msg")]


def program(rng, h, ops, rep=False, fail=False):
    """Derives every logger, uses them in random order before and after deriving others, and then
    rebuilds each path from a fresh root where no other logger exists."""
    paths = [[]]                       # ops of each logger
    evs = [g.ev("root")]
    used = []
    r = lambda n: g.rec([g.leaf("rec", "n:%d" % n)] if n % 3 else [], msg="m" * (1 + 37 * (n % 4)))
    for kind, l, arg in ops:
        paths.append(paths[l - 1] + [(kind, arg)])
        if kind == "group":
            evs.append(g.ev("group", l=l, n=arg, api=rng.choice(["handler", "logger"])))
        else:
            evs.append(g.ev("with", l=l, api=rng.choice(["handler", "logger"]), **{"as": arg}))
        if rng.random() < 0.5:
            k = rng.randint(1, len(paths))
            n = rng.randint(0, 5)
            used.append((k, n))
            evs.append(g.ev("log", l=k, r=r(n)))
        if fail and rng.random() < 0.2:
            evs.append(g.ev("log", l=rng.randint(1, len(paths)), fail=rng.choice(["err", "short", "panic"]), r=r(1)))
    order = list(range(1, len(paths) + 1))
    rng.shuffle(order)
    for k in order:
        n = rng.randint(0, 5)
        used.append((k, n))
        evs.append(g.ev("log", l=k, r=r(n)))
    base = len(paths)
    for k in sorted({k for k, _ in used}):
        evs.append(g.ev("root"))
        base += 1
        for kind, arg in paths[k - 1]:
            evs.append(g.ev("group", l=base, n=arg) if kind == "group" else g.ev("with", l=base, **{"as": arg}))
            base += 1
        for n in sorted({n for kk, n in used if kk == k}):
            evs.append(g.ev("log", l=base, r=r(n)))
    return dict(chk=["iso"], c=g.cfg(h=h, rules=PATH if rep else []), ev=evs)
