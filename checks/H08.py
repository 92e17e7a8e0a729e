import copy
import H06
import hgen as g

BAD = ["badjson", "badtext", "badchan", "badfunc", "badinside", "badnested"]
PANIC = ["panic", "panicerr", "panicmarshal"]


def bad(rng, k):
    return g.leaf(k, "E", rng.choice(BAD))


def boom(rng, k):
    return g.leaf(k, "BOOM", rng.choice(PANIC))


def wrap(rng, a):
    """The attribute, possibly inside groups or behind LogValuers."""
    x = rng.random()
    if x < 0.5:
        return a
    if x < 0.75:
        return g.grp("w", [g.leaf("before", "n:1"), wrap(rng, a), g.leaf("after", "n:2")])
    if x < 0.85:
        return g.grp("", [wrap(rng, a)])
    return g.lv("v", g.grp("", [a, g.leaf("after", "n:3")]))


def harmless(evs):
    """The same calls with an ordinary value for each troublesome one and a working writer."""
    def fix(a):
        if a["j"] in ("E", "BOOM"):
            a["j"], a["g"] = "n:7", ""
        for x in a["a"]:
            fix(x)
    evs = copy.deepcopy(evs)
    for e in evs:
        e["fail"] = ""
        for a in e["as"] + e["r"]["as"]:
            fix(a)
    return evs


def run(ctx):
    H06.models(ctx, booms="{},{1}", fails="{},{2},{1,2}")
    rng, progs = ctx.rng, []
    keys = ["a", "b", "c", "g"]
    for i in range(ctx.pick(900, 9000)):
        ctr = [0]
        evs = [g.ev("root")]
        alive = [1]
        n = 1
        for _ in range(rng.randint(4, 12)):
            x = rng.random()
            l = rng.choice(alive)
            if x < 0.15:
                evs.append(g.ev("group", l=l, n=rng.choice(["g", "h"])))
                n += 1
                alive.append(n)
            elif x < 0.35:
                as_ = g.rattrs(rng, keys, 0, 2, False, ctr)
                y = rng.random()
                if y < 0.6:
                    as_.insert(rng.randint(0, len(as_)), wrap(rng, bad(rng, "bad")))
                if y > 0.85:
                    as_.insert(rng.randint(0, len(as_)), wrap(rng, boom(rng, "boom")))
                evs.append(g.ev("with", l=l, api=rng.choice(["handler", "logger"]), **{"as": as_}))
                n += 1
                if y <= 0.85:
                    alive.append(n)
            else:
                as_ = g.rattrs(rng, keys, 0, 3, False, ctr)
                y = rng.random()
                fail = ""
                if y < 0.25:
                    as_.insert(rng.randint(0, len(as_)), wrap(rng, bad(rng, "bad")))
                elif y < 0.45:
                    as_.insert(rng.randint(0, len(as_)), wrap(rng, boom(rng, "boom")))
                elif y < 0.65:
                    fail = rng.choice(["err", "short", "panic"])
                evs.append(g.ev("log", l=l, fail=fail, r=g.rec(as_, msg="m" * rng.choice([1, 50, 1200]))))
        for l in alive:
            evs.append(g.ev("log", l=l, r=g.rec([g.leaf("last", "n:%d" % l)])))
        c = g.cfg(h=["flash", "sloggy"][i % 2], norm=True, rep=rng.random() < 0.25)
        progs.append(dict(chk=["tree", "fail"], c=c, ev=evs))
        progs.append(dict(chk=["tree", "fail"], c=c, ev=harmless(evs)))
    full, found = g.run(ctx, progs)
    why = dict(found)
    for p in full[:6:2]:
        ctx.sample([(e["op"], e["fail"], e["o"]["err"], e["o"]["panic"], e["o"]["raw"][:80]) for e in p["ev"]])
    for i in range(0, len(full), 2):
        # Wrong even if nothing fails: not a matter of failures.
        if i in why and i + 1 not in why:
            ctx.violation("%s: %s" % (full[i]["c"]["h"], why[i]), full[i])
    # Failures while other records are being composed and written.
    s = H06.schedules(ctx, 3, 1, ctx.pick(200, 2500), booms="{},{1},{3}", fails="{},{2},{1,2}")
    H06.execute(ctx, H06.progs_of(ctx, s, 3, 1) + H06.stress_of(ctx, ctx.pick(4, 20), 200, booms=True),
                H06.stress_of(ctx, ctx.pick(2, 10), 150, booms=True))
