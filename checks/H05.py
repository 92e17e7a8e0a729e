import copy, json
import hgen as g

R = lambda k, act, any=True, p=(), s="", a=(): dict(k=k, any=any, p=list(p), act=act, s=s, a=list(a))


def rrule(rng, keys, ctr):
    k = rng.choice(keys + ["time", "level", "msg", "source", "*"])
    if rng.random() < 0.5:
        anyp, p = True, []
    else:
        anyp, p = False, rng.choice([[], ["g"], ["g", "h"], ["h"], ["k"], ["g", "g"], ["a"]])
    act = rng.choice(["drop", "drop", "rename", "set", "path", "value", "attr"])
    if act == "rename":
        return R(k, act, anyp, p, s=rng.choice(["renamed", "a", "time", ""]))
    if act == "set":
        return R(k, act, anyp, p, s=rng.choice(["n:99", "s:set", "b:true", "z"]))
    if act in ("value", "attr"):
        return R(k, act, anyp, p, a=[g.rattr(rng, ["zz", "g", ""] if k == "*" else ["zz", "yy", "g"], 2, True, ctr)])
    return R(k, act, anyp, p)


def safe(rules):
    """ReplaceAttr applies to the members of a group it returned: keep that finite."""
    for r in rules:
        if r["act"] in ("value", "attr"):
            ks = json.dumps(r["a"])
            if r["k"] == "*" or '"k": "%s"' % r["k"] in ks or r["k"] == "":
                return False
            if r["a"][0]["k"] in [x["k"] for x in rules] or any('"k": "%s"' % x["k"] in ks and x["act"] in ("value", "attr") for x in rules):
                return False
            if any(x["k"] == "*" and x["act"] in ("value", "attr") for x in rules):
                return False
            if any(x["act"] == "rename" for x in rules):
                return False
    return True


def run(ctx):
    const = "SPECIFICATION Spec\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Elide = TRUE\n Emit = %s\n"
    gen = [c for c in ctx.generate("Compose", const % (2, "TRUE")) if c["rules"]]
    gen.sort(key=lambda c: json.dumps(c))
    ctx.rng.shuffle(gen)
    progs = []

    def add(c, evs):
        progs.append(dict(chk=["tree", "calls"], c=c, ev=evs))
        plain = copy.deepcopy(c)
        plain.update(rules=[], rep=False)
        progs.append(dict(chk=["tree"], c=plain, ev=copy.deepcopy(evs)))

    for i, c in enumerate(gen[:ctx.pick(1000, 30000)]):
        evs = [g.ev("root")]
        for j, s in enumerate(c["steps"]):
            evs.append(g.ev("with" if s["op"] == "with" else "group", l=j + 1, n=s["n"], **{"as": s["as"]}))
        evs.append(g.ev("log", l=len(evs), r=g.rec(c["rec"])))
        add(g.cfg(h=["flash", "sloggy"][i % 2], rules=c["rules"]), evs)
    rng = ctx.rng
    keys = ["a", "b", "c"]
    n = 0
    while n < ctx.pick(900, 12000):
        ctr = [0]
        rules = [rrule(rng, keys, ctr) for _ in range(rng.randint(0, 4))]
        if not safe(rules):
            continue
        n += 1
        evs = g.chain(rng, keys + ["g", "h"], rng.randint(0, 5), ctr)
        bulk = None
        if n % 9 == 8:
            evs, bulk = g.large(rng, keys, ctr)
        last = len(evs)
        for _ in range(rng.randint(1, 2)):
            evs.append(g.ev("log", l=last, api=rng.choice(["handler", "handler", "logger"]),
                            r=g.rec(bulk if bulk is not None else g.rattrs(rng, keys + ["g", "h"], 0, 5, True, ctr), time=rng.choice(g.TIMES + [""]),
                                    level=rng.choice([0, 4, 2]), pc=rng.random() < 0.6)))
        add(g.cfg(h=["flash", "sloggy"][n % 2], src=rng.random() < 0.4, rules=rules, rep=True), evs)
    full, bad = g.run(ctx, progs)
    why = dict(bad)
    for p in full[0:6:2] + full[-6::2]:
        ctx.sample(dict(rules=p["c"]["rules"], calls=p["ev"][-1]["o"]["calls"][:4], raw=p["ev"][-1]["o"]["raw"]))
    for i in range(0, len(full), 2):
        if i in why:
            # A record that is composed wrongly without any ReplaceAttr function says nothing about it.
            reasons = [w for w in why[i].split("; event") if "ReplaceAttr calls" in w or i + 1 not in why]
            if reasons:
                ctx.violation("%s: %s" % (full[i]["c"]["h"], "; event".join(reasons)), full[i])
