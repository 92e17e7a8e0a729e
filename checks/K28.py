KINDS = ["flash", "replattr", "sloggy", "json", "phsym", "phuslu", "logrus", "zap", "zerolog", "append", "ignore", "increment", "overwrite",
         "own-h", "own-l", "own-hl"]
LIKE = dict(flash=["flash", "replattr", "sloggy", "json", "phsym", "phuslu", "own-h", "own-l", "own-hl"], logrus=["logrus", "zap", "overwrite"],
            zerolog=["zerolog"], ignore=["ignore"], append=["append"], increment=["increment"])
CFG = "SPECIFICATION Spec\nINVARIANTS Followed Resolved EmitHist\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Kinds = {%s}\n Frozen = %s\n Emit = %s\n"


def cfg(depth, kinds, frozen="FALSE", emit="FALSE"):
    return CFG % (depth, ", ".join('"%s"' % k for k in kinds), frozen, emit)


def ev(op, **kw):
    e = dict(op=op, c="", via="", w=0, level="", num=0, src=False, rep=False, l=0, n="", msg="", **{"as": []})
    e.update(kw)
    return e


def made(rng, c, level, num=0, via=None):
    via = via or rng.choice(["logger", "logger", "handler"])
    return ev("make", c=c, via="logger" if c == "own-l" else via, w=rng.randint(1, 3), level=level, num=num, src=rng.random() < 0.4, rep=rng.random() < 0.4)


def concrete(rng, hist):
    """A behaviour of the model: its kinds of creators become creators of that kind."""
    evs, ctr = [], [0]

    def attr(k):
        ctr[0] += 1
        return dict(k=k, v=ctr[0])
    for h in hist:
        x = h["x"]
        if h["op"] == "make":
            evs.append(made(rng, rng.choice(LIKE[x[0]]), {99: "none", 100: "var"}.get(x[1], "fixed"), x[1] if x[1] < 99 else 0))
        elif h["op"] == "with":
            evs.append(ev("with", l=h["l"], **{"as": [attr(x[0])]}))
        elif h["op"] == "group":
            evs.append(ev("group", l=h["l"], n="g"))
        elif h["op"] == "set":
            evs.append(ev("set", num=x[0]))
        else:
            evs.append(ev("log", l=h["l"], num=x[0], msg="m", **{"as": [attr(k) for k in x[1]]}))
    return evs


def wild(rng):
    evs, n, depth = [], 0, {}
    kinds = rng.sample(KINDS, rng.choice([1, 2, 3, 5]))
    last = None

    def attrs():
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5] + [12, 40] * (rng.random() < 0.04))):
            out.append(dict(k=rng.choice(["a", "b", "r", "Key", "k_2"]), v=rng.choice([0, 1, -1, 7, 10 ** 6, rng.randint(-999, 999)])))
        return out
    for _ in range(rng.randint(5, 25)):
        x = rng.random()
        if n == 0 or x < 0.2:
            e = made(rng, rng.choice(kinds), rng.choice(["none", "var", "var", "fixed"]), rng.choice([-8, -4, 0, 2, 4, 8, 9]))
            if last and rng.random() < 0.5:  # Much like the last one.
                change = rng.choice([dict(), dict(level="var"), dict(level="none"), dict(level="fixed", num=0), dict(src=not last["src"]),
                                     dict(rep=not last["rep"]), dict(w=last["w"] % 3 + 1)])
                e = dict(last, **change)
            evs.append(e)
            last = e
            n += 1
            depth[n] = 0
        elif x < 0.3:
            l = rng.randint(1, n)
            evs.append(ev("with", l=l, **{"as": attrs() or [dict(k="a", v=1)]}))
            n += 1
            depth[n] = depth[l]
        elif x < 0.37:
            l = rng.randint(1, n)
            if depth[l] < 3:
                evs.append(ev("group", l=l, n=rng.choice(["g", "h", "Grp"])))
                n += 1
                depth[n] = depth[l] + 1
        elif x < 0.5:
            evs.append(ev("set", num=rng.choice([-8, -4, -1, 0, 1, 4, 8, 12])))
        else:
            evs.append(ev("log", l=rng.randint(1, n), num=rng.choice([-4, 0, 4, 8]), msg=rng.choice(["m", "Some text", "x y"] + ["long " * n for n in (60, 230, 900)] * (rng.random() < 0.05)), **{"as": attrs()}))
    return evs


def suited(evs):
    """The libraries under phuslu and phsym mix up loggers derived from the same one: that isn't this repository's affair."""
    root, derived, n = {}, set(), 0
    for i, e in enumerate(evs):
        c = evs[root[e["l"]]]["c"] if e["l"] else ""
        if e["l"] in derived and c in ("phuslu", "phsym") or e["op"] == "group" and c == "phuslu":
            evs[root[e["l"]]]["c"] = "json"
        if e["op"] in ("make", "with", "group"):
            n += 1
            root[n] = i if e["op"] == "make" else root[e["l"]]
            if e["op"] != "make":
                derived.add(e["l"])
    return evs


def run(ctx):
    rng = ctx.rng
    kinds = ["flash", "logrus", "zerolog", "ignore", "append", "increment"]
    ctx.model("Creators", cfg(ctx.pick(4, 5), kinds), "every kind of creator", workers=8, mem="8g")
    ctx.model("Creators", cfg(ctx.pick(5, 6), ["increment"]), "longer histories", workers=8, mem="8g")
    ctx.model("Creators", cfg(4, ["logrus"], frozen="TRUE"), "the level of the wrapped library is read once", expect="Followed")
    hists = ctx.generate("Creators", cfg(ctx.pick(4, 5), kinds, emit="TRUE"), mem="8g", workers=8)
    hists.sort(key=str)
    rng.shuffle(hists)
    progs = [concrete(rng, h) for h in hists[:ctx.pick(3000, 40000)]]
    progs += [wild(rng) for _ in range(ctx.pick(1500, 15000))]
    # Each creator with each level at first and each later one.
    for c in KINDS:
        for first in (-8, -4, 0, 4, 8, 12):
            evs = [ev("set", num=first), made(rng, c, "var"), ev("with", l=1, **{"as": [dict(k="a", v=1)]})]
            for later in rng.sample([-8, -4, 0, 4, 8, 12, -4, 8], 8):
                evs.append(ev("set", num=later))
                evs += [ev("log", l=rng.randint(1, 2), num=n, msg="m") for n in (-4, 0, 4, 8)]
            progs.append(evs)
    # All at once: names differ.
    progs.append([made(rng, c, "none", via=v) for c in KINDS for v in ("logger", "handler")] + [ev("make", c="own-l", via="handler", w=1, level="none")])
    full = ctx.drive("creators", [dict(ev=suited(p)) for p in progs], jobs=4)
    ctx.events = sum(len(p["ev"]) for p in full)
    for p in full[:3] + full[-3:-1]:
        ctx.sample([[e["op"], e["c"], e["num"], e["o"]["wrote"], e["o"]["ents"]] for e in p["ev"]])
    for i, why in ctx.validate("CreatorsTrace", full, const="CONSTANTS Depth = 0\n Kinds = {}\n Frozen = FALSE\n Emit = FALSE\n"):
        c = [e["c"] for e in full[i]["ev"] if e["c"]]
        ctx.violation("%s: %s" % (", ".join(c), why), full[i])
