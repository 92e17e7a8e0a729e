"""Cases for the handler driver and their validation against HandlerTrace."""
import json

CFG = dict(h="flash", src=False, level="none", levelnum=0, rules=[], rep=False, names=[], tk="", lk="", mk="",
           sk="", tf="", nil=False, share=False, norm=False, via="")
TIMES = ["2024-02-29T23:59:59.123456789Z", "2023-01-02T03:04:05Z", "1999-12-31T00:00:00.5+05:30"]


def cfg(**kw):
    c = dict(CFG)
    c.update(kw)
    if c["level"] not in ("none", "var"):
        c["levelnum"] = int(c["level"])
    if c["rules"]:
        c["rep"] = True
    return c


def via(rng, h, evs=()):
    """How a handler without extras comes about: by itself or through a creator.
    The creator with replacement functions renames these keys wherever they come from."""
    taken = any('"k": "%s"' % k in json.dumps(list(evs)) for k in ("message", "lvl", "level", "msg"))
    return rng.choice(["", "", "creator"] + (["replattr"] if h == "flash" and not taken else []))


def leaf(k, j, g=""):
    return dict(k=k, t="leaf", j=j, g=g, a=[])


def nil(k):
    return dict(k=k, t="nil", j="z", g="", a=[])


def grp(k, a):
    return dict(k=k, t="grp", j="", g="", a=a)


def lv(k, v, g=""):
    return dict(k=k, t="lv", j="", g=g, a=[v])


NOREC = dict(time="", level=0, msg="", pc=False, **{"as": []})


def ev(op, **kw):
    d = dict(op=op, l=0, n="", api="handler", ctx="", fail="", v=0, hasc=False, r=NOREC)
    d["as"] = []
    d.update(kw)
    if "c" in kw:
        d["hasc"] = True
    return d


def rec(as_=(), time=TIMES[0], level=0, msg="message", pc=False):
    d = dict(time=time, level=level, msg=msg, pc=pc)
    d["as"] = list(as_)
    return d


def rattr(rng, keys, depth=0, empties=True, ctr=None):
    """A random attribute; leaf values are distinct numbers where possible."""
    ctr = ctr if ctr is not None else [0]
    ctr[0] += 1
    x = rng.random()
    k = rng.choice(keys)
    if x < 0.45 or depth > 3:
        y = rng.random()
        if y < 0.5:
            return leaf(k, "n:%d" % ctr[0], rng.choice(["", "", "uint", "dur", "int32"]))
        if y < 0.8:
            return leaf(k, "s:%s%d" % (rng.choice(["x", "{", "}", ", ", "a{", "[", "\\", '"', "é", "}{"]), ctr[0]),
                        rng.choice(["", "", "stringer", "error"]))
        if y < 0.9:
            return leaf(k, rng.choice(["b:true", "b:false"]))
        return nil(k or "nil")
    if empties and x < 0.52:
        return nil("")
    if x < 0.6:
        return leaf("", "n:%d" % ctr[0]) if empties else leaf(k, "n:%d" % ctr[0])
    if x < 0.72:
        return lv(k, rattr(rng, keys, depth + 1, empties, ctr), rng.choice(["", "ptr"]))
    n = rng.choice([0, 1, 1, 2, 3]) if empties else rng.choice([1, 2, 3])
    return grp(k if rng.random() < 0.8 or not empties else "",
               [rattr(rng, keys, depth + 1, empties, ctr) for _ in range(n)])


def rattrs(rng, keys, lo=0, hi=3, empties=True, ctr=None):
    return [rattr(rng, keys, 0, empties, ctr) for _ in range(rng.randint(lo, hi))]


def chain(rng, keys, n, ctr, empties=True, groups=("g", "h", "k", "")):
    """A straight derivation path followed by records on its last logger."""
    evs = [ev("root")]
    for i in range(n):
        api = rng.choice(["handler", "logger"])
        if rng.random() < 0.5:
            evs.append(ev("with", l=i + 1, api=api, **{"as": rattrs(rng, keys, 0, 3, empties, ctr)}))
        else:
            evs.append(ev("group", l=i + 1, n=rng.choice(groups), api=api))
    return evs


def nest(rng, keys, n, ctr, last="leaf"):
    """An attribute below n groups (or values that resolve to one), each with or without further members."""
    ctr[0] += 1
    a = leaf("deep", "n:%d" % ctr[0]) if last == "leaf" else grp("hollow", [])
    for i in range(n):
        x = rng.random()
        if x < 0.15:
            a = lv(a["k"], a)
        as_ = [a]
        if x > 0.8 and last == "leaf":
            ctr[0] += 1
            as_.insert(rng.randint(0, 1), leaf(rng.choice(keys) + "x", "n:%d" % ctr[0]))
        a = grp("d%d" % i, as_)
    return a


def many(rng, n, ctr, pad=0):
    """n attributes with distinct keys."""
    as_ = []
    for i in range(n):
        ctr[0] += 1
        as_.append(leaf("k%d" % i, rng.choice(["n:%d", "s:t%d"]) % ctr[0] + ("0" if pad == 0 else "")))
    return as_


def large(rng, keys, ctr, groups=("g", "h", "k")):
    """A program far larger than usual in one dimension: depth of groups, depth of one attribute, number of attributes
    in a record or on a logger, number of derivations, length of keys and texts."""
    kind = rng.choice(["groups", "hollow", "nested", "nothing", "wide", "withs", "long", "mixed"])
    evs, rec_ = [ev("root")], []

    def add(op, **kw):
        evs.append(ev(op, l=len(evs), api=rng.choice(["handler", "logger"]), **kw))
    if kind in ("groups", "hollow", "mixed"):
        n = rng.randint(4, 14)
        for i in range(n):
            if kind == "mixed" and rng.random() < 0.5:
                add("with", **{"as": rattrs(rng, keys, 1, 2, True, ctr)})
            add("group", n=rng.choice(groups) + ("" if i % 2 else str(i)))
        if kind == "hollow":
            rec_ = rng.choice([[], [grp("e", [])], [nest(rng, keys, 7, ctr, "hollow")]])
            if rng.random() < 0.3:
                evs.insert(1, ev("with", l=1, **{"as": [leaf("top", "n:7")]}))
                for i, e in enumerate(evs[2:]):
                    e["l"] = i + 2
        else:
            rec_ = rattrs(rng, keys, 1, 3, True, ctr)
    elif kind in ("nested", "nothing"):
        a = nest(rng, keys, rng.randint(5, 13), ctr, "leaf" if kind == "nested" else "hollow")
        if rng.random() < 0.5:
            add("group", n="g")
        if rng.random() < 0.5:
            add("with", **{"as": [a]})
            rec_ = rattrs(rng, keys, 0, 2, True, ctr)
        else:
            rec_ = [leaf("before", "n:1"), a, leaf("after", "n:2")][rng.randint(0, 1):]
    elif kind == "wide":
        as_ = many(rng, rng.choice([9, 17, 33, 65]), ctr)
        if rng.random() < 0.5:
            as_ = [grp("wide", as_)]
        if rng.random() < 0.4:
            add("with", **{"as": as_})
        else:
            rec_ = as_
    elif kind == "withs":
        for i in range(rng.randint(8, 24)):
            add("with", **{"as": [leaf("w%d" % i, "n:%d" % i)]})
        rec_ = rattrs(rng, keys, 0, 2, True, ctr)
    else:
        n = rng.choice([300, 600, 1100, 2100, 5000])
        as_ = [leaf("k" * rng.choice([1, n]), "s:" + rng.choice(["v", "\"", "\u00e9"]) * n),
               leaf("t", "s:" + "w" * n, rng.choice(["", "stringer", "error"])), leaf("end", "b:true")]
        if rng.random() < 0.5:
            add("group", n="g" * rng.choice([1, n]))
        if rng.random() < 0.5:
            add("with", **{"as": as_})
            as_ = [leaf("also", "s:" + "x" * rng.choice([1, n]))]
        rec_ = as_
    return evs, rec_


def run(ctx, progs, chunk=None):
    """Runs programs on the code and returns [(program with observations, reason)] for rejected ones."""
    for i, p in enumerate(progs):
        p["id"] = i
    obs = ctx.drive("hdl", progs, jobs=4)
    by = {o["id"]: o for o in obs}
    full = []
    for p in progs:
        o = by[p["id"]]
        q = dict(id=p["id"], chk=p["chk"], c=p["c"], ev=[])
        for e, oe in zip(p["ev"], o["ev"]):
            e = dict(e)
            e["o"] = oe["o"]
            q["ev"].append(e)
            ctx.events += 1
        full.append(q)
    bad = ctx.validate("HandlerTrace", full)
    return full, bad
