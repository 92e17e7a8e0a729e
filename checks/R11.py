W = ["a", "A", "b", "key", "Key", "KEY", "level", "", "s", "S", "\u017f", "k", "K", "\u212a", "\u03c3", "\u03c2", "\u03a3", "\u00e5", "\u212b",
     "\u00e9t\u00e9", "\u00c9T\u00c9", "ta\u017fk", "TASK", "tas\u212a", "a b", "msg", "aa", "1", "\u0434\u0430"]


def t(s):
    return [ord(c) for c in s]


def word(rng):
    # The Cyrillic "a" has no mapping in the specification: only where it stays as it is.
    w = rng.choice([x for x in W if "\u0430" not in x])
    return t(w)


def val(rng):
    k = rng.choice(["str", "str", "int", "bool", "err", "stringer", "nil"])
    if k == "int":
        return dict(t=k, s=t(str(rng.randint(-9, 99))))
    if k == "bool":
        return dict(t=k, s=t(rng.choice(["true", "false"])))
    return dict(t=k, s=[] if k == "nil" else word(rng) + word(rng))


def fn(rng, depth, keys):
    x = rng.random()
    f = dict(f="", key=rng.choice(keys), ci=rng.random() < 0.5, chk=rng.choice(["nil", "nil", "top", "cur"]), g=t(rng.choice("gh")),
             arg=dict(t="", s=[]), fs=[])
    if depth > 0 and x < 0.35:
        return dict(f, f="multi", fs=[fn(rng, depth - 1, keys) for _ in range(rng.choice([0, 1, 2, 2, 3, 5] + [9, 17] * (rng.random() < 0.2)))])
    if x < 0.55:
        return dict(f, f="key", arg=dict(t="str", s=rng.choice(keys)))
    if x < 0.7:
        return dict(f, f="value", arg=val(rng))
    if x < 0.85:
        return dict(f, f="case", arg=dict(t=rng.choice(["lower", "upper", "lower", "upper", "none", "odd"]), s=[]))
    return dict(f, f="remove")


def run(ctx):
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nINVARIANTS Composition StaysRemoved Untouched Nested EmitCase\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Depth = %d\n KeepGoing = %s\n Emit = %s\n")
    if ctx.thorough:
        ctx.model("Replace", cfg % (4, "FALSE", "FALSE"), "chains of functions", workers=8)
    ctx.model("Replace", cfg % (2, "TRUE", "FALSE"), "functions applied after a removal", expect="StaysRemoved")
    cases = ctx.generate("Replace", cfg % (3, "FALSE", "TRUE"), workers=8)
    groups = {}
    for c in cases:
        groups.setdefault(repr(c["fs"]), []).append(c)
    keys = sorted(groups)
    rng.shuffle(keys)
    progs = []
    for k in keys[:ctx.pick(700, 1000)]:
        cs = groups[k]
        fs = cs[0]["fs"]
        multi = dict(fs[0], f="multi", fs=fs)
        progs.append(dict(fn=multi, use=[dict(gs=c["gs"], a=c["a"]) for c in rng.sample(cs, min(len(cs), ctx.pick(12, 64)))]))
    for _ in range(ctx.pick(1500, 15000)):
        names = [word(rng) for _ in range(rng.randint(1, 3))]
        # Names that differ in letter case only.
        names += [t("".join(chr(c) for c in names[0]).swapcase())] if all(c < 128 for c in names[0]) else []
        f = fn(rng, 3, names)
        use = []
        for _ in range(8):
            a = val(rng)
            k = rng.choice(names + [word(rng)])
            if a["t"] == "nil" and not k:
                continue  # handlers don't ask about empty attributes
            use.append(dict(gs=[t(rng.choice("ghG")) for _ in range(rng.choice([0, 0, 1, 1, 2, 4] + [7, 13] * (rng.random() < 0.3)))],
                            a=dict(k=k, t=a["t"], s=a["s"])))
        if use:
            progs.append(dict(fn=f, use=use))
    full = ctx.drive("repl", progs, jobs=4)
    ctx.events = sum(len(p["use"]) for p in full)
    for p in full[:4]:
        ctx.sample(p["use"][0])
    for i, why in ctx.validate("ReplaceTrace", full, const="CONSTANTS Depth = 0\n KeepGoing = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
