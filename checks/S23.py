import warngen
CFG = ("SPECIFICATION Spec\nINVARIANTS Bounded HundredIff Repeats Falls Alike EmitCase\nCHECK_DEADLOCK FALSE\nCONSTANTS Handlers = {%s}\n Levels = {%s}\n Names = {%s}\n"
       " MaxW = %d\n CountsRepeats = %s\n Emit = %s\n")
LEVELS = [4, 3, 2, 1]
# Names at levels: predefined ones and others.
KNOWN = {4: ["DefaultLevel", "LogAttrNotFound", "ZvOther", "ZvOne"], 3: ["CanceledContext", "Resolver", "Zz", "Qq"], 2: ["Duplicates", "LevelCase", "Yy", "Q"],
         1: ["NoReplAttr", "Undefined", "Unused", "Xx"]}


def cfg(h, l, n, w, repeats="FALSE", emit="FALSE"):
    q = lambda xs: ", ".join('"%s"' % x for x in xs)
    return CFG % (q("abcd"[:h]), ", ".join(map(str, LEVELS[:l])), q("xyz"[:n]), w, repeats, emit)


def program(rng, facts, clean, weights):
    """facts: (handler, level, warning); clean: handlers with a report without warnings."""
    texts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        texts.append([])
    for h in sorted({f[0] for f in facts} | set(clean), key=lambda _: rng.random()):
        mine = [f for f in facts if f[0] == h]
        # Any part of the warnings in each of the texts, all of them at least once.
        home = {f: rng.randrange(len(texts)) for f in mine}
        for i, t in enumerate(texts):
            part = [f for f in mine if home[f] == i or rng.random() < 0.2]
            if not part and not (not mine and i == 0):
                continue
            t.append("Warnings for %s:" % h)
            if not part:
                t.append("  None")
            for l in sorted({f[1] for f in part}, key=lambda _: rng.random()):
                t.append("  " + warngen.LEVELS[l])
                for f in sorted((f for f in part if f[1] == l), key=lambda _: rng.random()):
                    n = rng.choice([1, 1, 2, 3, 12])
                    t.append("  %4d [%s] %s" % (n, f[2], rng.choice(["some summary", "some summary", "reworded"])))
                    for _ in range(n):
                        t.append("         %s: %s" % (rng.choice(["TestAlpha", "BenchmarkBigGroup", "TestBetaGamma"]), rng.choice(warngen.TEXTS)))
    ask = sorted({f[0] for f in facts} | set(clean) | {"nobody"})
    rng.shuffle(ask)
    return dict(mode="warn", raw="", texts=["\n".join(t) + "\n" for t in texts], lines=0, facts=[dict(h=h, level=l, w=w) for h, l, w in facts], ask=ask, askt=[],
                weights={str(l): w for l, w in weights.items() if w or rng.random() < 0.5}, weight=[weights.get(l, 0) for l in (1, 2, 3, 4)],
                include=[], exclude=[], tests=[], scores=[], panic="")


def run(ctx):
    rng = ctx.rng
    ctx.model("WarnScores", cfg(2, 2, 2, 2), "two handlers, any weights", workers=8)
    ctx.model("WarnScores", cfg(3, 1, 3, 2), "three handlers, three warnings", workers=8)
    if ctx.thorough:
        ctx.model("WarnScores", cfg(3, 2, 2, 2), "three handlers, two levels", workers=8, mem="8g")
        ctx.model("WarnScores", cfg(2, 3, 2, 1), "three levels", workers=8, mem="8g")
    ctx.model("WarnScores", cfg(2, 1, 2, 1, repeats="TRUE"), "repeats count", expect="Bounded")
    cases = ctx.generate("WarnScores", cfg(2, 2, 2, 1, emit="TRUE"), workers=8) + ctx.generate("WarnScores", cfg(3, 1, 3, 2, emit="TRUE"), workers=8)
    rng.shuffle(cases)
    progs = []
    for c in cases[:ctx.pick(1500, 4000)]:
        hs = dict(zip("abcd", rng.sample(warngen.HNAMES, 4)))
        levels = sorted({g[1] for g in c["got"]} | {4, 3})
        # Levels of the model become any levels.
        to = dict(zip((4, 3, 2, 1), rng.sample(LEVELS, 4)))
        ns = {l: dict(zip("xyz", rng.sample(KNOWN[to[l]], 3))) for l in to}
        facts = [(hs[h], to[l], ns[l][n]) for h, l, n, _ in c["got"]]
        w = c["weight"]
        w = dict(enumerate(w, 1)) if isinstance(w, list) else {int(k): v for k, v in w.items()}
        progs.append(program(rng, facts, [h for h in hs.values() if rng.random() < 0.5], {to[l]: v * rng.choice([1, 1, 4]) for l, v in w.items()}))
    for i in range(ctx.pick(1000, 10000)):
        hs = rng.sample(warngen.HNAMES, rng.randint(1, 6))
        if i % 50 == 49:
            hs += ["more/h%d" % j for j in range(rng.choice([12, 30]))]
        p = rng.choice([0.1, 0.3, 0.7])
        ns = {l: rng.sample(KNOWN[l], rng.randint(0, 4)) for l in LEVELS}
        if i % 50 == 24:
            ns = {l: ns[l] + ["More%d%d" % (l, j) for j in range(rng.choice([0, 8, 20]))] for l in LEVELS}
        if rng.random() < 0.2:
            ns = {l: ["Moved"] + ns[l] for l in LEVELS}  # a warning whose level changed
        facts = [(h, l, n) for h in hs for l in LEVELS for n in ns[l] if rng.random() < p]
        progs.append(program(rng, facts, hs, {l: rng.choice([0, 1, 1, 2, 4, 8] + [100] * (i % 50 not in (24, 49))) for l in LEVELS if rng.random() < 0.9}))
    full = ctx.drive("scores", progs, jobs=8)
    ctx.events = sum(len(p["scores"]) for p in full)
    for p in full[:3]:
        ctx.sample((p["texts"][0][:400], p["weight"], p["scores"][:2]))
    for i, why in ctx.validate("WarnScoresTrace", full, const="CONSTANTS Handlers = {}\n Levels = {}\n Names = {}\n MaxW = 0\n CountsRepeats = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
