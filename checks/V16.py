CFG = "SPECIFICATION Spec\nINVARIANTS TablesOK Acquits Convicts Blames Reports EmitCase\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxDefects = %d\n MaxExcuses = %d\n Emit = %s\n"


def run(ctx):
    rng = ctx.rng
    gen = lambda d, e: ctx.generate("SuiteCheck", CFG % (d, e, "TRUE"), workers=8, mem="8g")
    one = gen(1, 1)
    cases = [c for c in one if not c["off"] and not c["logger"]]
    rest = [c for c in one if c["off"] or c["logger"]]
    rng.shuffle(rest)
    cases += rest[:ctx.pick(500, len(rest))]
    for d, e, quick, thorough in ((2, 0, 600, 10 ** 6), (1, 2, 600, 20000), (2, 1, 800, 10 ** 6)):
        more = gen(d, e)
        rng.shuffle(more)
        cases += more[:ctx.pick(quick, thorough)]
    for c in cases:
        c["defects"].sort(), c["excused"].sort()
    rng.shuffle(cases)
    seen = ctx.drive("suite", cases, jobs=8)
    ctx.events = sum(len(o["tests"]) for o in seen)
    ctx.notes["runs_of_the_suite"] = len(cases)
    for o in seen[:3]:
        ctx.sample((o["defects"], o["excused"], [t["t"] for t in o["tests"] if not t["p"]], [(w["w"], w["t"]) for w in o["warns"]]))
    for i, why in ctx.validate("SuiteCheckTrace", seen, const="CONSTANTS MaxDefects = 0\n MaxExcuses = 0\n Emit = FALSE\n"):
        o = seen[i]
        for w in sorted(set(why.split("; "))):
            ctx.violation("%s (defects %s, warn-only %s%s%s)" % (w, o["defects"], o["excused"], ", loggers only" if o["logger"] else "", ", useWarnings off" if o["off"] else ""), o, signature="%s|%s|%s" % (w, ",".join(o["defects"]), ",".join(o["excused"])))
