import re

CFG = "SPECIFICATION Spec\nINVARIANTS Unchanged Sound EmitCase\nCHECK_DEADLOCK FALSE\nCONSTANTS Benches = {%s}\n Warns = {%s}\n Steps = %d\n Wide = %d\n Random = %s\n Emit = %s\n"
SMALL = ["Disabled", "Simple", "SimpleSource", "Logging"]
MIDDLE = ["Attributes", "KeyValues", "WithAttrsSimple", "WithAttrsAttributes", "WithAttrsKeyValues", "WithGroupAttributes", "WithGroupKeyValues"]
BIG = ["BigGroup"]
WARNS = ["{}", '{"StringAny"}', '{"Mismatch"}', '{"Mismatch", "StringAny"}', '{"SkipDedup"}', '{"Duplicates", "SourceKey"}']


def cfg(benches, warns, steps, wide=0, simulate=False):
    return CFG % (", ".join('"%s"' % b for b in benches), ", ".join(warns), steps, wide, str(simulate).upper(), "TRUE")


def run(ctx):
    rng = ctx.rng
    every = SMALL + MIDDLE + BIG
    gen = lambda *a: ctx.generate("BenchCheck", cfg(*a), workers=8, mem="8g")
    cases = gen(every, WARNS, 0)
    singles = gen(SMALL + MIDDLE + BIG, WARNS[:1], 1) + gen(SMALL + ctx.pick(rng.sample(MIDDLE, 3), MIDDLE), WARNS[1:], 1)
    pairs = gen(SMALL, WARNS[:1], 2)
    for part, steps, num in ((MIDDLE, 2, ctx.pick(1000, 8000)), (BIG, 2, ctx.pick(100, 1000))):
        args = ["-simulate", "num=%d" % num, "-depth", str(steps + 1), "-seed", str(ctx.seed)]
        pairs += ctx.generate("BenchCheck", cfg(part, WARNS, steps, 0, True), args=args, workers=8, mem="8g")
    wide = gen(BIG, WARNS[:1], 1, 2)
    for part, quick, thorough in ((singles, 6000, 60000), (pairs, 2000, 30000), (wide, 500, 5000)):
        rng.shuffle(part)
        # Every benchmark gets its share.
        by = {}
        for c in part:
            by.setdefault(c["b"], []).append(c)
        share = ctx.pick(quick, thorough) // len(by)
        cases += [c for b in sorted(by) for c in by[b][:share]]
    cases = [dict(c, real="", run="") for c in cases]
    for h in ("json", "sloggy", "flash"):
        cases += [dict(b=b, w=[], out=[], real=h, run="") for b in every for _ in range(2)]
    rng.shuffle(cases)
    runs = [dict(b=b, w=[], out=[], real="", run=r) for b in every for r in ("exact", "lost", "doubled")]
    seen = ctx.drive("benchsuite", cases, jobs=8) + ctx.drive("benchsuite", runs, jobs=8)
    ctx.events = len(seen)
    ctx.notes["checked_outputs"] = len(cases)
    ctx.notes["runs_of_the_suite"] = len(runs)
    for o in seen[:3]:
        ctx.sample((o["b"], o["wrote"], o["err"], o["warned"]))
    for i, why in ctx.validate("BenchCheckTrace", seen, const='CONSTANTS Benches = {}\n Warns = {}\n Steps = 0\n Wide = 0\n Random = FALSE\n Emit = FALSE\n'):
        known = re.fullmatch(r"\w+: KNOWN (\w+)", why)
        ctx.violation(why[:600], seen[i], signature="overlooked " + known[1] if known else None)
