import warngen


def run(ctx):
    rng = ctx.rng
    ctx.model("Warnings", warngen.MODEL % (ctx.pick(4, 6), "FALSE", "FALSE", "FALSE"), "every sequence of lines", workers=8, mem="8g")
    ctx.model("Warnings", warngen.MODEL % (6, "FALSE", "TRUE", "FALSE"), "an empty report erases others", expect="NothingLost", workers=8)
    cases = ctx.generate("Warnings", warngen.MODEL % (ctx.pick(4, 5), "TRUE", "FALSE", "FALSE"), workers=8, mem="8g")
    rng.shuffle(cases)
    progs = []
    for c in cases[:ctx.pick(1500, 12000)]:
        # Lead the behaviour into a report half of the time.
        lead = [dict(k="H", a="ha", b=""), dict(k="L", a=4, b=""), dict(k="W", a="W1", b=""), dict(k="I", a="TestA", b="x")]
        if c[0]["k"] != "W":
            c = lead[:rng.choice([0, 0, 2, 3, 4, 4])] + c
        progs.append(warngen.soup(rng, c))
    for _ in range(ctx.pick(500, 5000)):
        progs.append(warngen.walk(rng))
    for _ in range(ctx.pick(600, 5000)):
        progs.append(warngen.structured(rng, rng.choice(["parse", "parse", "setup"])))
    warngen.run(ctx, progs)
