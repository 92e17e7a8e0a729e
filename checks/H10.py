LEVELS = {-4: "DEBUG", 0: "INFO", 4: "WARN", 8: "ERROR", -8: "DEBUG-4", 2: "INFO+2", 5: "WARN+1", 100: "ERROR+92", -1: "DEBUG+3", 12: "ERROR+4"}
TEXTS = ["a", "b", "key", "some text", "x=y", "{}", "%d", "%", "\"q\"", "", "é世", "\\n", "[ ]", ", ", "(x)", "  "]


def run(ctx):
    rng = ctx.rng
    cfg = "SPECIFICATION Spec\nINVARIANTS OneLineEach EmitHist\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Global = %s\n Emit = %s\n"
    ctx.model("Tracer", cfg % (ctx.pick(5, 6), "FALSE", "FALSE"), "every history of calls", workers=8)
    ctx.model("Tracer", cfg % (4, "TRUE", "FALSE"), "indent counts calls instead of derivations", expect="OneLineEach")
    hists = ctx.generate("Tracer", cfg % (ctx.pick(4, 5), "FALSE", "TRUE"))
    rng.shuffle(hists)
    hists = hists[:ctx.pick(2000, 30000)]
    for _ in range(ctx.pick(400, 4000)):
        h, n = [], 1
        for _ in range(rng.randint(5, 40)):
            op = rng.choice(["Enabled", "Handle", "log", "WithAttrs", "WithGroup"])
            h.append(dict(op=op, h=n if rng.random() < 0.4 else rng.randint(1, n)))
            n += op.startswith("With")
        hists.append(h)
    for n in (20, 45, 45):
        # A long path of derivations.
        hists.append([dict(op=rng.choice(["WithAttrs", "WithGroup"]), h=k) for k in range(1, n)] +
                     [dict(op=op, h=rng.randint(1, n)) for op in ("Enabled", "Handle", "WithGroup", "log") for _ in range(5)])
    progs = []
    for h in hists:
        evs = []
        for c in h:
            num = rng.choice(list(LEVELS))
            as_ = []
            if c["op"] in ("Handle", "log", "WithAttrs"):
                for _ in range(rng.choice([0, 1, 1, 2, 3, 7] + [20] * (rng.random() < 0.05))):
                    i = rng.random() < 0.3
                    as_.append(dict(k=rng.choice(TEXTS), v=str(rng.randint(-99, 99)) if i else rng.choice(TEXTS), i=i))
            evs.append(dict(op=c["op"], h=c["h"], num=num, level=LEVELS[num], msg=rng.choice(TEXTS) * rng.choice([1] * 40 + [300]),
                            n=rng.choice(TEXTS), api=rng.choice(["handler", "logger"]), ret="", out="", **{"as": as_}))
        progs.append(dict(indent=rng.choice(["", "", "  ", "> ", "\t", "xx"]), ev=evs))
    full = ctx.drive("tracer", progs, jobs=4)
    ctx.events = sum(len(p["ev"]) for p in full)
    for p in full[:3]:
        ctx.sample([e["out"] for e in p["ev"]])
    for i, why in ctx.validate("TracerTrace", full, const="CONSTANTS Depth = 0\n Global = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
