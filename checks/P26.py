import warngen
import webgen
CFG = ("SPECIFICATION Spec\nINVARIANTS Own Reach NoDangling EmitRun\nCHECK_DEADLOCK FALSE\nCONSTANTS Handlers = %d\n Tests = %d\n Checks = %d\n Clients = %d\n Depth = %d\n Variant = \"%s\"\n Emit = %s\n")


def run(ctx):
    rng = ctx.rng
    ctx.model("Site", CFG % (2, 2, 1, 2, ctx.pick(2, 3), "right", "FALSE"), "two clients ask at the same time", workers=8, mem="8g")
    for v, why in (("shared", "Own"), ("first", "Own"), ("warned", "Reach"), ("alltests", "NoDangling")):
        ctx.model("Site", CFG % (2, 2, 1, 2, 2, v, "FALSE"), "pages that are " + v, expect=why, workers=1)
    runs = ctx.generate("Site", CFG % (3, 3, 2, 2, 8, "right", "TRUE"), workers=1, mem="8g",
                        args=["-simulate", "num=%d" % ctx.pick(60, 600), "-depth", "17", "-seed", str(ctx.seed)])
    full = ctx.drive("server", [webgen.program(rng, dict(data=[[t, h] for h, t in r["bench"]], warns=r["warns"]), r["visits"]) for r in runs], jobs=8)
    more = [webgen.program(rng, dict(data=[[i, j] for i in range(1, 6) for j in range(1, 5) if rng.random() < 0.7], warns=[[h, 1] for h in range(1, 5) if rng.random() < 0.7]), clients=6)
            for _ in range(ctx.pick(8, 60))]
    # More handlers or tests than usual.
    for t, h in ctx.pick([(2, 14), (13, 2)], [(2, 14), (13, 2), (1, 30), (30, 1)]):
        more.append(webgen.program(rng, dict(data=[[i + 1, j + 1] for i in range(t) for j in range(h)], warns=[[j + 1, 1] for j in range(h) if rng.random() < 0.3]), clients=2))
    full += ctx.drive("server", more, race=True, jobs=4, timeout=800)
    ev, of = webgen.events(full, lambda w: w != "chart")
    ctx.events = len(ev)
    for p in full[:2]:
        ctx.sample((p["btext"], [r["path"] for r in p["res"]]))
    for i, why in ctx.validate("SiteTrace", ev, const=warngen.CONST, starts=lambda e: e["k"] == "load"):
        ctx.violation(why[:1500], webgen.brief(full[of[i]], ev[i].get("path")))
