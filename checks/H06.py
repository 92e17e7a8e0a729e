import glob, json, os
import vlib

CFG = """SPECIFICATION Spec
INVARIANTS Exclusive Whole Once Reported NoneLost Returned
PROPERTY Progress
CHECK_DEADLOCK FALSE
CONSTANTS Recs = {%s}
Pieces = %d
Booms = {%s}
Fails = {%s}
Early = %s
Locked = %s
Leaky = %s
Emit = FALSE
VIEW view
"""
GEN = """SPECIFICATION Spec
INVARIANT EmitSched
CHECK_DEADLOCK FALSE
CONSTANTS Recs = {%s}
Pieces = %d
Booms = {%s}
Fails = {%s}
Early = FALSE
Locked = TRUE
Leaky = FALSE
Emit = TRUE
"""


def nums(n):
    return ",".join(str(i) for i in range(1, n + 1))


def models(ctx, booms="{}", fails="{}"):
    ctx.model("Conc", CFG % (nums(3), ctx.pick(2, 3), booms, fails, "FALSE", "TRUE", "FALSE"),
              "concurrent records, mutex and buffer pool", workers=6)
    if ctx.thorough:
        ctx.model("Conc", CFG % (nums(4), 2, booms, fails, "FALSE", "TRUE", "FALSE"),
                  "four concurrent records", workers=6, timeout=850, mem="8g")
    if booms != "{}":
        ctx.model("Conc", CFG % (nums(2), 1, "{}", "{1}", "FALSE", "TRUE", "TRUE"),
                  "variant that keeps the mutex when the writer fails", expect="Returned")
        return
    ctx.model("Conc", CFG % (nums(3), 1, "{}", "{}", "TRUE", "TRUE", "FALSE"),
              "variant that returns the buffer before it is written", expect="Whole")
    ctx.model("Conc", CFG % (nums(2), 1, "{}", "{}", "FALSE", "FALSE", "FALSE"),
              "variant without mutex", expect="Exclusive")


def schedules(ctx, n, pieces, num, booms="{}", fails="{}", exhaustive=False):
    if exhaustive:
        s = ctx.generate("Conc", GEN % (nums(n), pieces, booms, fails))
    else:
        s = ctx.generate("Conc", GEN % (nums(n), pieces, booms, fails), workers=1,
                         args=["-simulate", "num=%d" % num, "-depth", "80", "-seed", str(ctx.seed)])
    uniq = {json.dumps(x, sort_keys=True): x for x in s}
    out = [uniq[k] for k in sorted(uniq)]
    ctx.rng.shuffle(out)
    return out[:num]


def progs_of(ctx, scheds, n, pieces):
    rng = ctx.rng
    ps = []
    for i, s in enumerate(scheds):
        recs = [dict(kind="boom" if r in s["boom"] else "fail" if r in s["fail"] else "ok", path=rng.randint(0, 2),
                     pad=rng.choice([0, 10, 300, 1500]), expect="") for r in range(1, n + 1)]
        ps.append(dict(id=0, h=["flash", "sloggy"][i % 2], rep=rng.random() < 0.3, mode="sched", pieces=pieces,
                       via="stringer" if s["boom"] else ["lv", "stringer"][(i // 2) % 2], recs=recs, sched=s["sched"], procs=0))
    return ps


def stress_of(ctx, count, recs, booms=False):
    rng = ctx.rng
    ps = []
    for i in range(count):
        rs = [dict(kind=rng.choice(["ok", "ok", "ok", "boom", "fail"]) if booms else "ok", path=rng.randint(0, 2),
                   pad=rng.choice([0, 0, 20, 700, 1400]), expect="") for _ in range(recs)]
        ps.append(dict(id=0, h=["flash", "sloggy"][i % 2], rep=i % 4 > 1, mode="stress", pieces=rng.randint(0, 3) if not booms else 1,
                       via="stringer" if booms else rng.choice(["lv", "stringer"]), recs=rs, sched=[], procs=rng.choice([2, 8, 16])))
    return ps


def execute(ctx, progs, racy):
    for i, p in enumerate(progs + racy):
        p["id"] = i
        # Where half of the programs log from, their records' levels.
        p["src"] = ctx.rng.random() < 0.5
        for r in p["recs"]:
            r.update({"from": ctx.rng.randint(0, 3), "level": ctx.rng.choice([-4, 0, 4, 8, -4, 0, 4, 8, 3, 17])})
    obs = ctx.drive("conc", progs, jobs=6, timeout=600)
    ctx.build("conc", race=True)
    logs = os.path.join(ctx.work, "race")
    obs += ctx.drive("conc", racy, race=True, timeout=600, jobs=2,
                     env=dict(GORACE="halt_on_error=0 exitcode=0 log_path=%s" % logs))
    races = [open(f).read() for f in sorted(glob.glob(logs + "*"))]
    races = [r for r in races if "DATA RACE" in r]
    for r in races[:1]:
        where = [l.strip() for l in r.splitlines() if "/" in l and ".go:" in l][:4]
        obs.append(dict(id=len(obs), h="", recs=[dict(kind="ok", path=0, pad=0, expect="")],
                        ev=[dict(a="failed", r=1, w=0, same=True, res="", data="data race: " + " ".join(where))],
                        race=r[:3000]))
    bad = ctx.validate("ConcTrace", obs)
    ctx.events += sum(len(o["ev"]) for o in obs)
    for o in obs[:3]:
        ctx.sample([(e["a"], e["r"]) for e in o["ev"]])
    for i, why in bad:
        ctx.violation("%s: %s" % (obs[i]["h"], why), obs[i])
    return obs


def run(ctx):
    models(ctx)
    two = schedules(ctx, 2, 2, ctx.pick(120, 2000), exhaustive=True)
    three = schedules(ctx, 3, 2, ctx.pick(120, 1500))
    progs = progs_of(ctx, two, 2, 2) + progs_of(ctx, three, 3, 2)
    racy = progs_of(ctx, three[:ctx.pick(20, 200)], 3, 2) + stress_of(ctx, ctx.pick(8, 40), 200)
    progs += stress_of(ctx, ctx.pick(8, 60), ctx.pick(300, 600))
    obs = execute(ctx, progs, racy)
    ctx.notes["schedules"] = len(two) + len(three)
    ctx.notes["records_logged_concurrently"] = sum(len(o["recs"]) for o in obs)
