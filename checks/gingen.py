"""Lines for the gin writer and the run the two gin checks share."""
CFG = ("SPECIFICATION Spec\nINVARIANTS Agree EmitCase\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxPrefix = %d\n FirstWins = %s\n Emit = %s\n")
PREFIX = ["[GIN]", "[GIN-debug]", "[DEBUG]", "[INFO]", "[WARNING]", "[ERROR]"]
BAD = ["[WARN]", "[]", "[debug]", "[ GIN]", "[Recovery]", "[INFO ]", "[TRACE]", "[GIN-Debug]", "[INFOX]", "[1]"]
WORDS = ["text", "Listening and serving HTTP on :8080", "a [b] c", "x | y", "%s", "[", "]", "[unclosed", "| | |", "100%", "é世界", "\"q\"",
         "GET   /path --> main.f (3 handlers)", "1/2/3", "2024/01/26", "2024/01/26 - 13:21:32", "a\nb", "a\n[INFO] b", "{}", "200 | 1ms", "\\n", "GIN]"]
LEVELS = [-8, -4, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 100]


def rtext(rng):
    return rng.choice(WORDS) + rng.choice(["", "", " ", " " + rng.choice(WORDS)])


def traffic(rng):
    sp = lambda n: " " * rng.randint(0, n)
    code = rng.choice(["200", "404", "500", "101", "0", "007", "99999999"])
    el = rng.choice(["1ms", "5.529751605s", "0s", "1m30s", "812.5µs", "1h2m3s", "", "a b", "\"x\"", "1 ms"])
    cl = rng.choice(["::1", "127.0.0.1", "2001:db8::1", "", "unknown", "a,b", "[::1]:80", "10.0.0.1, 10.0.0.2"])
    me = rng.choice(["GET", "POST", "DELETE", "OPTIONS", "M-SEARCH", "get", "\"GET\""])
    ur = rng.choice(["/", "/chart.svg?tag=With&item=Mem", "/a b", "/a\\\"b", "*", "/é", "/a?q=\\\"", "/[x]", "/%20?a=%7C", "", "/a  b c", "\\\"/\\\"",
                     "/../../etc", "/\\u00a0", "/x\ty", "http://h/p"])
    u = ur if rng.random() < 0.12 and ur and " " not in ur and "\t" not in ur and not ur.startswith('"') else '"%s"' % ur
    return sp(3) + code + sp(2) + "|" + sp(8) + el + sp(1) + "|" + sp(9) + cl + sp(1) + "|" + sp(2) + me + " " + sp(6) + u + sp(1)


def almost(rng):
    t = traffic(rng)
    cols = t.split("|")
    x = rng.randint(0, 9)
    if x == 0:
        cols[0] = rng.choice(["", " ", "2XX", "-1", "2 0", "200 OK", "0x10", "1.5", "99999999999999999999", "２００"])
    elif x == 1:
        del cols[rng.randint(0, 3)]
    elif x == 2:
        cols.insert(rng.randint(0, 4), rng.choice(["", " ", "x"]))
    elif x == 3:
        cols[3] = rng.choice([" GET", "", "  ", " \"/only\"", " GET  "])
    elif x == 4:
        cols[3] = " GET \"/x\" System=gin"
    elif x == 5:
        cols[3] = " GET /a b"
    elif x == 6:
        cols[3] += "\nError #01: something bad"
    elif x == 7:
        cols[3] = cols[3] + " extra \"quoted"
    elif x == 8:
        return t + "|"
    else:
        return "|".join(cols[:2])
    return "|".join(cols)


def line(rng, p_traffic):
    s = ""
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 9])):
        s += rng.choice(["", "", " ", "\t", "\n"]) + rng.choice(PREFIX) + rng.choice(["", " ", " ", "  ", "\n"])
    if rng.random() < 0.07:
        s += rng.choice(BAD) + rng.choice(["", " ", " x] "])
    elif rng.random() < 0.04:
        return s + rng.choice(BAD) + " " + rtext(rng)
    if rng.random() < 0.45:
        s += rng.choice(["2024/01/26 - 13:21:32 | ", "1/2/3-4:5:6|", " 2024/01/26  -  13:21:32  |   ", "2024/1/26 - 13:21 | ", "2024-01-26 - 13:21:32 | "])
    x = rng.random()
    body = traffic(rng) if x < p_traffic else almost(rng) if x < p_traffic * 1.6 else rtext(rng)
    if rng.random() < 0.007:
        n = rng.choice([300, 600, 1100, 1100])
        body = body[:-2] + rng.choice(["x", "%20", "é"]) * n + body[-2:]
    return s + (body if body.strip() else "x") + rng.choice(["", "\n", "\n", "\n\n\n"])


def config(rng, parse):
    how, thow = rng.choice(["const", "var", "nil"]), rng.choice(["const", "var", "nil"])
    return dict(level=0 if how == "nil" else rng.choice(LEVELS), how=how, parse=rng.random() < parse, embed=rng.random() < 0.5,
                tlevel=0 if thow == "nil" else rng.choice(LEVELS), thow=thow, msg=rng.choice(["", "", "traffic", "Gin Traffic!"]),
                group=rng.choice(["", "", "g", "gin traffic"]))


def uses(rng, c, lines):
    out = []
    for l in lines:
        out.append(dict(level=rng.choice(LEVELS) if c["how"] == "var" else c["level"],
                        tlevel=rng.choice(LEVELS) if c["thow"] == "var" else c["tlevel"], line=l))
    return out


def run(ctx, parse, p_traffic, want):
    rng = ctx.rng
    ctx.model("Gin", CFG % (2, "TRUE", "FALSE"), "the first level prefix decides", expect="Agree")
    cases = ctx.generate("Gin", CFG % (ctx.pick(2, 3), "FALSE", "TRUE"), workers=8, mem="8g")
    cases = [c for c in cases if want(c["cfg"])]
    rng.shuffle(cases)
    progs = []
    for c in cases[:ctx.pick(1200, 12000)]:
        cfg = dict(c["cfg"], how=rng.choice(["const", "var"]), thow=rng.choice(["const", "var"]))
        progs.append(dict(cfg=cfg, use=[dict(level=cfg["level"], tlevel=cfg["tlevel"], line=c["line"])]))
    for _ in range(ctx.pick(700, 8000)):
        c = config(rng, parse)
        progs.append(dict(cfg=c, use=uses(rng, c, [line(rng, p_traffic) for _ in range(rng.choice([1, 3, 6]))])))
    rng.shuffle(progs)
    full = ctx.drive("gin", progs, jobs=4)
    ctx.events = sum(len(p["use"]) for p in full)
    for p in full[:6]:
        u = p["use"][0]
        ctx.sample((u["line"], u["err"], u["recs"]))
    for i, why in ctx.validate("GinTrace", full, const="CONSTANTS MaxPrefix = 0\n FirstWins = FALSE\n Emit = FALSE\n"):
        ctx.violation(why, full[i])
