"""Reports as lines and as calls, and the run the two report checks share."""
import json
MODEL = "SPECIFICATION Spec\nINVARIANTS NothingLost EmitLines\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Emit = %s\n NoneErases = %s\n KeepWarning = %s\n"
CONST = "CONSTANTS Depth = 0\n Emit = FALSE\n NoneErases = FALSE\n KeepWarning = FALSE\n"
LEVELS = {4: "Required", 3: "Implied", 2: "Suggested", 1: "Administrative"}
WARNS = [("Unused", 1, "Unused Warnings(s)"), ("ZvOne", 4, "One summary"), ("ZvTwo", 4, "Two [with brackets] and: colon"), ("ZvThree", 3, "Three 100% 'quoted'"),
         ("ZvFour", 2, "+ plus {braces}"), ("ZvFive", 1, "Required"), ("ZvSix", 2, "x")]
CAT = [dict(name=n, level=l, summary=s) for n, l, s in WARNS]
FNS = ["TestAlpha", "TestBetaGamma", "Benchmark_Delta", "BenchmarkTestEpsilon", "Test_Zeta", "Unknown", "TestTest", "Verify$Eta", "TestHTTP2Log", "BenchmarkBigGroup"]
TEXTS = ["", "", "no 'source' key", "map[alpha:2 charlie:3]", "x: y: z", "a", "{}", "a {b}", "[x] 3 [y]", "None", "Required", "12 [W] s", "Warnings for x:", ":]",
         "é世界", "%d %s", "+", "+x", "\"q\"", "#", "# c", "Handlers by warning:", ":", "a:"]
RECS = ["", "", '{"a":1}', '{"level":"INFO","msg":"x y","g":{"n":[1,2]}}', '{"a":1,}', "{", '{"a":"\\n"}', '{"x":12345678901234567890}', "{ }", '{"big":"<LONG>"}',
        '{"a":1,"a":2}', '{"msg":"Warnings for x:"}']
HNAMES = ["phsym/zeroslog", "slog/JSONHandler", "a", "x y", "Weird: name", "samber/slog-zap", "None", "Required", "é/h"]
EXTRA = ["", "more", "  indented", "{}", "None", "+", "12 [W] s", "Warnings for x:", "a: b"]
NOISE = ["some unrelated words", "--- PASS: TestX (0.00s)", "time=x level=WARN msg=\"a b\"", "goos linux", "...   ...", "=== RUN   TestX", "2024/02/25 07:54:11 WARN x"]
LINKS = [("slog/JSONHandler", "https://pkg.go.dev/log/slog#JSONHandler"), ("x", "http://y"), ("a b", "u")]


def line(k, a="", b="", c=()):
    return dict(k=k, a=a, b=b, c=list(c))


def render(rng, l, pre):
    """The text of an abstract line, as managers and suites print it."""
    k, a, b = l["k"], l["a"], l["b"]
    sp = rng.choice(["", "", " "])
    if k == "H":
        return rng.choice(["", pre.rstrip() + "\n"]) + "%sWarnings for %s:" % (pre, a) + sp
    if k == "none":
        return pre + "  None"
    if k == "L":
        return pre + "  " + LEVELS[a]
    if k == "W":
        return pre + "  %4d [%s] %s" % (rng.randint(1, 12), a, b) + sp
    if k == "I":
        return pre + "         " + (a + ": " + b if b or rng.random() < 0.2 else a) + sp
    if k == "X":
        return pre + "           +" + a + sp
    if k == "R":
        return pre + "           " + a
    if k == "S":
        ls = ["", "two", "- x"] if l["b"] and rng.random() < 0.3 else []
        head = [":[ " + a] + ([":: Summary ^x^ text" + sp] + [":: " + x for x in ls] if b else [])
        return "\n".join(head + [":> %s --> %s" % (x["name"], x["url"]) for x in l["c"]] + [":]"])
    if k == "E":
        return pre + "\n" + pre + " Handlers by warning:"
    return a


def report(rng, h):
    """Lines of one report as a manager prints it."""
    out = [line("H", h)]
    if rng.random() < 0.25:
        return out + [line("none")]
    for lv in sorted(rng.sample([1, 2, 3, 4], rng.randint(1, 3)), reverse=True):
        out.append(line("L", lv))
        for n, _, s in sorted(w for w in WARNS if w[1] == lv):
            if rng.random() < 0.3:
                continue
            out.append(line("W", n, s))
            for _ in range(rng.choice([1, 1, 2, 4, 14] + [70] * (rng.random() < 0.03))):
                out.append(line("I", rng.choice(FNS), rng.choice(TEXTS)))
                if rng.random() < 0.3:
                    out += [line("X", rng.choice(EXTRA)) for _ in range(rng.randint(1, 3))]
                rec = rng.choice(RECS)
                if rec:
                    out.append(line("R", rec))
                    if rng.random() < 0.15:
                        out.append(line("X", '{"b":2}'))
    return out


def summary(rng, names):
    return line("S", rng.choice(names), rng.random() < 0.8, [dict(name=n, url=u) for n, u in rng.sample(LINKS, rng.randint(0, 2))])


def lookup(rng, names):
    return [dict(name=n, tag="Tag%s" % chr(65 + i)) for i, n in enumerate(names) if rng.random() < 0.6 and " " not in n]


def blank(**kw):
    return dict(dict(src="", mode="parse", texts=[], sources=[], lookup=[], warns=CAT, mgrs=[], acts=[], tail="", lines=[], nosum=False, query=False,
                     handlers=None, tests=None, ws=None, hnames=None, err="", panic=""), **kw)


def finish(rng, sources, parts, lk, mode="parse"):
    """A program from the abstract lines of each source."""
    texts, lines = [], []
    for i, (s, ls) in enumerate(zip(sources, parts)):
        pre = "# " if mode == "setup" and i == 0 else rng.choice(["", "", "# ", "#"])
        t = []
        for l in ls:
            if mode == "setup" and i == 0 and l["k"] == "S":
                t.append(render(rng, l, "").replace(":[", "# :[").replace("\n", "\n# "))
            else:
                t.append(render(rng, l, pre))
        if mode == "setup" and i == 0:
            t = ['# Handler[%s]="%s"' % (x["tag"], x["name"]) for x in lk] + t
        texts.append("\n".join(t) + rng.choice(["", "\n", "\n\n"]))
        if i:
            lines.append(line("F", s))
        lines += ls
    return blank(src=sources[0], mode=mode, texts=texts, sources=sources, lookup=lk, lines=lines, query=rng.random() < 0.5)


def soup(rng, c):
    """A program from the lines of a model behaviour, cut at the ends of sources."""
    parts, names = [[]], {}
    for l in c:
        if l["k"] == "F":
            parts.append([])
            continue
        k, a, b = l["k"], l["a"], l["b"]
        cc = []
        if k == "H":
            a = names.setdefault(a, rng.choice([x for x in HNAMES if x not in names.values()]))
        elif k == "S":
            s = summary(rng, [names.get("ha", "nobody")])
            a, b, cc = s["a"], s["b"], s["c"]
        elif k == "W":
            a = {"W1": "ZvOne", "W2": "ZvTwo"}[a]
            b = dict((n, s) for n, _, s in WARNS)[a]
        elif k == "I":
            b = rng.choice(TEXTS) if b else ""
        elif k == "X":
            a = rng.choice(EXTRA)
        elif k == "R":
            a = rng.choice([x for x in RECS if x and len(x) < 999])
        elif k == "N":
            a = rng.choice(NOISE)
        parts[-1].append(line(k, a, b, cc))
    sources = [rng.choice(["Bench", "Verify", ""])] + ["Verify", "Other", "", "More", "x", "y", "z"][:len(parts) - 1]
    return finish(rng, sources, parts, lookup(rng, list(names.values())))


def walk(rng):
    """A long random sequence of lines; a warning has a level in its report."""
    c, level, src = [], False, 0
    for _ in range(rng.choice([8, 15, 30])):
        k = rng.choice("HLLWWWIIIIIXRSN") if rng.random() < 0.93 else rng.choice(["none", "none", "F", "E"])
        if k == "F" and src == 6 or k == "W" and not level:
            continue
        src += k == "F"
        level = k == "L" or level and k not in ("H", "F")
        a = {"H": rng.choice(["ha", "hb"]), "L": rng.choice([4, 2]), "W": rng.choice(["W1", "W2"]), "I": rng.choice(["TestA", "BenchmarkTestB"]),
             "X": "more", "R": "{}", "F": "Verify"}.get(k, "")
        c.append(dict(k=k, a=a, b="x" if k == "I" and rng.random() < 0.5 else ""))
    return soup(rng, c)


def structured(rng, mode):
    names = rng.sample([n for n in HNAMES if mode != "setup" or " " not in n], rng.randint(1, 4))
    lk = lookup(rng, names)
    sources = ["Bench", "Verify"] if mode == "setup" else rng.sample(["Bench", "Verify", "", "X"], rng.randint(1, 3))
    parts = []
    for i, _ in enumerate(sources):
        ls = []
        for h in rng.sample(names, rng.randint(0, len(names))):
            ls += report(rng, h)
            if rng.random() < 0.15:
                ls.insert(rng.randint(0, len(ls)), summary(rng, names))
            if rng.random() < 0.15:
                ls.insert(rng.randint(0, len(ls)), line("N", rng.choice(NOISE)))
        if rng.random() < 0.4:
            ls = [line("N", rng.choice(NOISE)) for _ in range(3)] + ls
            ls += [line("E")] + report(rng, rng.choice(names)) * rng.randint(0, 1) + [line("N", "PASS")]
        if mode == "setup" and i == 0:
            ls = [l for l in ls if l["k"] != "S"]  # lines of a summary aren't passed on as warning text
        parts.append(ls)
    return finish(rng, sources, parts, lk, mode)


def managers(rng):
    names = rng.sample(HNAMES, rng.randint(1, 4))
    acts = []
    for m in range(1, len(names) + 1):
        for _ in range(rng.choice([0, 1, 2, 5, 30] + [130] * (rng.random() < 0.05))):
            w = rng.choice(CAT)["name"]
            text = rng.choice(CAT)["name"] if w == "Unused" else rng.choice(TEXTS + [" "])
            if w != "Unused" and rng.random() < 0.3:
                text += "".join("\n" + rng.choice(EXTRA) + rng.choice(["", " ", "\t"]) for _ in range(rng.choice([1, 2, 3] + [15] * (rng.random() < 0.1))))
            rec = rng.choice(RECS) + ("\n" if rng.random() < 0.5 else "")
            if len(rec) > 2 and rng.random() < 0.15:
                rec = rec.rstrip("\n") + rng.choice(['\n{"second":true}\n', "\n  x\n\n y: z"])
            acts.append(dict(m=m, w=w, fn=rng.choice(FNS), text=text, rec="" if rec == "\n" and rng.random() < 0.5 else rec))
    rng.shuffle(acts)
    src = rng.choice(["", "Bench", "Verify"])
    return blank(src=src, mode="managers", sources=[src], lookup=lookup(rng, names), acts=acts, nosum=True,
                 mgrs=[dict(name=n, show=rng.choice(["", "# "])) for n in names], tail=rng.choice(["", "\n Handlers by warning:\nTestX: no\n"]))


def run(ctx, progs):
    full = ctx.drive("views", progs, jobs=8)
    ctx.events = sum(len(p["acts"]) + len(p["lines"]) for p in full)
    for p in full[:3]:
        ctx.sample((p["texts"][0][:600], json.dumps(p["handlers"])[:600]))
    for i, why in ctx.validate("WarningsTrace", full, const=CONST):
        ctx.violation(why[:1500], full[i])
