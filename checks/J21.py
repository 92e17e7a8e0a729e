import json

CFG = ("SPECIFICATION Spec\nINVARIANTS Agrees EmitText\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS MaxLex = %d\n MaxDepth = %d\n Emit = %s\n")
NAMES = ["a", "b", "fields", "Fields", "", "time", "a\"b", "a\\", "{", "}", ":", ",", "\u00e9", "\u2028", "\U0001f600", "a\ufffd", "\ufffd", "a b", "\n", "\t", "[", "true", "\u0000", "0"]


def spell(rng, s):
    """One of the ways to write a string."""
    out = '"'
    for c in s:
        x = rng.random()
        if c in '"\\' and x < 0.7:
            out += "\\" + c
        elif c in '"\\' or ord(c) < 32 or x < 0.12:
            if c == "\n" and x < 0.5:
                out += "\\n"
            else:
                u = c.encode("utf-16-be").hex()
                out += "".join("\\u" + (u[i:i + 4].upper() if x < 0.05 else u[i:i + 4]) for i in range(0, len(u), 4))
        elif c == "/" and x < 0.3:
            out += "\\/"
        else:
            out += c
    return out + '"'


def ws(rng):
    return "".join(rng.choice(" \t\r\n") for _ in range(rng.choice([0, 0, 0, 1, 1, 3])))


def number(rng):
    s = rng.choice(["", "-"]) + rng.choice(["0", "1", "9", "10", "123456789012345678901234567890"])
    if rng.random() < 0.4:
        s += "." + rng.choice(["0", "5", "001"])
    if rng.random() < 0.4:
        s += rng.choice("eE") + rng.choice(["", "+", "-"]) + rng.choice(["0", "5", "308", "007"])
    return s


def value(rng, depth):
    x = rng.random()
    if depth > 0 and x < 0.2:
        return obj(rng, depth - 1, False)
    if depth > 0 and x < 0.35:
        n = rng.choice([0, 0, 1, 2, 4])
        return "[" + ws(rng) + ("," + ws(rng)).join(value(rng, depth - 1) + ws(rng) for _ in range(n)) + "]"
    if x < 0.6:
        return spell(rng, rng.choice(NAMES) + rng.choice(NAMES))
    if x < 0.8:
        return number(rng)
    return rng.choice(["true", "false", "null"])


def obj(rng, depth, top, few=False):
    names = NAMES[:4] if few else NAMES
    ms = []
    for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 8])):
        k = rng.choice(names)
        if k == "fields" and not top:
            k = "Fields"
        if k == "fields" and rng.random() < 0.7 and depth > 0:
            v = obj(rng, depth - 1, False, few)
        else:
            v = value(rng, depth)
        ms.append(ws(rng) + spell(rng, k) + ws(rng) + ":" + ws(rng) + v + ws(rng))
    return "{" + ",".join(ms or [ws(rng)]) + "}"


def outside(text):
    """Positions within the object that are not inside a string."""
    out, ins, esc = [], False, False
    for i, c in enumerate(text):
        if not ins:
            out.append(i)
        if ins and esc:
            esc = False
        elif ins and c == "\\":
            esc = True
        elif c == '"':
            ins = not ins
    return out


def corrupt(rng, text):
    """A text that is certainly wrong in the structure the counter checks."""
    pos = [i for i in outside(text) if 0 < i]
    kind = rng.choice(["cut", "stray", "colon", "colon2", "comma2", "lead", "word", "nocomma"])
    def at(c):
        ps = [i for i in pos if text[i] == c]
        return rng.choice(ps) if ps else None
    if kind == "cut":
        return "cut", text[:rng.randint(1, len(text.rstrip()) - 1)]
    if kind == "stray":
        ps = [i for i in pos if text[i] in ",:}]" or (text[i] == '"' and text[i - 1] in "{[,: \n\t\r")]
        if ps:
            i = rng.choice(ps)
            return "bad", text[:i] + rng.choice("x@;=") + text[i:]
    if kind == "colon":
        i = at(":")
        if i is not None:
            return "bad", text[:i] + text[i + 1:]
    if kind == "colon2":
        i = at(":")
        if i is not None:
            return "bad", text[:i] + "::" + text[i + 1:]
    if kind == "comma2":
        i = at(",")
        if i is not None:
            return "bad", text[:i] + ",," + text[i + 1:]
    if kind == "lead":
        i = rng.choice([0] + [j for j in pos if text[j] in "{["])
        return "bad", text[:i + 1] + "," + text[i + 1:]
    if kind == "word":
        for w, b in rng.sample([("true", "trux"), ("false", "flase"), ("null", "nul")], 3):
            ps = [i for i in pos if text.startswith(w, i)]
            if ps:
                i = rng.choice(ps)
                return "bad", text[:i] + b + text[i + len(w):]
    if kind == "nocomma":
        # Only where the next member or element starts with a quote.
        ps = [i for i in pos if text[i] == "," and text[i + 1:].lstrip()[:1] == '"']
        if ps:
            i = rng.choice(ps)
            return "bad", text[:i] + " " + text[i + 1:]
    return "cut", text[:-1]


def case(kind, text):
    return dict(kind=kind, text=list(text.encode("utf-8", "surrogatepass")))


def run(ctx):
    rng = ctx.rng
    cases = ctx.generate("JsonGen", CFG % (ctx.pick(9, 10), 3, "TRUE"), workers=8)
    ok = [c for c in cases if c["kind"] == "ok"]
    rest = [c for c in cases if c["kind"] != "ok"]
    rng.shuffle(ok)
    rng.shuffle(rest)
    cases = ok[:ctx.pick(2500, 40000)] + rest[:ctx.pick(2500, 40000)]
    for i in range(ctx.pick(1500, 20000)):
        few = rng.random() < 0.5
        t = obj(rng, rng.randint(0, 4), True, few)
        cases.append(case("ok", ws(rng) + t + ws(rng)))
        # A top-level object within which nothing is ambiguous can be corrupted.
        cases.append(case(*corrupt(rng, t)))
        if i % 3 == 0:
            b = bytearray(t.encode())
            for _ in range(rng.randint(1, 4)):
                j = rng.randint(0, len(b))
                if rng.random() < 0.5:
                    b[j:j] = bytes([rng.choice([0, 34, 92, 123, 125, 91, 93, 44, 58, 45, 46, 101, 117, 128, 255, 237, rng.randint(0, 255)])])
                else:
                    del b[j:j + 1]
            cases.append(dict(kind="any", text=list(b)))
    cases.append(case("ok", "{\"a\":" + "[" * 200 + "]" * 200 + ",\"a\":" + "{\"fields\":" * 0 + "1}"))
    cases.append(case("ok", "{\"k\":" + "{\"a\":" * 100 + "0" + "}" * 100 + ",\"a\":0}"))
    # Far deeper, wider and longer than usual.
    for n in (300, 1000):
        cases.append(case("ok", "{\"a\":" + "[{\"b\":" * n + "1" + "}]" * n + ",\"a\":2}"))
        cases.append(case("ok", "{\"a\":[" + ",".join(["[]", "{}", "0", "\"\""][j % 4] for j in range(n)) + "],\"b\":1}"))
        cases.append(case("ok", "{" + ",".join("\"%s%d\":%d" % (rng.choice("ab"), rng.randint(0, n // 3), j) for j in range(n // 2)) + "}"))
        cases.append(case("ok", "{\"x\":1,\"fields\":{" + ",".join("\"k%d\":{}" % (j % 40) for j in range(n // 4)) + "}}"))
    for n in (1024, 4096, 9000):
        long = rng.choice(["k", "\\n", "\u00e9"]) * n
        cases.append(case("ok", "{\"" + long + "\":\"" + rng.choice(["v", "\\\""]) * n + "\",\"" + long + "\":1,\"z\":" + " " * n + "0}"))
        cases.append(case("ok", "{\"n\":" + "1" * n + "." + "0" * n + "e" + "1" * 9 + "}"))
    rng.shuffle(cases)
    obs = ctx.drive("counter", cases, jobs=4)
    ctx.notes["kinds"] = {k: sum(c["kind"] == k for c in obs) for k in ("ok", "cut", "bad", "any")}
    for o in obs[:6]:
        ctx.sample(dict(kind=o["kind"], text=bytes(o["text"]).decode("latin1"), o=o["o"]))
    for i, why in ctx.validate("CounterTrace", obs):
        o = obs[i]
        text = bytes(o["text"]).decode("latin1")
        if "GENERATOR" in why:
            if o["kind"] == "ok":
                import vlib
                raise vlib.CheckError("generator: %s: %s" % (why, text))
            continue  # the corruption happened to give a valid text: nothing to require
        ctx.violation("%s for %r (%s)" % (why, text[:200], o["kind"]), o)
