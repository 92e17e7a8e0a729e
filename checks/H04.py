import datetime
import struct

WORDS = ["", "x", "text with spaces", "a\"b\\c", "<&>", "\u00e9\u4e16\U0001f600", "line\nbreak", "INFO", "12", "null", "{\"a\": 1}", "%d"]
KINDS = ["bool", "int", "uint", "small", "usmall", "uintptr", "named", "enum", "ptrint", "dur", "float", "float32", "time", "str", "namedstr",
         "err", "werr", "stringer", "text", "json", "both", "level", "ip", "mac", "net", "url", "bytes", "nil", "nilptr", "nilslice", "nilmap",
         "list", "dict", "struct", "pstruct", "nan", "chan", "func", "complex", "nanlist", "boolkey", "badjson", "badtext", "badstruct",
         "selfvaluer", "panicvaluer", "longchain"]
INTS = [0, 1, -1, 9, 10, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, 2**31 - 1, -2**31, 2**31, 2**32, 2**53, 2**53 + 1, -2**53 - 1,
        10**18, 2**63 - 1, -2**63, -2**63 + 1]
UINTS = [0, 1, 255, 256, 65535, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 10**19]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.1 + 0.2, 1e21, 1e20, 1e-7, 1e-6, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 123456789.12345679,
          1 / 3, -2.5, 2.0**53 + 2, 1e100, 4.35, 100.0, 1e22, 299792458.0, 3.4028234663852886e38]


def v(t, s="", n=(), a=(), k=""):
    return dict(k=k, t=t, s=s, n=list(n), a=list(a))


def rint(rng, lo, hi):
    c = [i for i in INTS if lo <= i <= hi]
    return rng.choice(c) if rng.random() < 0.5 else rng.randint(lo, hi)


def ruint(rng, hi):
    c = [i for i in UINTS if i <= hi]
    return rng.choice(c) if rng.random() < 0.5 else rng.randint(0, hi)


def rfloat(rng):
    if rng.random() < 0.5:
        return rng.choice(FLOATS)
    while True:
        f = struct.unpack(">d", rng.randbytes(8))[0] if rng.random() < 0.5 else rng.uniform(-1000, 1000)
        if f == f and abs(f) != float("inf"):
            return f


def hexf(f):
    return struct.pack(">d", f).hex()


def rtext(rng):
    if rng.random() < 0.01:
        return rng.choice(WORDS) + rng.choice("ab<é") * rng.choice([200, 1100, 4200])
    return rng.choice(WORDS) if rng.random() < 0.7 else "".join(chr(rng.randint(32, 0x2ff)) for _ in range(rng.randint(1, 9)))


def inner(rng, depth):
    """A part of another value."""
    x = rng.random()
    if depth > 0 and x < 0.15:
        return make(rng, "list", depth - 1)
    if depth > 0 and x < 0.3:
        return make(rng, "dict", depth - 1)
    return make(rng, rng.choice(["bool", "int", "uint", "small", "str", "str", "nil", "nilptr", "nilmap", "namedstr", "dur"]), 0)


def make(rng, kind, depth=3):
    if kind == "bool":
        return v("bool", rng.choice(["true", "false"]))
    if kind in ("int", "dur"):
        return v(kind, str(rint(rng, -2**63, 2**63 - 1)))
    if kind in ("named", "ptrint"):
        return v(kind, str(rint(rng, -2**63, 2**63 - 1)))
    if kind == "small":
        return v(kind, str(rint(rng, -2**31, 2**31 - 1)))
    if kind in ("uint", "uintptr"):
        return v(kind, str(ruint(rng, 2**64 - 1)))
    if kind == "usmall":
        return v(kind, str(ruint(rng, 2**32 - 1)))
    if kind == "enum":
        return v(kind, str(ruint(rng, 255)))
    if kind == "float":
        return v("float", hexf(rfloat(rng)))
    if kind == "float32":
        while True:
            f = rng.choice([0.5, 0.1, 3.4e38, 1e-45, 16777217.0, rng.uniform(-9, 9), rng.uniform(-1e30, 1e30)])
            return v("float32", hexf(struct.unpack(">f", struct.pack(">f", f))[0]))
    if kind == "time":
        n = [rng.choice([1, 999, 1969, 1970, 2000, 2024, 2038, 9999]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
             rng.randint(0, 59), rng.choice([0, 1, 100, 1000, 123456789, 999999999, 500000000, 1000000, 120000, rng.randint(0, 999999999)]),
             rng.choice([0, 0, 60, -60, 330, -570, 845, -1, 1, 720, -720])]
        return v("time", n=n)
    if kind in ("str", "namedstr", "err", "werr", "stringer", "text", "json", "both"):
        return v(kind, rtext(rng))
    if kind == "level":
        return v(kind, rng.choice(["DEBUG", "INFO", "WARN", "ERROR", "INFO+2", "DEBUG-4", "ERROR+100"]))
    if kind == "ip":
        return v(kind, rng.choice(["127.0.0.1", "10.0.255.1", "::1", "2001:db8::8a2e:370:7334"]))
    if kind == "mac":
        return v(kind, rng.choice(["00:00:5e:00:53:01", "02:00:5e:10:00:00:00:01"]))
    if kind == "net":
        return v(kind, rng.choice(["192.0.2.0/24", "2001:db8::/32"]))
    if kind == "url":
        return v(kind, rng.choice(["http://example.com/a?b=c&d=%20", "mailto:a@b", "/x#y"]))
    if kind == "bytes":
        import base64
        b = rng.randbytes(rng.randint(0, 7))
        return v(kind, base64.b64encode(b).decode(), n=b)
    if kind == "list":
        t = rng.choice(["typed", "any", "array"])
        if t != "any":
            k = rng.choice(["int", "str"]) if t == "typed" else "int"
            return v("list", t, a=[make(rng, k, 0) for _ in range(2 if t == "array" else rng.randint(1, 4) if rng.random() < 0.95 else 50)])
        return v("list", t, a=[inner(rng, depth) for _ in range(rng.randint(0, 4))])
    if kind == "dict":
        ks = sorted({rtext(rng) for _ in range(rng.randint(0, 4))}, key=lambda s: s.encode())
        return v("dict", "map", a=[dict(inner(rng, depth), k=k) for k in ks])
    if kind in ("struct", "pstruct"):
        a = [v("int", str(rint(rng, -2**63, 2**63 - 1)), k="a")]
        if rng.random() < 0.5:
            a.append(v("str", rtext(rng) + "!", k="b"))
        a.append(v("nilslice", k="c") if rng.random() < 0.3 else v("list", "typed", a=[make(rng, "int", 0) for _ in range(rng.randint(0, 3))], k="c"))
        if depth > 0 and rng.random() < 0.4:
            a.append(dict(make(rng, "struct", 0), k="d"))
        a.append(dict(inner(rng, min(depth, 1)), k="e"))
        return v("dict", kind, a=a)
    if kind == "nan":
        return v("nan", rng.choice(["7ff8000000000001", "7ff0000000000000", "fff0000000000000"]))
    return v(kind)


def twin(rng, x):
    """A value that is easily taken for another one."""
    t, s = x["t"], x["s"]
    if t == "time":
        a, z = x["n"][:], rng.choice([0, 60, -60, 330, 720])
        at = datetime.datetime(2000 if a[0] > 9000 or a[0] < 3 else a[0], *a[1:6]) + datetime.timedelta(minutes=z - a[7])
        return v("time", n=[a[0] + at.year - (2000 if a[0] > 9000 or a[0] < 3 else a[0]), at.month, at.day, at.hour, at.minute, at.second, a[6], z])
    if t in ("int", "dur", "named", "ptrint"):
        return v(rng.choice(["int", "dur", "named"]), s) if rng.random() < 0.5 else v("uint", str(int(s) % 2 ** 64))
    if t in ("uint", "uintptr"):
        return v("int", str(int(s) - 2 ** 64 if int(s) >= 2 ** 63 else int(s)))
    if t == "float":
        f = struct.unpack(">d", bytes.fromhex(s))[0]
        return v("float", hexf(-f)) if rng.random() < 0.5 else v("float32", hexf(struct.unpack(">f", struct.pack(">f", f))[0] if abs(f) < 1e38 else 1.0))
    if t in ("str", "namedstr", "err", "stringer", "text"):
        return v(rng.choice(["str", "namedstr", "err", "stringer", "text"]), rng.choice([s, s + " ", s.upper(), s[:-1] + "!"]))
    return make(rng, t if t in KINDS and t != "panicvaluer" else "str")


def run(ctx):
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nINVARIANTS Placed EmitCase\n%sCHECK_DEADLOCK FALSE\nCONSTANTS MaxWrap = %d\n Kinds = {%s}\n Once = %s\n Emit = %s\n")
    ctx.model("Values", cfg % ("PROPERTY Rendered\n", ctx.pick(4, 6), '"x"', "FALSE", "FALSE"), "values in LogValuers and groups in every order")
    ctx.model("Values", cfg % ("PROPERTY Rendered\n", 3, '"x"', "TRUE", "FALSE"), "LogValuers resolved only once", expect="Rendered")
    cases = ctx.generate("Values", cfg % ("", 3, ", ".join('"%s"' % k for k in KINDS), "FALSE", "TRUE"))
    rng.shuffle(cases)
    progs = []
    for i, c in enumerate(cases if ctx.thorough else cases[:3000]):
        for h in ("flash", "sloggy"):
            progs.append(dict(h=h, via=rng.choice(["rec", "rec", "any", "with", "replace"]), w=c["w"], v=make(rng, c["kind"])))
    for k in KINDS:
        for _ in range(ctx.pick(25, 400)):
            for h in ("flash", "sloggy"):
                w = [rng.choice(["lv", "plv", "grp", "inl"]) for _ in range(rng.choice([0, 0, 0, 1, 5, 9]))]
                progs.append(dict(h=h, via=rng.choice(["rec", "any", "with", "replace"]), w=w, v=make(rng, k)))
    for p in progs:
        p["pre"] = [twin(rng, p["v"]) for _ in range(rng.choice([0, 0, 1, 3]))]
    full = ctx.drive("val", progs, jobs=4)
    for p in full:
        if p["v"]["t"] == "float32":
            p["v"]["t"] = "float"
    ctx.notes["kinds"] = len(KINDS)
    for p in full[:6]:
        ctx.sample((p["h"], p["via"], p["w"], p["v"]["t"], p["v"]["s"], p["o"]["raw"]))
    for i, why in ctx.validate("ValuesTrace", full):
        p = full[i]
        ctx.violation("%s: %s in %s" % (p["h"], why, p["o"]["raw"][:300]), p)
