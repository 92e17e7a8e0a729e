ALPHA = [0, 8, 9, 10, 12, 13, 27, 31, 32, 34, 38, 47, 60, 62, 65, 92, 98, 110, 117, 123, 125, 127,
         128, 133, 159, 160, 169, 168, 191, 192, 193, 194, 195, 223, 224, 226, 237, 239, 189, 240, 144, 244, 245, 255]
NAMES = [b"", b"a", b"\xe2\x80\xa8", b"\xef\xbf\xbd", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf",
         b"\\u0041", b"\\", b"\"", b"\r\n", b"</script>", b"%s%!d", b"\xef\xbb\xbf", b"\x7f\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\x95\x9c\xea"]
KINDS = ["str", "str", "err", "stringer", "text", "json", "valuer", "slice", "map"]


def models(ctx):
    cfg = ("SPECIFICATION Spec\nINVARIANTS ReadsBack EmitText\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Alphabet = {%s}\n MaxLen = %d\n Skip = {%s}\n Emit = %s\n")
    small = [0, 10, 34, 47, 92, 117, 127, 128, 169, 191, 194, 224, 226, 237, 239, 189, 240, 144, 244, 255]
    out = ctx.generate("Escape", cfg % (", ".join(map(str, sorted(ALPHA))), 2, "", "TRUE"))
    for skip, name in (([34], "quote"), ([92], "backslash"), ([10], "newline"), ([31, 0], "control"), ([255], "invalid byte")):
        ctx.model("Escape", cfg % (", ".join(map(str, small + ([] if 31 in small else [31]))), 2, ", ".join(map(str, skip)), "FALSE"),
                  "encoding that leaves a %s as it is" % name, expect="ReadsBack")
    ctx.model("Escape", cfg % (", ".join(map(str, small)), ctx.pick(3, 4), "", "FALSE"), "encoding of all texts", workers=8)
    deep = ctx.generate("Escape", cfg % ("34, 92, 127, 128, 169, 194, 226, 240, 144, 65", 3, "", "TRUE"))
    return out, deep


def rtext(rng):
    x = rng.random()
    if x < 0.25:
        return list(rng.choice(NAMES)) + list(rng.choice(NAMES))
    if x < 0.5:
        return [rng.choice(ALPHA) for _ in range(rng.randint(0, 8))]
    if x < 0.7:
        return [rng.randint(0, 255) for _ in range(rng.randint(1, 10))]
    s = "".join(chr(rng.choice([rng.randint(0, 0x7f), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xd7ff),
                                rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff)]))
                for _ in range(rng.randint(1, 5)))
    b = list(s.encode())
    if x > 0.85:
        b = b[:max(1, len(b) - rng.randint(0, 3))]
    return b


class Feed:
    """Texts the model generated, each used once, then random ones."""

    def __init__(self, rng, texts):
        self.rng, self.left = rng, list(texts)

    def __call__(self, nonempty=False):
        t = self.left.pop() if self.left else rtext(self.rng)
        return t if t or not nonempty else [97]


def attr(feed, rng, depth):
    if depth > 0 and rng.random() < 0.2:
        return dict(k=feed(True), t="grp", v=[], a=[attr(feed, rng, depth - 1) for _ in range(rng.randint(1, 3))])
    t = rng.choice(KINDS)
    return dict(k=feed(True), t=t, v=feed(), a=[])


def prog(feed, rng, h):
    c = dict(tk=[], lk=[], mk=[], tf=[], ln=[])
    if h == "flash" and rng.random() < 0.4:
        for k in ("tk", "lk", "mk", "ln"):
            if rng.random() < 0.5:
                c[k] = feed(True)
        if rng.random() < 0.5:
            c["tf"] = feed(True)
    steps = []
    for _ in range(rng.randint(0, 3)):
        if rng.random() < 0.5:
            steps.append(dict(op="group", n=feed(True), **{"as": []}))
        else:
            steps.append(dict(op="with", n=[], **{"as": [attr(feed, rng, 2) for _ in range(rng.randint(1, 2))]}))
    return dict(h=h, steps=steps, msg=feed(), **{"as": [attr(feed, rng, 2) for _ in range(rng.randint(1, 4))]}, **c)


def run(ctx):
    rng = ctx.rng
    pairs, deep = models(ctx)
    rng.shuffle(deep)
    progs = []
    for h in ("flash", "sloggy"):
        feed = Feed(rng, pairs + deep[:ctx.pick(400, 100000)])
        while feed.left:
            progs.append(prog(feed, rng, h))
        for _ in range(ctx.pick(600, 8000)):
            progs.append(prog(feed, rng, h))
        for n in ctx.pick([1, 127, 128, 1023, 1024, 1025, 4096], [1, 127, 128, 1023, 1024, 1025, 2048, 4096, 16384]):
            # Long texts: buffers have to grow in the middle of them.
            for unit in ([97], [226, 130, 172], [34], [97, 10]):
                progs.append(dict(prog(feed, rng, h), msg=unit * (n // len(unit) + 1)))
            # And long texts with something to be escaped or replaced near their end, in every place texts occur.
            for place in ("msg", "msg", "key", "group", "value"):
                odd = rng.choice(rng.choice([[[255], [226, 130], [237, 160, 128], [128]], [[10], [34], [0], [127], [92], [195, 169]]]))
                text = [rng.choice([97, 122, 34])] * n + odd + [98] * rng.randint(0, 3)
                p = dict(prog(feed, rng, h), steps=[])
                if place == "msg":
                    p["msg"] = text
                elif place == "group":
                    p["steps"] = [dict(op="group", n=text, **{"as": []})]
                else:
                    p["as"] = [dict(k=text if place == "key" else [107], t=rng.choice(KINDS) if n < 2000 else "str",
                                    v=text if place == "value" else [118], a=[])]
                progs.append(p)
    rng.shuffle(progs)
    full = ctx.drive("esc", progs, jobs=4)
    ctx.events = sum(len(p["o"]["out"]) for p in full)
    for p in full[:4]:
        ctx.sample(dict(h=p["h"], msg=p["msg"], out=bytes(p["o"]["out"]).decode("latin1")))
    for i, why in ctx.validate("EscapeTrace", full):
        p = full[i]
        ctx.violation("%s: %s in %r" % (p["h"], why, bytes(p["o"]["out"])[:300]), p)
