"""Programs for the web server: files, requests, and their answers as events."""
import contextlib
import re
from urllib.parse import quote, unquote
import D18
import T25
import warngen
WARNS = [("EmptyAttributes", 4, "Empty attribute(s) logged"), ("LevelVar", 4, "Unable to change level"), ("DefaultLevel", 3, "x > y"), ("Duplicates", 2, "Duplicate <field>(s) found"),
         ("LevelCase", 2, ""), ("SkippingTest", 1, "Skipping & test"), ("ZvOne", 4, "One summary"), ("ZvTwo", 3, "Two [with brackets] and: colon"), ("ZvSix", 2, "x")]
CALL = "missing key: a Handler should handle &lt; calls (/snap/go/10535/src/testing/slogtest/slogtest.go:%d)"
TEXTS = ["", "", "no 'source' key", "map[alpha:2 charlie:3]", "x: y: z", "a", "a {b}", "12 [W] s", "é世界", "%d %s", "\"q\"", "a  b", "<b>bold</b>", "a & b", "&amp;", "</td></tr></table>",
         "<script>x()</script>", "x<y", CALL % 61, CALL.replace("/snap", "/home/testing/snap/testing") % 7, "a<i>: b<u> (/x/testing/q.go:1)", "`x`", "{{ .Handler }}", "javascript:x"]
RECS = ["", "", '{"a":1}', '{"level":"INFO","msg":"x y","g":{"n":[1,2]}}', '{"a":1,}', "{", '{"a":"\\n  \\""}', '{"x":12345678901234567890}', "{ }", '{"a":1,"a":2}', '{"z":1,"a":1.50,"m":1e400}',
        '{"h":"<b>&amp;</b>"}', '{"u":"\\u00e9"}', '{"t":"</pre>"}']
NAMES = ["slog/JSONHandler", "chanchal/zaphandler", "a", "b", "madkins/flash", "é"]
MARKUP = ["x<i>y</i>", "a&amp;b", "<b>"]
TS = [t for t in D18.TS if not set(t) & set("/#?%")]
PTN = re.compile(r"^\s*(.+?):(.+?)\s*\(.*/(testing/.*\.go):(\d+)\)", re.S)
ROOT = "https://cs.opensource.google/go/go/+/master:src"
DOCS = ["bench.txt", "verify.txt", "tabular.txt"]
squeeze = lambda s: " ".join(s.split())
ITEMS = ["Nanos", "MemAllocs", "MemBytes", "GbPerSec"]


@contextlib.contextmanager
def lists(**kw):
    """The generators of other checks with other lists."""
    old = [(m, n, getattr(m, n)) for m, n in ((D18, "TS"), (D18, "NAMES"), (D18, "columns"), (warngen, "WARNS"), (warngen, "TEXTS"), (warngen, "RECS"), (warngen, "FNS"))]
    for m, n, v in old:
        setattr(m, n, kw.get(n, v))
    try:
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)


def bare(f):
    for pre in ("Benchmark_", "Benchmark", "Test_", "Test"):
        if f.startswith(pre):
            return bare(f[len(pre):])
    return f


def norm(tag):
    return "".join(c if c.isascii() and (c.isalnum() or c in "-._~!#$&*+,/:;=?@[]()'") else "".join("%%%02x" % b for b in c.encode()) for c in tag)


def call(line):
    m = PTN.match(line)
    ls, to = ([m[1], m[2]], "%s/%s;l=%s" % (ROOT, m[3], m[4])) if m else ([line], "")
    return dict(line=line, lines=[squeeze(x) for x in ls], to=to)


def charted(rng):
    """Values that can be told apart in a chart."""
    big = rng.choice([5, 50, 3000])
    num = lambda lo, hi: "%d%s" % (rng.randint(lo, hi), rng.choice(["", ".%d" % rng.randint(1, 9), ".%02d" % rng.randint(1, 94)]))
    return dict(runs=str(rng.randint(1, 10 ** 6)), ns=num(1, big * 4), mb=rng.choice(["", num(1, 3000)]), bytes=rng.choice(["", "0", str(rng.randint(1, big))]), allocs=rng.choice(["", "0", str(rng.randint(1, 60))]))


def program(rng, shape, visits=(), markup=True, columns=None, clients=0):
    names = NAMES + (rng.sample(MARKUP, 1) if markup else [])

    def says(parts, known):
        for _ in range(rng.choice([0, 0, 1, 2])):
            s = warngen.summary(rng, [n for n in known if n] + ["nobody"])
            s["c"] = [dict(x, url=rng.choice(["http://y", "https://pkg.go.dev/log/slog#JSONHandler"])) for x in s["c"]]
            parts[1].insert(rng.randint(0, len(parts[1])), s)
    kw = dict(columns=columns) if columns else {}
    old = D18.columns
    with lists(TS=TS, NAMES=names, WARNS=WARNS, TEXTS=TEXTS, RECS=RECS, FNS=[f for f in warngen.FNS if bare(f)], **kw):
        if columns:
            T25.D18.columns = columns
        p = T25.program(rng, shape, says)
    D18.columns = old
    if not p["verify"]:
        p["lines"] = [l for l in p["lines"]]
    hs = sorted({l["h"] for l in p["bench"] if l["k"] == "D"})
    ts = sorted({l["t"] for l in p["bench"] if l["k"] == "D"})
    fns = sorted({bare(l["a"]) for l in p["lines"] if l["k"] == "I"})
    texts = {n: rng.choice(["", "plain", "a <b>bold</b> & &amp; text\n  of more\nlines", "x </div><h2>y</h2>"]) for n in DOCS if rng.random() < 0.5}
    tags = D18.HS + T25.MOREH + names + warngen.HNAMES + T25.MORE
    said = {x for l in p["lines"] if l["k"] == "I" for x in l["b"].split("\n")} | {x for l in p["lines"] if l["k"] == "X" for x in l["a"].split("\n")}
    said |= {l["a"] for l in p["lines"] if l["k"] == "R"}
    paths = []
    for v in visits:
        k, i = v["k"], v["i"]
        pick = {"handler": hs, "test": ["Bench." + t for t in ts], "check": ["Verify." + f for f in fns]}.get(k)
        if pick is None:
            paths.append({"home": "/go-slog/", "matrix": "/go-slog/warnings.html"}[k])
        elif pick:
            paths.append("/go-slog/%s/%s.html" % ("handler" if k == "handler" else "test", quote(pick[(i - 1) % len(pick)])))
    odd = ["/go-slog/handler/Nobody.html", "/go-slog/test/Bench.Nothing.html", "/go-slog/test/Verify.Nothing.html", "/go-slog/scores/Nobody/summary.html", "/go-slog/nothing.html", "/nothing",
           "/go-slog/text/nothing/display.html", "/go-slog/text/%3Cb%3Ex&amp;/display.html", "/go-slog/text/" + rng.choice(DOCS) + "/display.html", "/go-slog/error.html",
           "/go-slog/handler/%3Cb%3Ex.html", "/go-slog/test/" + rng.choice(DOCS) + ".html", "/go-slog/chart/Nobody/Nanos.svg"]
    paths += rng.sample(odd, 3)
    # Handlers that aren't in the benchmarks have pages, too.
    known = {l["c"] for l in p["bench"] if l["k"] != "D"}
    strangers = sorted({l["a"] for l in p["lines"] if l["k"] == "H"} - known)
    paths += ["/go-slog/handler/%s.html" % quote(n) for n in strangers[:2] if n and not set(n) & set("/#?%<&") and n.isascii()]
    p.update(texts=texts, nobench=False, fns=fns, htags=tags, group=" " if p["group"] == "\u00a0" else p["group"], paths=paths, all=True, clients=clients, cold=clients > 0 and rng.random() < 0.5,
             titles=[dict(tag=n, name=T25.title(n)) for n in warngen.HNAMES + names + T25.MORE], calls=[c for c in map(call, sorted(said)) if c["lines"] != [c["line"]]],
             facts=dict(urls=[dict(tag=t, name=norm(t)) for t in D18.HS + ["Bench." + t for t in TS] + ["Verify." + f for f in fns] if norm(t) != t]))
    p.pop("stdin", None)
    for k in ("tables", "warnings"):
        p.pop(k, None)
    return p


def what(path):
    x = path.split("/")[2:]
    if x in ([""], ["index.html"]):
        return "home", ""
    if len(x) == 2 and x[0] in ("handler", "test"):
        return x[0], unquote(x[1])[:-5]
    if x in (["warnings.html"], ["guts.html"]):
        return x[0][:-5], ""
    if len(x) == 3 and x[0] in ("scores", "text") and x[2] in ("summary.html", "display.html"):
        return x[0], unquote(x[1])
    if not path.startswith("/go-slog/"):
        return "unknown", ""
    if x[0] == "chart" or x[-1] == "chart.svg":
        return "chart", ""
    return ("other" if x in (["error.html"], ["style.css"], ["scripts.js"], ["home.svg"]) else "unknown"), ""


LOADED = "bench lines plain tests checks titles group point catalog keepers calls strange".split()


def events(full, keep):
    """Trace events, and the program each belongs to."""
    ev, of = [], []
    for n, p in enumerate(full):
        ev.append(dict({k: p[k] for k in LOADED}, k="load", texts=[dict(name=a, text=b.strip()) for a, b in sorted(p["texts"].items())], urls=p["facts"]["urls"]))
        of.append(n)
        for r in p["res"]:
            w, name = what(r["path"])
            if keep(w):
                e = dict(k="page", what=w, name=name, code=r["code"], path=r["path"])
                if w == "chart":
                    x = r["path"].split("/")
                    e.update(svg=r["svg"], kind="score", name=unquote(x[3]), item=x[4])
                    if x[2] == "chart":
                        e.update(kind="bar", item=x[4].removesuffix(".svg"))
                else:
                    e["page"] = r["page"]
                ev.append(e)
                of.append(n)
    return ev, of


def brief(p, path=None):
    return dict({k: p[k] for k in ("btext", "vtext", "verify", "texts", "args", "paths", "clients", "cold", "strange")}, res=[r for r in p["res"] if r["path"] == path])
