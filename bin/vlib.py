"""Shared machinery of the checks: builds the driver against /repo's working tree,
runs TLC (model checking, case generation, trace validation) and reports."""
import concurrent.futures as cf
import glob
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(PATH="/opt/veriftools/go1.23.12/bin:" + os.environ.get("PATH", ""), HOME="/root",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOWORK="off")


# Drivers that (indirectly) import a module which is missing here.
STUBBED = {"scores", "keepers", "queries", "server"}
# The driver of the server is linked into the server.
HOOKS = {"server": {os.path.join(REPO, "cmd/server/zzverif.go"): os.path.join(VERIF, "stubs/server_hook.go")}}


class CheckError(Exception):
    """The check could not decide: neither a pass nor a violation."""


class CodeCrash(Exception):
    """The code under test brought the driver's process down."""

    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


def brief(out):
    """The part of TLC's output that says what went wrong."""
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-3000:]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = 0
        self.traces = 0          # behaviours of the real code validated against the specification
        self.events = 0
        self.samples = []
        self.models = []         # model-checking runs
        self.notes = {}
        self.viol = []           # (signature, what, replay object)
        self.assumptions = []
        self.t0 = time.time()
        self._bins = {}
        self._n = 0

    # ---------------------------------------------------------------- helpers
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmp(self, name):
        self._n += 1
        return os.path.join(self.work, "%03d-%s" % (self._n, name))

    def env(self, **kw):
        e = dict(os.environ)
        e.update(GOENV)
        e.update({k: str(v) for k, v in kw.items()})
        return e

    # ---------------------------------------------------------------- driver
    def overlay(self, extra=None):
        rep = {}
        base = os.path.join(VERIF, "driver")
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith(".go"):
                    rel = os.path.relpath(os.path.join(d, f), base)
                    rep[os.path.join(REPO, "internal/zzverif", rel)] = os.path.join(d, f)
        rep.update(extra or {})
        p = self.tmp("overlay.json")
        json.dump({"Replace": rep}, open(p, "w"))
        return p

    def modfile(self):
        """A go.mod that replaces the module which isn't available here."""
        mod = os.path.join(self.work, "stub.mod")
        if not os.path.exists(mod):
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "stub.sum"))
            with open(mod, "w") as f:
                f.write(open(os.path.join(REPO, "go.mod")).read())
                f.write("\nreplace snqk.dev/slog/meld => %s\n" % os.path.join(VERIF, "stubs/meld"))
                f.write("\nreplace github.com/madkins23/gin-utils => %s\n" % os.path.join(VERIF, "stubs/gin-utils"))
        return mod

    def build(self, pkg, race=False):
        """Compiles driver package pkg (a folder of /verif/driver) inside /repo's module."""
        key = (pkg, race)
        if key not in self._bins:
            out = self.tmp(pkg.replace("/", "_") + ("-race" if race else ""))
            # A driver that consists of tests becomes a test binary.
            src = glob.glob(os.path.join(VERIF, "driver", pkg, "*.go"))
            tests = src and all(f.endswith("_test.go") for f in src)
            cmd = ["go", *(["test", "-c", "-vet=off"] if tests else ["build"]), "-overlay", self.overlay(HOOKS.get(pkg)), "-o", out]
            if race:
                cmd.append("-race")
            if pkg in STUBBED:
                cmd += ["-modfile", self.modfile()]
            if pkg in HOOKS:
                cmd.append("./cmd/server")
            elif not pkg.startswith("./"):
                cmd.append("./internal/zzverif/" + pkg)
            else:
                cmd.append(pkg)
            r = subprocess.run(cmd, cwd=REPO, env=self.env(CGO_ENABLED="1" if race else "0"),
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError("driver %s does not build:\n%s" % (pkg, r.stderr[-4000:]))
            self._bins[key] = out
        return self._bins[key]

    def drive(self, pkg, cases, args=(), race=False, timeout=300, env=None, jobs=1):
        """Runs the real code on cases (ndjson on stdin); returns one observation per line of stdout."""
        binary = self.build(pkg, race)
        if not cases:
            return []

        def one(part):
            data = "".join(json.dumps(c) + "\n" for c in part)
            try:
                r = subprocess.run([binary, *args], input=data.encode(), capture_output=True, timeout=timeout,
                                   env=self.env(**(env or {})), cwd=self.work)
            except subprocess.TimeoutExpired:
                raise CheckError("driver %s timed out" % pkg)
            if r.returncode:
                err = r.stderr.decode(errors="replace")
                m = re.search(r"^(fatal error|panic): .*", err, re.M)
                if r.returncode == 2 and m:
                    raise CodeCrash("the process crashed: %s" % m.group(0), dict(stderr=err[-6000:], cases=part))
                raise CheckError("driver %s exited with %d:\n%s" % (pkg, r.returncode, err[-4000:]))
            return [json.loads(l) for l in r.stdout.decode().split("\n") if l.strip()]

        if jobs == 1:
            return one(cases)
        parts = [cases[i::jobs] for i in range(jobs)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            return [o for r in ex.map(one, [p for p in parts if p]) for o in r]

    # ------------------------------------------------------------------- TLC
    def _tlc(self, spec, cfg_text, files=None, args=(), mem="2g", timeout=600, workers=1):
        d = self.tmp("tlc")
        os.mkdir(d)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        for name, data in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(data)
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss512m", "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               *args, "-config", "run.cfg", spec + ".tla"]
        env = {k: v for k, v in os.environ.items() if not k.startswith("JAVA")}
        try:
            r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % spec)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model(self, spec, cfg, what, expect="ok", workers=4, timeout=600, mem="4g", args=()):
        """Model-checks spec with the text of a configuration.

        expect="ok": every property must hold.  expect="<Name>": a deliberately faulty variant of the
        design; TLC must report a violation of that property (shows the property is not vacuous)."""
        rc, out = self._tlc(spec, cfg, workers=workers, timeout=timeout, mem=mem, args=("-coverage", "1", *args))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        entry = dict(spec=spec, what=what, states=dist, transitions=gen)
        if expect == "ok":
            if rc != 0 or "Model checking completed. No error has been found." not in out:
                raise CheckError("model %s (%s) failed:\n%s" % (spec, what, brief(out)))
            dead = sorted(set(re.findall(r"^<(\w+) line .*>: 0:0$", out, re.M)) - {"Init"})
            if dead:
                entry["actions_never_taken"] = dead
            self.states += dist
            self.transitions += gen
        else:
            if rc == 0 or not re.search(r"(Invariant|[Pp]roperty|Temporal properties) %s\b|%s is violated|"
                                        r"Temporal properties were violated|Stuttering" % (expect, expect), out):
                raise CheckError("faulty model %s (%s) was not rejected by %s:\n%s" % (spec, what, expect, brief(out)))
            entry["rejected_by"] = expect
        self.models.append(entry)
        return out

    def generate(self, spec, cfg, args=(), timeout=600, workers=4, mem="4g"):
        """Cases TLC prints (lines CASE <json>) while exploring a specification."""
        rc, out = self._tlc(spec, cfg, args=args, workers=workers, timeout=timeout, mem=mem)
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE '):
                cases.append(json.loads(json.loads(line)[5:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
            self.models.append(dict(spec=spec, what="generates %d behaviours" % len(cases),
                                    states=int(m.group(2)), transitions=int(m.group(1))))
        if not cases or ("Error:" in out and "-simulate" not in args):
            raise CheckError("generation from %s failed:\n%s" % (spec, brief(out)))
        return cases

    def validate(self, spec, obs, const="", jobs=None, chunk=None, timeout=800, mem="3g", count=True, starts=None):
        """Validates observations of the real code against a trace specification.

        Returns [(index in obs, reason text)] for the rejected ones. A part of
        the trace begins with an observation that starts(o) holds for."""
        if not obs:
            raise CheckError("nothing to validate against " + spec)
        jobs = jobs or min(6, max(1, len(obs) // 60))
        size = chunk or -(-len(obs) // jobs)
        cuts = [i for i in range(0, len(obs), size)]
        if starts:
            at = [i for i, o in enumerate(obs) if starts(o)]
            cuts = sorted({max(i for i in at if i <= c) for c in cuts})
        parts = [(a, obs[a:b]) for a, b in zip(cuts, cuts[1:] + [len(obs)])]
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n" + const

        def one(part):
            base, chunk = part
            data = "".join(json.dumps(o, ensure_ascii=True) + "\n" for o in chunk)
            rc, out = self._tlc(spec, cfg, files={"trace.ndjson": data}, mem=mem, timeout=timeout)
            m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', out)
            if rc != 0 or not m or int(m.group(1)) != len(chunk):
                raise CheckError("trace validation with %s did not finish (rc %d):\n%s" % (spec, rc, brief(out)))
            bad = {}
            for mm in re.finditer(r'^"MM\|(\d+)\|(.*)"$', out, re.M):
                bad.setdefault(base + int(mm.group(1)) - 1, []).append(mm.group(2).replace('\\"', '"'))
            return bad

        bad = {}
        with cf.ThreadPoolExecutor(min(6, len(parts))) as ex:
            for b in ex.map(one, parts):
                bad.update(b)
        if count:
            self.traces += len(obs)
        return sorted((i, "; ".join(w)) for i, w in bad.items())

    # ----------------------------------------------------------------- report
    def sample(self, obj, limit=12):
        if len(self.samples) < limit:
            s = json.dumps(obj)
            self.samples.append(s if len(s) < 600 else s[:600] + "…")

    def violation(self, what, replay, signature=None):
        self.viol.append((signature or what, what, replay))

    def finish(self):
        known = load_known(self.prop)
        reported, suppressed = [], []
        for sig, what, replay in self.viol:
            k = next((k for k in known if k["match"](sig, replay)), None)
            if k:
                suppressed.append((k, what))
            else:
                reported.append((what, replay))
        for text in sorted({k["what"] for k, _ in suppressed}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        # Known findings are demonstrated on every run: one that no longer shows is simply not printed.
        paths = []
        if reported:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for n, (what, replay) in enumerate(reported[:5], 1):
                p = os.path.join(d, "%s-%d.json" % (self.prop, n))
                with open(p, "w") as fh:
                    json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, replay=replay),
                              fh, indent=1)
                paths.append(p)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                                models=self.models, events=self.events, **self.notes),
                  wall_s=round(time.time() - self.t0, 2), violations=len(reported),
                  assumptions=self.assumptions or ["TLC, the JSON community module and the Go driver are trusted"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        for (what, _), p in zip(reported, paths):
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what[:700])
        if len(reported) > 5:
            print("  ... and %d more" % (len(reported) - 5))
        print("%s %s: %d model states, %d behaviours validated, %d violation(s), %d known, %.1fs" % (
            self.prop, self.tier, self.states, self.traces, len(reported), len(suppressed), time.time() - self.t0))
        return 1 if reported else 0


def load_known(prop):
    """Entries of /verif/known-findings.json for a property; fixed entries suppress nothing."""
    p = os.path.join(VERIF, "known-findings.json")
    out = []
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["property"] == prop:
                pat = re.compile(e["signature"])
                out.append(dict(what=e["what"], match=lambda s, r, pat=pat: bool(pat.fullmatch(s))))
    return out
