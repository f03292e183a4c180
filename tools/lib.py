"""Shared machinery of the checks: building the harness, running TLC, validating traces, reporting."""
import json, os, re, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


def known_findings():
    """Lines 'KNOWN-FINDING: property=Cxx key=<key> <text>' of the committed file."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(dict(property=m.group(1), key=m.group(2), text=m.group(3)))
    return out


class Ctx:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.counts = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.models = []
        self.nstep = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- harness -----------------------------------------------------------
    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
        # cargo looks at modification times; the content of /repo decides here
        h = hashlib.sha1()
        for d, _, fs in sorted(os.walk("/repo/src")):
            for n in sorted(fs):
                h.update(os.path.join(d, n).encode() + b"\0" + open(os.path.join(d, n), "rb").read())
        h.update(open("/repo/Cargo.toml", "rb").read())
        stamp = os.path.join(TARGET, "repo.sha1")
        if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
            if os.path.exists(stamp):
                os.remove(stamp)
            for args in ([], ["--profile", "rel"]):
                subprocess.run(["cargo", "clean", "--offline", "-p", "netcdf3"] + args, cwd=HARNESS, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # twice: as the tests build it, and optimized without the checks of a debug build
        ps = [subprocess.Popen(["cargo", "build", "--offline", "--quiet"] + args, cwd=HARNESS, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
              for args in ([], ["--profile", "rel"])]
        for p in ps:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise ToolError("building the harness failed:\n" + out[-4000:])
        with open(stamp, "w") as f:
            f.write(h.hexdigest())
        self.bin = os.path.join(TARGET, "debug", "nc3harness")
        self.rel = os.path.join(TARGET, "rel", "nc3harness")
        self.log("harness built")

    def harness(self, *args, timeout=800):
        scratch = self.path("scratch")
        os.makedirs(scratch, exist_ok=True)
        p = subprocess.run([self.bin] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, cwd=scratch)
        if p.returncode != 0:
            raise ToolError("harness %s failed (%d): %s" % (args[0], p.returncode, p.stdout[-2000:]))
        return p.stdout

    def run_scripts(self, kind, scripts, jobs=CORES):
        """Executes scripts (list of JSON values or of JSON lines), in parallel; returns the trace lines."""
        lines = [s if isinstance(s, str) else json.dumps(s, separators=(",", ":")) for s in scripts]
        self.nstep += 1
        n = len(lines)
        jobs = max(1, min(jobs, (n + 7) // 8))
        procs = []
        for j in range(jobs):       # (every fourth script on the optimized build)
            part = lines[j::jobs]
            exe = self.rel if jobs >= 4 and j % 4 == 3 else self.bin
            si, so = self.path("s%d_%d.jsonl" % (self.nstep, j)), self.path("t%d_%d.jsonl" % (self.nstep, j))
            with open(si, "w") as f:
                f.write("".join(x + "\n" for x in part))
            sc = self.path("scratch%d" % j)
            os.makedirs(sc, exist_ok=True)
            procs.append((subprocess.Popen([exe, "run", kind, si, so, sc], stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, text=True, cwd=sc), so, len(part)))
        traces = [None] * n
        for j, (p, so, k) in enumerate(procs):
            out, _ = p.communicate(timeout=850)
            if p.returncode != 0:
                raise ToolError("harness run failed (%d): %s" % (p.returncode, out[-2000:]))
            with open(so) as f:
                got = f.read().splitlines()
            if len(got) != k:
                raise ToolError("harness run: %d traces for %d scripts" % (len(got), k))
            traces[j::jobs] = got
        return traces

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=CORES, heap="8g", timeout=860, args=(), ok_codes=(0,)):
        self.nstep += 1
        meta = self.path("meta%d" % self.nstep)
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        out_path = self.path("tlc%d.out" % self.nstep)
        with open(out_path, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s did not end" % module)
        shutil.rmtree(meta, ignore_errors=True)
        with open(out_path, errors="replace") as f:
            out = f.read()
        if rc not in ok_codes:
            keep = [x for x in out.splitlines() if not x.startswith('"')]
            raise ToolError("TLC on %s/%s ended with %d:\n%s" % (module, cfg or module, rc, "\n".join(keep)[-3000:]))
        return out

    @staticmethod
    def printed(out, tag):
        """Values printed by PrintT(tag \\o ' ' \\o ToJson(..))"""
        pre = '"' + tag + " "
        return [json.loads(json.loads(x)[len(tag) + 1:]) for x in out.splitlines() if x.startswith(pre)]

    @staticmethod
    def state_counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if not m:
            raise ToolError("no state count from TLC")
        return tuple(int(x) for x in m[-1])

    def model(self, module, cfg=None, workers=CORES, expect_violation=None, **kw):
        """Model checks a specification; returns the output."""
        out = self.tlc(module, cfg, workers=workers, ok_codes=(0,) if not expect_violation else (12,), **kw)
        if expect_violation:
            if "Invariant %s is violated" % expect_violation not in out:
                raise ToolError("%s: expected a violation of %s" % (cfg, expect_violation))
            self.models.append("%s: %s violated, as intended" % (cfg or module, expect_violation))
            return out
        g, d, left = self.state_counts(out)
        if left != 0:
            raise ToolError("TLC left states")
        self.states += d
        self.transitions += g
        self.models.append("%s: %d distinct states, %d transitions" % (cfg or module, d, g))
        self.log("model", self.models[-1])
        return out

    def validate(self, module, traces, what, owner=None, chunk_bytes=40_000_000):
        """Validates trace lines against the trace specification. Only clauses of `owner` count."""
        owner = owner or self.prop
        i = 0
        while i < len(traces):
            part, size = [], 0
            while i < len(traces) and (not part or size + len(traces[i]) < chunk_bytes):
                part.append(traces[i])
                size += len(traces[i])
                i += 1
            self._validate(module, part, what, owner)

    def _validate(self, module, part, what, owner):
        self.nstep += 1
        path = self.path("v%d.jsonl" % self.nstep)
        with open(path, "w") as f:
            f.write("".join(x + "\n" for x in part))
        nev = 0
        parsed = []
        for x in part:
            t = json.loads(x)
            parsed.append(len(t["evs"]))
            nev += len(t["evs"])
        out = self.tlc(module, env={"TRACE": path})
        g, d, left = self.state_counts(out)
        want = nev + len(part)
        if d != want or left != 0:
            raise ToolError("%s: TLC consumed %d states of %d" % (what, d, want))
        self.traces += len(part)
        self.events += nev
        self.counts[what] = self.counts.get(what, 0) + len(part)
        self.states += d
        self.transitions += nev
        if part and len(self.samples) < 6:
            k = (self.seed * 7919) % len(part)
            self.samples.append({"kind": what, "trace": part[k][:1500]})
        known = known_findings()
        bads = self.printed(out, "BAD")
        hist = {}
        for b in bads:
            for c in b["b"]:
                k = c["p"] + (":" + c["k"] if c.get("k") else "")
                hist[k] = hist.get(k, 0) + 1
        for b in sorted(bads, key=lambda b: (b["tid"], b["i"])):
            mine = [c for c in b["b"] if c["p"] == owner]
            for c in mine:
                kf = [k for k in known if k["property"] == owner and c.get("k", "") == k["key"]]
                if kf:
                    self.known.setdefault(kf[0]["key"], kf[0]["text"])
                    continue
                self.violation(what, part[b["tid"] - 1], b["i"], c["c"])
        if os.environ.get("VERIF_KEEP") is None:
            os.remove(path)
        self.log("validated", what, "%d traces, %d events, %s remarks" % (len(part), nev, hist or "no"))

    def violation(self, what, trace, i, clause):
        if len(self.violations) < 20:
            h = hashlib.sha1((trace + str(i) + clause).encode()).hexdigest()[:12]
            path = os.path.join(self.replays, "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                t = json.loads(trace)
                json.dump({"property": self.prop, "what": what, "clause": clause, "event": i, "trace": t}, f)
            self.violations.append((path, "%s, event %d: %s" % (what, i, clause)))
        else:
            self.violations.append((self.violations[0][0], clause))

    # -- end ---------------------------------------------------------------
    def finish(self, assumptions, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "events_validated": self.events, "traces_by_kind": self.counts, "models": self.models}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("VERIF_KEEP") is None:
            shutil.rmtree(self.work, ignore_errors=True)
        for k, text in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if self.violations:
            for path, text in self.violations[:10]:
                print(text)
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][0]))
            return 1
        print("OK property=%s: %d traces, %d events, %d states, %.1f s" % (self.prop, self.traces, self.events, self.states, time.time() - self.t0))
        return 0
