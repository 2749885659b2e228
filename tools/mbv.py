"""Shared machinery: build Go drivers against /repo's working tree, run TLC, judge traces."""
import itertools, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODROOT = "github.com/tdex-network/tdex-daemon"


class CheckError(Exception):
    """The check itself could not be carried out (exit 2), never a verdict."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOTELEMETRY="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.setdefault("HOME", "/root")
    # the settings of the repository's own test target
    e.update(TDEX_NETWORK="regtest", TDEX_EXPLORER_ENDPOINT="http://127.0.0.1:3001", TDEX_LOG_LEVEL="2",
             TDEX_BASE_ASSET="5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225",
             TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD="1000")
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="mbv-%s-" % prop)
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        events_validated=0, tlc_runs=[], op_counts={})
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self._bins = {}
        self._cnt = itertools.count()

    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, q, t):
        return q if self.quick else t

    def sample(self, pop, n):
        pop = list(pop)
        return self.rng.sample(pop, n) if len(pop) > n else pop

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- Go -------------------------------------------------------------
    def build(self, pkg, race=False):
        """Compile harness/<pkg> as package internal/vh/<pkg> of the root module (or of the nested module named in
        harness/<pkg>/TARGET) with an overlay; nothing is written in /repo."""
        if pkg in self._bins:
            return self._bins[pkg]
        ov = {}
        for d in ("lib", "app", pkg):
            src = os.path.join(HARNESS, d)
            for f in sorted(os.listdir(src)):
                if f.endswith(".go"):
                    ov[os.path.join(REPO, "internal/vh", d, f)] = os.path.join(src, f)
        ovf = os.path.join(self.work, "overlay-%s.json" % pkg)
        json.dump({"Replace": ov}, open(ovf, "w"))
        # private copies of go.mod/go.sum so that -mod=mod can never touch the tracked ones
        mod = os.path.join(self.work, "go.mod")
        if not os.path.exists(mod):
            txt = open(os.path.join(REPO, "go.mod")).read()
            txt = re.sub(r"=> \./", "=> %s/" % REPO, txt)
            open(mod, "w").write(txt)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "go.sum"))
        mod = self.patched(pkg, mod)
        out = os.path.join(self.work, pkg + ".bin")
        cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", ovf, "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./internal/vh/" + pkg)
        r = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise CheckError("driver build failed:\n" + r.stdout[-6000:])
        self._bins[pkg] = out
        self.log("built driver", pkg)
        return out

    def patched(self, pkg, mod):
        """harness/<pkg>/deps.json: edits to third-party modules (crash hooks, cheaper key derivation), made on copies that
        replace the cached modules in this build only."""
        p = os.path.join(HARNESS, pkg, "deps.json")
        if not os.path.exists(p):
            return mod
        txt, out = open(mod).read(), os.path.join(self.work, "go-%s.mod" % pkg)
        for ed in json.load(open(p)):
            dst = os.path.join(self.work, "dep-" + pkg, ed["module"].replace("/", "_"))
            if not os.path.exists(dst):
                r = subprocess.run(["go", "list", "-m", "-modfile", mod, "-f", "{{.Dir}}", ed["module"]], cwd=REPO, env=goenv(),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode != 0:
                    raise CheckError("go list %s: %s" % (ed["module"], r.stderr))
                shutil.copytree(r.stdout.strip(), dst)
                subprocess.run(["chmod", "-R", "u+w", dst])
                if not os.path.exists(os.path.join(dst, "go.mod")):
                    open(os.path.join(dst, "go.mod"), "w").write("module %s\n" % ed["module"])
                txt += "\nreplace %s => %s\n" % (ed["module"], dst)
            f = os.path.join(dst, ed["file"])
            old = open(f).read()
            if ed["old"] not in old:
                raise CheckError("cannot patch %s %s" % (ed["module"], ed["file"]))
            open(f, "w").write(old.replace(ed["old"], ed["new"]))
        open(out, "w").write(txt)
        shutil.copy(os.path.join(self.work, "go.sum"), out[:-3] + "sum")
        return out

    def drive(self, pkg, test, scripts=None, env=None, timeout=600, name=None, crash_ok=False):
        """Run one driver test. It reads scripts from $VH_IN (ndjson) and writes its trace to $VH_OUT."""
        binp = self.build(pkg)
        name = name or test
        d = os.path.join(self.work, "run-" + name)
        os.makedirs(d, exist_ok=True)
        e = goenv()
        e.update(VH_SEED=str(self.seed), VH_TIER=self.tier, VH_OUT=os.path.join(d, "trace.ndjson"),
                 VH_TMP=d, TMPDIR=d, TDEX_DATA_DIR_PATH=os.path.join(d, "data"))
        if scripts is not None:
            p = os.path.join(d, "scripts.ndjson")
            with open(p, "w") as f:
                for s in scripts:
                    f.write(json.dumps(s) + "\n")
            e["VH_IN"] = p
        if env:
            e.update({k: str(v) for k, v in env.items()})
        t = time.time()
        try:
            r = subprocess.run([binp, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % timeout], cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 30,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s timed out" % name)
        tr = []
        if os.path.exists(e["VH_OUT"]):
            with open(e["VH_OUT"]) as f:
                for line in f:
                    if line.endswith("\n"):
                        tr.append(line)
        died = re.search(r"^(panic: |fatal error: )(?!test timed out)(?!.*(out of memory|no space left|too many open files|cannot allocate)).*",
                         r.stdout, re.M) if r.returncode not in (0, 1) else None
        if died and not crash_ok:
            # the process did not survive the replay: the code under test panicked, or it refused a step that no
            # behaviour of the specification refuses (the drivers' set-up steps panic on those)
            self.reject(dict(events=[json.loads(x) for x in tr[-20:]], rest=[], module=pkg, tlc=r.stdout[died.start():][:4000],
                             why="the process died: " + died.group(0)), name)
            return tr or ['{"a":{"op":"reset"},"r":{},"o":{}}\n']
        if r.returncode != 0 and not crash_ok:
            raise CheckError("driver %s failed (rc %s):\n%s" % (name, r.returncode, r.stdout[-5000:]))
        self.log("driver %s: %d events in %.1fs" % (name, len(tr), time.time() - t))
        if crash_ok:
            return tr, r
        return tr

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, args=(), workers=1, timeout=600, files=None, mem="4g", name=None, defs=None):
        d = os.path.join(self.work, "tlc-%s-%d" % (name or module, next(self._cnt)))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), "w") as f:
                f.writelines(v) if isinstance(v, list) else f.write(v)
        cfg = cfg or module + ".cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
               "-config", cfg, "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE",
               *args, module + ".tla"]
        t = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        out = open(outp, errors="replace").read()
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        return rc, out, time.time() - t

    def model_check(self, module, cfg=None, timeout=600, workers=8, mem="8g", args=(), count=True):
        """Exhaustive design check. The model does not depend on the code: a failure here is an error of the check."""
        rc, out, dt = self.tlc(module, cfg, workers=workers, timeout=timeout, mem=mem, args=args, name="mc")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or "No error has been found" not in out or not m:
            raise CheckError("TLC rejects the design %s/%s (rc %d):\n%s" % (module, cfg, rc, tail(out)))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        if count:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        self.cov["tlc_runs"].append(dict(module=module, cfg=cfg or module + ".cfg", distinct=dist, generated=gen, wall_s=round(dt, 1)))
        self.log("TLC %s: %d distinct states, %d transitions, %.1fs" % (cfg or module, dist, gen, dt))
        return out

    def gen_scripts(self, module, cfg, limit=None, args=(), timeout=600, count=True, key=None):
        """Model check and collect the scripts (action histories) that TLC prints with SCRIPT."""
        rc, out, dt = self.tlc(module, cfg, workers=1, timeout=timeout, args=args, mem="6g", name="gen")
        sim = "-simulate" in args
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not sim and (rc != 0 or "No error has been found" not in out or not m):
            raise CheckError("TLC script generation failed %s/%s rc=%d:\n%s" % (module, cfg, rc, tail(out)))
        scripts = []
        for line in out.splitlines():
            if line.startswith('"SCRIPT '):
                scripts.append(json.loads(json.loads(line)[7:]))
        if not scripts:
            raise CheckError("no scripts generated by %s/%s:\n%s" % (module, cfg, tail(out)))
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
            if count:
                self.cov["states"] += dist
                self.cov["transitions"] += gen
            self.cov["tlc_runs"].append(dict(module=module, cfg=cfg, distinct=dist, generated=gen, scripts=len(scripts), wall_s=round(dt, 1)))
            self.log("TLC %s: %d distinct states, %d transitions, %d scripts, %.1fs" % (cfg, dist, gen, len(scripts), dt))
        else:
            self.cov["tlc_runs"].append(dict(module=module, cfg=cfg, mode="simulate", scripts=len(scripts), wall_s=round(dt, 1)))
            self.log("TLC %s (simulate): %d scripts, %.1fs" % (cfg, len(scripts), dt))
        if limit and len(scripts) > limit:
            scripts = self.spread(scripts, limit, key)
        return scripts

    def spread(self, scripts, limit, key=None):
        """A seeded sample with an even share for every kind of last action."""
        by, out, i = {}, [], 0
        for s in scripts:
            by.setdefault(key(s) if key else s[-1]["op"], []).append(s)
        for v in by.values():
            self.rng.shuffle(v)
        while len(out) < min(limit, len(scripts)):
            out += [v[i] for v in by.values() if i < len(v)][:limit - len(out)]
            i += 1
        return out

    def simulate(self, module, cfg, num, depth, limit=None, timeout=600):
        s = self.gen_scripts(module, cfg, limit=limit, timeout=timeout,
                             args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)))
        return s

    def validate(self, module, trace, cfg=None, label="", timeout=600, episodes_key="reset", known=None, mem="6g", extra_files=None):
        """Does the specification allow the recorded trace? One TLC run; events are checked in order.
        When an episode is rejected it is reported, cut out, and the rest validated again (up to a few times)."""
        trace = list(trace)
        if not trace:
            raise CheckError("empty trace for " + module)
        total_eps = 0
        rejected = []
        cur = trace
        for attempt in range(12):
            files = {"trace.ndjson": cur}
            files.update(extra_files or {})
            rc, out, dt = self.tlc(module, cfg, workers=1, timeout=timeout, mem=mem, files=files, name="trace")
            m = re.search(r'<<"MAXL", (\d+), (\d+)>>', out)
            inv = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated", out)
            if not m and not inv:
                raise CheckError("TLC trace validation broke (%s):\n%s" % (module, tail(out, 6000)))
            if inv:
                # the offending state is the last one printed: its l is one past the offending event
                ls = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", out, re.M)
                n = max(int(a or b) for a, b in ls) - 2 if ls else 0
                why = "invariant %s fails after this event" % (inv.group(1) or inv.group(2))
            else:
                n, L = int(m.group(1)) - 1, int(m.group(2))
                if n >= L:
                    self.log("trace %s%s: %d events accepted, %.1fs" % (module, " " + label if label else "", L, dt))
                    break
                why = "no action of the specification matches this event"
            # locate the episode around line n
            s = n
            while s > 0 and not is_reset(cur[s], episodes_key):
                s -= 1
            e = n + 1
            while e < len(cur) and not is_reset(cur[e], episodes_key):
                e += 1
            rejected.append(dict(events=[json.loads(x) for x in cur[s:n + 1]], rest=[json.loads(x) for x in cur[n+1:e]],
                                 why=why, module=module, tlc=tail(out, 1500)))
            cur = cur[:s] + cur[e:]
            if not cur:
                break
        eps = sum(1 for x in trace if is_reset(x, episodes_key))
        self.cov["traces_validated_against_impl"] += eps
        self.cov["events_validated"] += len(trace)
        for x in trace:
            try:
                op = json.loads(x)["a"]["op"]
            except Exception:
                continue
            self.cov["op_counts"][op] = self.cov["op_counts"].get(op, 0) + 1
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(dict(module=module, label=label, first_events=[json.loads(x) for x in trace[:8]]))
        for r in rejected:
            self.reject(r, label, known)
        return rejected

    def reject(self, r, label, known=None):
        kf = known_findings(self.prop)
        for k in kf:
            if known_match(k, r):
                self.known_hits.append(k)
                return
        if len(self.violations) >= 20:
            return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed, len(self.violations)))
        json.dump(dict(property=self.prop, seed=self.seed, label=label, **r), open(path, "w"), indent=1)
        self.violations.append(path)
        last = r["events"][-1] if r["events"] else {}
        if len(self.violations) <= 5:
            self.log("REJECTED (%s): %s" % (r["why"], json.dumps(last)[:1500]))

    # ---- result ---------------------------------------------------------
    def finish(self, level="model_checking"):
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed, level=level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        for k in {json.dumps(k, sort_keys=True) for k in self.known_hits}:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, json.loads(k)["what"]), flush=True)
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v), flush=True)
        self.log("done: %d states, %d traces, %d events, %d violations" % (
            self.cov["states"], self.cov["traces_validated_against_impl"], self.cov["events_validated"], len(self.violations)))
        return 1 if self.violations else 0

    def cleanup(self):
        if os.environ.get("VH_KEEP"):
            print("kept", self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


def is_reset(line, key):
    return '"op":"%s"' % key in line


def tail(s, n=3000):
    s = "\n".join(l for l in s.splitlines() if not l.startswith('"SCRIPT '))
    return s[-n:]


_kf = None


def known_findings(prop):
    global _kf
    if _kf is None:
        _kf = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith("#"):
                    k = json.loads(l)
                    if k.get("status") == "known":
                        _kf.append(k)
    return [k for k in _kf if k["property"] == prop]


def known_match(k, r):
    """A finding is identified by the episode label (directed history) and the call at which the code departs."""
    first = r["events"][0].get("a", {}) if r["events"] else {}
    last = r["events"][-1].get("a", {}) if r["events"] else {}
    m = k["match"]
    if m.get("episode") != first.get("kf"):
        return False
    return all(last.get(f) == v for f, v in m.get("call", {}).items())
