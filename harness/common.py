"""Shared machinery: building bubbler, running TLC, reporting."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class CheckError(Exception):
    """The check could not do its work (neither held nor violated)."""


def go_env(scratch=None):
    e = dict(os.environ)
    e.update({"GOFLAGS": "-mod=readonly -buildvcs=false", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOSUMDB": "off"})
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if kv.startswith(b"GO"):
                k, _, v = kv.decode().partition("=")
                e[k] = v
    e["HOME"] = os.environ.get("HOME", "/root")
    return e


class Run:
    """One run of a check: scratch space, tallies, violations, evidence."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = {}
        self.assumptions = []
        self.findings = load_findings(prop)
        self.pool = cf.ThreadPoolExecutor(max_workers=JOBS)
        self.env = go_env()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    # -- bubbler
    def bubbler(self):
        out = self.path("bin", "bubbler")
        r = subprocess.run(["go", "build", "-o", out, "."], cwd=REPO, env=self.env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("bubbler does not build:\n" + r.stderr)
        self.bin = out
        return out

    # -- programs of ours built inside the module under test
    def go_tool(self, name):
        """Builds harness/go/<name>.go as a main package of /repo's module (through an overlay)."""
        out = self.path("bin", name)
        ov = self.path("bin", name + ".overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "zz_verif_" + name, "main.go"): os.path.join(VERIF, "harness", "go", name + ".go")}}, f)
        r = subprocess.run(["go", "build", "-overlay", ov, "-o", out, "./zz_verif_" + name], cwd=REPO, env=self.env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("%s does not build:\n%s" % (name, r.stderr[-3000:]))
        return out

    # -- TLC
    def tlc(self, module, cfg=None, env=None, sim=None, depth=100, seed=1, workers=1, timeout=600, heap="1500m", extra=()):
        """Runs TLC in a scratch copy of the spec directory. sim: number of traces, or None for exhaustive checking."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        jars = ":".join(sorted(["/opt/veriftools/tla/" + f for f in os.listdir("/opt/veriftools/tla") if f.endswith(".jar")],
                               key=lambda x: "tla2tools" not in x))
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap, "-cp", jars, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-config", cfg or (module + ".cfg"), "-metadir", os.path.join(d, "meta")]
        if sim is not None:
            cmd += ["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            pass
        out = r.stdout + r.stderr
        if r.returncode != 0 or "Error:" in out:
            i = max(0, out.find("Error:"))
            raise CheckError("TLC on %s (%s): exit %d\n%s\n...\n%s" % (module, env, r.returncode, out[i:i + 3000], out[-3000:]))
        m = re.search(r"The number of states generated: (\d+)", out)
        gen = int(m.group(1)) if m else 0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.count("states", int(m.group(2)))
            self.count("transitions", int(m.group(1)))
        else:
            self.count("states", gen)
            self.count("transitions", max(0, gen - 1))
        shutil.rmtree(d, ignore_errors=True)
        return out

    # -- verdicts
    def violation(self, what, detail, key=None):
        """what: one line; detail: dict for the replay file; key: identity for known findings"""
        for f in self.findings:
            if f.matches(key or what, detail):
                self.known.append((f, what))
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        if len(self.violations) < 20:
            detail = dict(detail)
            detail["what"] = what
            detail["property"] = self.prop
            with open(p, "w") as f:
                json.dump(detail, f, indent=1, default=str)
        self.violations.append((what, p))

    def finish(self):
        self.pool.shutdown()
        seen = set()
        for f, what in self.known:
            if f.key not in seen:
                seen.add(f.key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f.text))
        for what, p in self.violations[:10]:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if len(self.violations) > 10:
            print("  ... and %d more" % (len(self.violations) - 10))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        ev["coverage"].update(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        self.log("done: %d violations, %s" % (len(self.violations), {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


class Finding:
    def __init__(self, key, text, prop):
        self.key, self.text, self.prop = key, text, prop

    def matches(self, key, detail):
        return key == self.key


def load_findings(prop):
    """known-findings.txt: {"property","key","text"}; lines with "fixed" suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith(("#", "fixed:")):
                continue
            j = json.loads(line)
            if j.get("property") == prop and "fixed" not in j:
                out.append(Finding(j["key"], j["text"], prop))
    return out


def sh(cmd, cwd=None, env=None, timeout=600, stdin=None, merge=False):
    """-> (rc, stdout, stderr); rc is None on timeout"""
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdin=subprocess.DEVNULL, capture_output=True)
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace")
