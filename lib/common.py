"""Shared machinery of the checks: scratch space, cargo, TLC, evidence, known findings."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FX_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
CORES = 8
T0 = time.time()
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="fxverif-")

        def clean():
            if os.environ.get("FX_KEEP"):
                print("kept", _scratch, file=sys.stderr)
            else:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(2))
    return _scratch


def path(*a):
    p = os.path.join(scratch(), *a)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


class ToolError(Exception):
    """Something that is not the code under test failed."""


def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTFLAGS"] = "-Awarnings"
    e.pop("RUSTC_WRAPPER", None)
    e["CARGO_TARGET_DIR"] = path("target")
    return e


def copy_harness():
    """A private copy of /verif/harness, depending on the current /repo."""
    dst = os.path.join(scratch(), "harness")
    if not os.path.exists(dst):
        shutil.copytree(os.path.join(VERIF, "harness"), dst, ignore=shutil.ignore_patterns("target"))
        if REPO != "/repo":
            for root, _, files in os.walk(dst):
                for f in files:
                    if f == "Cargo.toml":
                        p = os.path.join(root, f)
                        s = open(p).read()
                        open(p, "w").write(s.replace('"/repo/', '"%s/' % REPO))
    return dst


def cargo(args, cwd, timeout=600):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=timeout)
    return p


def cargo_json(args, cwd, timeout=800):
    """cargo build with JSON diagnostics -> (ok, [error messages as dicts], stderr)"""
    p = cargo(args + ["--message-format=json", "--offline"], cwd, timeout)
    errs, seen_final = [], False
    for line in p.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("reason") == "compiler-message" and d["message"].get("level") == "error":
            m = d["message"]
            m["_target"] = d.get("target", {}).get("name")
            m["_pkg"] = d.get("package_id", "")
            errs.append(m)
        if d.get("reason") == "build-finished":
            seen_final = True
    return p.returncode == 0, errs, p.stderr


# ---------------------------------------------------------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        allm = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        self.generated = int(allm[-1][0].replace(",", "")) if allm else 0
        self.distinct = int(allm[-1][1].replace(",", "")) if allm else 0
        self.completed = "Model checking completed. No error has been found." in out or "Finished in" in out
        self.ok = "Model checking completed. No error has been found." in out


def tlc_start(spec, cfg, env=None, workers=1, mem="1500m", extra=(), jvm=(), cwd=SPEC):
    meta = tempfile.mkdtemp(prefix="m", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    out = open(os.path.join(meta, "out.txt"), "w")
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss16m", *jvm,
           "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, spec]
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=out, stderr=subprocess.STDOUT)
    p._out, p._t0 = out.name, time.time()
    atexit.register(lambda: p.poll() is None and p.kill())
    return p


def tlc_wait(p, timeout=600):
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise ToolError("TLC timed out")
    return Tlc(rc, open(p._out, errors="replace").read(), time.time() - p._t0)


def tlc(spec, cfg, timeout=600, **kw):
    return tlc_wait(tlc_start(spec, cfg, **kw), timeout)


# --------------------------------------------------------------------------------------------------- findings, evidence

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Entries `known: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    """Collects what one run covered and what it found."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = {}
        self.assumptions = []
        self.violations = []      # (key, text, replay data)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violate(self, key, text, data=None):
        self.violations.append((key, text, data))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = known_findings(self.prop)
        hit, new = {}, []
        for v in self.violations:
            if v[0] in known:
                hit[v[0]] = known[v[0]]
            else:
                new.append(v)
        for k, text in known.items():
            # a listed finding that no longer shows is worth a note, not an alarm
            if k in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
            else:
                note("listed finding", k, "did not show in this run")
        ev = {
            "property": self.prop, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": self.level,
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 2), "violations": len(new),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if new:
            rp = os.path.join(EVID, "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER,
                           "violations": [{"key": k, "what": t, "data": d} for k, t, d in new[:20]]}, f, indent=1)
            for k, t, _ in new[:5]:
                print("  " + t)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})))
        return 0
