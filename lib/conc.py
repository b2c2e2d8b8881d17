"""C01-C08: traces of the real sync/async code under a controlled scheduler, validated by TLC against FxObj."""
import json, os, random, subprocess, threading, zlib
from concurrent.futures import ThreadPoolExecutor
import seq
from common import *

READ = "getc,rd,rd2"
BASIC = "getc,rd,getmw,getmr,set,clr,has,wrst,wrclr"
FULL = "getc,rd,rd2,getmw,getmr,set,clr,has,wrst,wrclr,wrstclr,wrclrst,wr0"
CLONES = "clonehas,cloneget,cloneclr,cloneset,cloneeq,eqself,eqother,eqrev"

# property -> list of (weight, argument dict)
def suites(prop):
    S = lambda **k: k
    if prop == "C01":
        return [
            S(kind="lz", suite="small", units="getc,rd,getmw,set,clr,has", bound=2, cap=50, shapes=2),
            S(kind="lf", suite="small", units="getc,rd,getmw,clr", bound=2, cap=40, fail=25),
            S(kind="lz", units="getc,getc,rd,getmr,clr,wrclr,set,has", programs=70, threads=4, len=3, nest=50, init=15),
            S(kind="lf", units="getc,getc,rd,getmr,clr,wrclr,set,has", programs=50, threads=4, len=3, nest=50, fail=25, init=15),
        ]
    if prop == "C02":
        return [
            S(kind="lz", mode="async", suite="small", units="getc,rd,getmw,set,clr,has", bound=2, cap=50, spurious=25),
            S(kind="lf", mode="async", suite="small", units="getc,rd,getmw,clr", bound=2, cap=40, fail=25, spurious=25),
            S(kind="lz", mode="async", units="getc,getc,rd,getmr,clr,wrclr,set,has", programs=70, threads=4, len=3, nest=50, init=15, spurious=30),
            S(kind="lf", mode="async", units="getc,getc,rd,getmr,clr,wrclr,set,has", programs=50, threads=4, len=3, nest=50, fail=25, init=15, spurious=30),
        ]
    if prop == "C03":
        return [
            S(kind="lz", mode="async", suite="small", units="getc,rd,getmw,set,clr,wrst,has", bound=1, cap=25, cancel=35, spurious=60),
            S(kind="lf", mode="async", suite="small", units="getc,getmw,clr", bound=1, cap=25, cancel=35, spurious=60, fail=20),
            S(kind="lz", mode="async", units=BASIC, programs=80, threads=3, len=3, nest=40, cancel=30, spurious=50, init=25),
            S(kind="lf", mode="async", units=BASIC, programs=60, threads=3, len=3, nest=40, cancel=30, spurious=50, fail=20, init=25),
            S(kind="op", mode="async", units=BASIC, programs=40, threads=3, len=3, cancel=30, spurious=50),
            S(kind="lk", mode="async", units=BASIC, programs=30, threads=3, len=3, cancel=30, spurious=50),
        ]
    if prop == "C04":
        return [
            S(kind="lz", suite="small", units="getc,set,clr,has,getmw,wrst,wrclr,wrstclr,wrclrst", bound=2, cap=16),
            S(kind="lz", mode="async", suite="small", units="getc,set,clr,has,getmw,wrst,wrclr,wrstclr,wrclrst", bound=2, cap=16),
            S(kind="lz", units=FULL, programs=50, threads=3, len=4, init=50),
            S(kind="lf", units=FULL, programs=30, threads=3, len=4, init=50, fail=15),
            S(kind="lz", mode="async", units=FULL, programs=50, threads=3, len=4, init=50, spurious=20),
            S(kind="lf", mode="async", units=FULL, programs=30, threads=3, len=4, init=50, fail=15, spurious=20),
        ]
    if prop == "C05":
        u = "rd,rd2,rd2,getc,getmw,getmr,wrst,wr0,set,clr"
        out = []
        for kind in ("lz", "lf", "op", "lk"):
            for mode in ("sync", "async"):
                x = ",eqself,eqother,eqrev,cloneget" if mode == "sync" or kind in ("op", "lk") else ""
                out.append(S(kind=kind, mode=mode, units=u + x, programs=30, threads=4, len=3, init=60, nest=20))
        out += [
            S(kind="lz", suite="small", units="rd2,getc,getmw,wr0,set,eqself,eqother,eqrev", bound=2, cap=14),
            S(kind="lk", suite="small", units="rd2,getc,getmw,set,eqself,eqother,eqrev", bound=2, cap=14),
            S(kind="op", suite="small", units="rd2,getc,getmw,clr,eqother,eqrev", bound=2, cap=14),
            S(kind="lz", mode="async", suite="small", units="rd2,getc,getmw,wr0,set", bound=2, cap=20),
            S(kind="lk", mode="async", suite="small", units="rd2,getc,getmw,set,eqself,eqother,eqrev", bound=2, cap=10),
        ]
        return out
    if prop == "C06":
        return [
            S(kind="lf", suite="small", units="getc,rd,getmw,has,clr,set", bound=2, cap=24, fail=60),
            S(kind="lf", mode="async", suite="small", units="getc,rd,getmw,has,clr,set", bound=2, cap=24, fail=60, spurious=20),
            S(kind="lz", suite="small", units="getc,rd,getmw,has", bound=2, cap=24, fail=60),
            S(kind="lz", mode="async", suite="small", units="getc,rd,getmw,has", bound=2, cap=24, fail=60),
            S(kind="lf", units=BASIC, programs=40, threads=4, len=3, fail=50, nest=40, init=10),
            S(kind="lf", mode="async", units=BASIC, programs=40, threads=4, len=3, fail=50, nest=40, init=10),
            S(kind="lz", units=BASIC, programs=30, threads=4, len=3, fail=50, nest=40, init=10),
            S(kind="lz", mode="async", units=BASIC, programs=30, threads=4, len=3, fail=50, nest=40, init=10),
        ]
    if prop == "C07":
        u = "getc,rd,set,clr,has,getmw,wrst,wrclr,wrstclr,wrclrst"
        return [
            S(kind="op", suite="small", units=u, bound=2, cap=14),
            S(kind="op", mode="async", suite="small", units=u, bound=2, cap=14, spurious=20),
            S(kind="lk", suite="small", units="getc,rd,set,getmw,wrst,wrstclr", bound=2, cap=20),
            S(kind="lk", mode="async", suite="small", units="getc,rd,set,getmw,wrst,wrstclr", bound=2, cap=20, spurious=20),
            S(kind="op", units=FULL, programs=40, threads=4, len=4),
            S(kind="op", mode="async", units=FULL, programs=40, threads=4, len=4, spurious=20),
            S(kind="lk", units=FULL, programs=30, threads=4, len=4),
            S(kind="lk", mode="async", units=FULL, programs=30, threads=4, len=4, spurious=20),
        ]
    if prop == "C08":
        u = "getc,set,clr,getmw,wrst,wrclr," + CLONES + "," + CLONES
        out = [S(kind=k, units=u, programs=45, threads=3, len=3, fail=10 if k == "lf" else 0, init=50)
               for k in ("lz", "lf", "op", "lk")]
        out += [
            S(kind="lz", suite="small", units="set,clr,getmw,wrclrst,cloneget,cloneset,eqself,eqother,cloneeq", bound=2, cap=10),
            S(kind="op", suite="small", units="set,clr,wrst,clonehas,cloneclr,eqself,eqother,eqrev", bound=2, cap=8),
            S(kind="lk", suite="small", units="set,wrst,cloneget,eqother,eqrev", bound=2, cap=16),
            S(kind="op", mode="async", units=u, programs=40, threads=3, len=3, init=50, spurious=20),
            S(kind="lk", mode="async", units=u, programs=40, threads=3, len=3, init=50, spurious=20),
            S(kind="op", mode="async", suite="small", units="set,clr,clonehas,cloneclr,eqself,eqother,eqrev", bound=2, cap=8),
            S(kind="lk", mode="async", suite="small", units="set,wrst,cloneget,eqother,eqrev", bound=2, cap=14),
        ]
        return out
    raise KeyError(prop)


NATIVE = False
# these have a sequential part: many forms of declarations, one thread
SEQUENTIAL = ("C01", "C02", "C04", "C06", "C07", "C08")


def build(check):
    """The harness with the stand-ins for the lock crates. Should fieldx use something of these crates that the
    stand-ins lack, fall back to the real crates: the executions are then scheduled at builder bodies, value
    operations and call boundaries only."""
    global NATIVE
    h = copy_harness()
    conc = os.path.join(h, "conc")
    ok, errs, stderr = cargo_json(["build"], conc)
    if not ok and not any(e["_target"] == "conc" for e in errs):
        toml = os.path.join(conc, "Cargo.toml")
        s = open(toml).read()
        with open(toml, "w") as f:
            f.write(re.sub(r"\[patch\.crates-io\][^\[]*", "", s))
        note("the stand-ins do not suffice, using the real lock crates")
        ok, errs, stderr2 = cargo_json(["build", "--features", "native"], conc)
        NATIVE = True
        os.environ["FX_NATIVE"] = "1"
        stderr += stderr2
    if not ok:
        mine = [e for e in errs if e["_target"] == "conc"]
        if mine:
            check.violate("harness-compile", "documented helper usage does not compile: " + mine[0]["message"],
                          [e.get("rendered", "")[:2000] for e in mine[:5]])
            return None
        raise ToolError("cannot build: " + stderr[-3000:])
    return path("target", "debug", "conc")


def run_programs(check, exe, prop):
    jobs = []
    nshard = 4
    ss = suites(prop)
    factor = 1 if QUICK else 12
    for si, s in enumerate(ss):
        for sh in range(nshard):
            a = dict(s)
            a.setdefault("suite", "random")
            if a["suite"] == "random":
                # `programs` is the number per suite
                a["programs"] = max(1, a["programs"] * factor // nshard * 2)
                if not QUICK:
                    a["random"], a["cap"] = 20, 20
            else:
                a["cap"] = a["cap"] * (1 if QUICK else 20)
                if not QUICK:
                    a["bound"] = 3
            out = path("traces", "%d-%d.ndjson" % (si, sh))
            a.update(shard=sh, shards=nshard, seed=SEED * 1009 + si, secs=40 if QUICK else 240, out=out)
            cmd = [exe]
            for k, v in a.items():
                cmd += ["--" + k, str(v)]
            jobs.append((cmd, out))
    running, done = [], []
    stats = {"programs": 0, "execs": 0, "traces": 0, "stuck": 0, "switches": 0}
    ops = {}
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < CORES:
            cmd, out = queue.pop(0)
            running.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), cmd, out))
        p, cmd, out = running.pop(0)
        so, se = p.communicate(timeout=800)
        if p.returncode != 0:
            check.violate("harness-crash", "the process running client programs died (%s): %s" % (p.returncode, se[-300:]),
                          {"cmd": cmd})
            continue
        d = json.loads(so)
        for k in stats:
            stats[k] += d[k]
        for k, v in d["ops"].items():
            ops[k] = ops.get(k, 0) + v
        done.append(out)
    return done, stats, ops


def validate(check, files, cap_events, prop, spec="FxObjTrace.tla", cfg="FxObjTrace.cfg"):
    """Shard the traces and let TLC decide each."""
    seen, traces = set(), []
    for f in files:
        for line in open(f):
            h = zlib.crc32(line.encode()) ^ (len(line) << 32)
            if h in seen:
                continue
            seen.add(h)
            traces.append(line)
    total = len(traces)
    rnd = random.Random(SEED)
    rnd.shuffle(traces)
    # Executions that got stuck first, they are the most interesting ones.
    traces.sort(key=lambda t: '"stuck"' not in t)
    kept, n = [], 0
    for t in traces:
        n += t.count('"e":')
        if n > cap_events:
            break
        kept.append(t)
    procs = []
    chunks = [kept[i::CORES] for i in range(CORES)]
    for i, ch in enumerate(chunks):
        if not ch:
            continue
        f = path("shards", "%d.ndjson" % i)
        with open(f, "w") as o:
            o.writelines(ch)
        procs.append((tlc_start(spec, cfg, env={"TRACE": f}), ch))
    gen = dist = 0
    for p, ch in procs:
        r = tlc_wait(p, 800)
        gen += r.generated
        dist += r.distinct
        rej = re.findall(r'<<"REJECT", (\d+), (\d+)>>', r.out)
        if not re.search(r'<<"TRACES", %d>>' % len(ch), r.out) or "Finished in" not in r.out:
            if "is violated" in r.out:
                check.violate("invariant", "an invariant of FxObj fails along a recorded trace", r.out[-4000:])
                continue
            raise ToolError("TLC failed: " + r.out[-3000:])
        for i, pos in rej:
            d = json.loads(ch[int(i) - 1])
            pos = int(pos)
            ev = d["ev"][pos - 1] if pos <= len(d["ev"]) else None
            check.violate("trace", "%s %s trace cannot be explained by FxObj: event %d of %d is %s" % (
                d["kind"], "", pos, len(d["ev"]), json.dumps(ev)), {"trace": d, "position": pos})
    return total, len(kept), gen, dist, kept


def run(prop):
    check = Check(prop, "model_checking")
    design = design_start(prop)
    exe = build(check)
    if exe is None:
        return check.finish()
    note("built")
    side = ThreadPoolExecutor(1)
    sequential = side.submit(seq.replay, check, prop) if prop in SEQUENTIAL else None
    files, stats, ops = run_programs(check, exe, prop)
    note("ran", stats)
    total, kept, gen, dist, sample = validate(check, files, 1_200_000 if QUICK else 12_000_000, prop)
    note("validated", kept, "of", total)
    dgen, ddist, dinfo = design_wait(check, design)
    if sequential:
        note("waiting for the sequential part")
        sq = sequential.result()
        dgen, ddist, kept_seq = dgen + sq["transitions"], ddist + sq["states"], sq.pop("traces_validated_against_impl")
        sq["behaviours_replayed"] = kept_seq
        sq.pop("samples")
        check.cov["sequential_replay"] = sq
    check.cov.update({
        "states": dist + ddist, "transitions": gen + dgen,
        "traces_validated_against_impl": kept,
        "distinct_traces_recorded": total, "executions": stats["execs"], "client_programs": stats["programs"],
        "scheduling_decisions": stats["switches"], "executions_stuck": stats["stuck"],
        "events_by_kind": ops, "design_models": dinfo,
        "samples": [json.loads(t) for t in sample[:2]],
    })
    check.assumptions = [
        "one thread runs at a time; switches happen at lock operations, value clones/comparisons, builder bodies and call boundaries (sequential consistency)",
        "the parking_lot and tokio RwLocks are replaced by stand-ins with the same blocking rules",
    ]
    return check.finish()


# The clients FxObjMC closes FxObj with, per property: quick ones and what the thorough tier adds.
ALL = "getc rd set clr has wr getm gst gcl gw gr"
DESIGN = {
    "C01": ([dict(Ops="getc rd set clr", Calls=2, Panics=1), dict(Ops="getc getm clr", Calls=2, Nests=1),
             dict(Ops="getc rd", Calls=1, N=3)],
            [dict(Ops="getc rd set clr", Calls=2, Panics=1, N=3), dict(Ops="getc getm clr", Calls=2, Nests=1, N=3),
             dict(Ops="getc clr", Calls=2, N=4), dict(Kind="lf", Ops="getc rd set clr", Calls=2, Fails=1, Panics=1, N=3)]),
    "C02": ([dict(Ops="getc rd getm wr has", Calls=2), dict(Ops="getc rd getm", Calls=1, N=3)],
            [dict(Ops="getc rd getm wr has", Calls=2, N=3), dict(Ops="getc rd", Calls=2, N=4),
             dict(Ops="getc set wr gst gcl gw gr", Calls=3, N=3)]),
    "C03": ([dict(Ops="getc rd set clr", Calls=2, Cancels=1), dict(Ops="getc wr gcl", Calls=2, Cancels=1),
             dict(Kind="lf", Ops="getc rd", Calls=1, Cancels=1, Fails=1, N=3)],
            [dict(Ops="getc rd set clr", Calls=2, Cancels=1, N=3), dict(Kind="lf", Ops="getc rd getm clr", Calls=2, Cancels=1, Fails=1),
             dict(Ops="getc wr gcl", Calls=2, Cancels=1, N=3), dict(Ops="getc getm clr", Calls=2, Nests=1, Cancels=1, N=2)]),
    "C04": ([dict(Ops="getc set clr has", Calls=2, InitVal=1), dict(Ops="getc set wr gst gcl", Calls=2)],
            [dict(Ops="getc set clr has", Calls=2, InitVal=1, N=3), dict(Ops="getc set wr gst gcl", Calls=3, N=3),
             dict(Ops="getc set clr has rd wr gst gcl", Calls=4)]),
    "C05": ([dict(Ops="getc rd wr getm gw gr", Calls=2), dict(Ops="getc wr set", Calls=1, live=True)],
            [dict(Ops="getc rd wr getm gw gr", Calls=3, N=3), dict(Ops="getc wr set", Calls=1, live=True, N=3),
             dict(Ops="getc wr clr gst", Calls=2, live=True), dict(Ops="getc getm", Nests=1, Calls=1, live=True, N=3)]),
    "C06": ([dict(Kind="lf", Ops="getc rd clr", Calls=2, Fails=1, Panics=1),
             dict(Kind="lf", Ops="getc set clr", Calls=1, Fails=1, live=True)],
            [dict(Kind="lf", Ops="getc rd clr", Calls=2, Fails=1, Panics=1, N=3),
             dict(Kind="lf", Ops="getc set clr getm", Calls=1, Fails=1, live=True, N=3),
             dict(Kind="lf", Ops="getc getm clr", Calls=2, Fails=1, Nests=1, N=3)]),
    "C07": ([dict(Kind="op", Ops=ALL, Calls=2), dict(Kind="lk", Ops="rd wr set gw gr", Calls=2)],
            [dict(Kind="op", Ops=ALL, Calls=2, N=3), dict(Kind="lk", Ops="rd wr set gw gr", Calls=3, N=3),
             dict(Kind="op", Ops="getc set clr has", Calls=3, N=3)]),
    "C08": ([dict(Ops="getc set clr clone", Calls=2, Objects=3), dict(Ops="eq wr set getc", Calls=2, Objects=2, InitVal=1),
             dict(Ops="eq getc set", Calls=1, Objects=2, InitVal=1, live=True)],
            [dict(Kind="op", Ops="getc set clr clone", Calls=2, Objects=3, N=3), dict(Ops="getc set clr clone", Calls=2, Objects=3, N=3),
             dict(Ops="eq wr set getc", Calls=2, Objects=2, N=3, InitVal=1),
             dict(Ops="eq getc set", Calls=1, Objects=2, N=3, InitVal=1, live=True),
             dict(Kind="lk", Ops="eq wr set clone", Calls=2, Objects=3)]),
}
INVARIANTS = "TypeOK GuardExclusion BuilderAlone OneBuilder ReadGuardHasValue OncePerInit NeverTwice NotInFieldAndOut Waits"
ACTION_PROPERTIES = ("BuilderOnlyOnEmpty GetsWhatIsThere CancelledLeavesNothing PredicateIsPresence UnderGuardOnlyOwner "
                     "FailureLeavesUnset NoSideEffects CloneHasWhatWasThere")


def design_cfg(name, N=2, Kind="lz", Ops="", Calls=1, Fails=0, Panics=0, Cancels=0, Nests=0, Objects=1, InitVal=0, live=False):
    b = lambda x: "TRUE" if x else "FALSE"
    f = path("design", name + ".cfg")
    with open(f, "w") as o:
        o.write("CONSTANTS Threads = {%s} Kind = \"%s\" Ops = {%s} Calls = %d Fails = %s Panics = %s Cancels = %s Nests = %s "
                "Objects = %d InitVal = %s\n" % (", ".join("t%d" % i for i in range(N)), Kind,
                                                ", ".join('"%s"' % x for x in Ops.split()), Calls, b(Fails), b(Panics), b(Cancels),
                                                b(Nests), Objects, b(InitVal)))
        o.write("SPECIFICATION %s\nINVARIANTS %s\nPROPERTIES %s%s\nCHECK_DEADLOCK TRUE\n" % (
            "Fair" if live else "Spec", INVARIANTS, ACTION_PROPERTIES, " AllReturn" if live else ""))
        if not live:  # TLC's liveness checking is not sound under symmetry
            o.write("SYMMETRY Symmetry\n")
    return f


def design_start(prop):
    """Starts TLC on FxObj closed with clients. A thread of its own goes through the models so that they do not crowd out the rest."""
    quick, more = DESIGN[prop]
    models = list(quick) if QUICK else quick + more
    scratch()
    res = {"runs": [], "error": None}

    def go():
        try:
            for i, m in enumerate(models):
                name = "%s_%d" % (prop, i)
                p = tlc_start("FxObjMC", design_cfg(name, **m), workers=2 if QUICK else 4, mem="1500m" if QUICK else "8g")
                res["runs"].append((" ".join("%s=%s" % kv for kv in sorted(m.items())), tlc_wait(p, 120 if QUICK else 1500)))
        except Exception as e:
            res["error"] = e
    res["t"] = threading.Thread(target=go, daemon=True)
    res["t"].start()
    return res


def design_wait(check, ds):
    """A failure here is a fault of the specification, not of the code: no verdict."""
    ds["t"].join()
    if ds["error"]:
        raise ds["error"]
    gen = dist = 0
    info = []
    for name, r in ds["runs"]:
        if not r.ok:
            raise ToolError("design model %s: %s" % (name, r.out[-3000:]))
        gen += r.generated
        dist += r.distinct
        info.append({"model": name, "states": r.distinct})
    return gen, dist, info
