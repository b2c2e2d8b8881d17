"""C09, C10, C11, C14: behaviours of FxSeq (TLC) replayed into generated structs."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from fx import Fld, Struct, PRELUDE, CONSTS

MODES = ("plain", "sync", "async")


# ----------------------------------------------------------------------------------------------------- configurations

def routes1(f, need=True):
    """ways to make a one-field struct"""
    r = [((None,), "new"), ((None,), "default")]
    if f.kind != "cell" or f.dflt is not None:
        r.append(((None,), "build"))
    r.append(((6,), "build"))
    return r


def plain_lazy():
    out, k = [], 0
    for ty, gets in (("i32", ("ref", "copy", "clone")), ("String", ("ref", "clone")), ("Nc", ("ref",)), ("Cp", ("ref", "copy")), ("Cl", ("clone",))):
        for get in gets:
            for fall in (False, True):
                for dflt in (None, 5):
                    f = Fld("lazy", ty, get, fall, dflt, into=ty in ("Nc", "Cl", "Cp", "String") and k % 2 == 0, spell=k % 8)
                    out.append(Struct("L%d" % k, "plain", [f], routes1(f)))
                    k += 1
    return out


def two_lazy(mode, tag, n0=0):
    out = []
    k = n0
    for fall in (False, True):
        for (g1, g2) in (("ref", "ref"), ("copy", "clone"), ("clone", "ref")):
            f1 = Fld("lazy", "i32", g1, fall, spell=k % 4)
            f2 = Fld("lazy", "i32", g2, fall, dep=1, spell=(k + 1) % 4)
            out.append(Struct("%s%d" % (tag, k), mode, [f1, f2], [((None, None), "new"), ((6, None), "build"), ((None, 7), "build")],
                              only=("get", "gm", "clr", "has", "err", "pan", "set"), family="two%d" % (k - n0)))
            k += 1
    return out


def simple(modes=MODES, tag="S"):
    """optional, inner-mutable and simple fields"""
    out, k = [], 0
    for mode in modes:
        for kind in ("opt", "cell"):
            for ty, gets in (("i32", ("ref", "copy", "clone", "as_ref")), ("String", ("ref", "clone")), ("Nc", ("ref", "as_ref")), ("Cp", ("copy",))):
                for get in gets:
                    if get == "as_ref" and kind != "opt":
                        continue
                    for variant in (0, 1):
                        # plain: inner mutability; sync, async: lock or not
                        inner = mode == "plain" and variant == 1
                        lock = not (mode != "plain" and variant == 1)
                        if get == "as_ref" and (inner or (mode != "plain" and lock)):
                            continue
                        for dflt in (None, 5):
                            if k % 3 == 0 and dflt is None and ty == "String":
                                pass
                            f = Fld(kind, ty, get, False, dflt, inner=inner, lock=lock, into=ty in ("Nc", "Cp", "String") and k % 2 == 0, spell=k % 8)
                            out.append(Struct("%s%d" % (tag, k), mode, [f], routes1(f)))
                            k += 1
    return out


def families():
    """C11: the same declaration in the three modes"""
    fams = []
    one = []
    for ty, gets in (("i32", ("ref", "copy", "clone")), ("String", ("clone", "ref")), ("Nc", ("ref",))):
        for get in gets:
            for kind in ("lazy", "opt", "cell"):
                for fall in ((False, True) if kind == "lazy" else (False,)):
                    for dflt in (None, 5):
                        one.append(dict(kind=kind, ty=ty, get=get, fall=fall, dflt=dflt, spell=len(one) % 8, into=ty != "i32" and len(one) % 3 == 0))
    k = 0
    out = []
    for o in one:
        for m in MODES:
            f = Fld(**o)
            out.append(Struct("F%d%s" % (k, m), m, [f], routes1(f), family="one%d" % k,
                              only=("get", "gm", "gmw", "set", "clr", "has", "err", "pan", "gms", "gmn", "setp")))
        k += 1
    for m in MODES:
        out += two_lazy(m, "T%s" % m)
    # sync and async structs also have reader and writer guards in common
    for k, (kind, ty, get, fl, d) in enumerate((kind, ty, get, fl, d) for kind in ("lazy", "opt", "cell")
                                               for ty, get in (("i32", "copy"), ("String", "clone"), ("Nc", "ref"), ("Cp", "ref"))
                                               for fl in ((False, True) if kind == "lazy" else (False,)) for d in (None, 5)):
        for m in ("sync", "async"):
            f = Fld(kind, ty, get, fl, d, lock=True, into=ty != "i32" and k % 3 == 0, spell=k % 8)
            out.append(Struct("G%d%s" % (k, m), m, [f], routes1(f), family="guards%d" % k))
    # mixed: a lazy field that depends on an optionally preset one, an optional one and a cell
    for fall in (False, True):
        for m in MODES:
            fs = [Fld("cell", "i32", "ref"), Fld("lazy", "i32", "ref", fall, dep=1), Fld("opt", "String", "clone")]
            out.append(Struct("X%d%s" % (fall, m), m, fs, [((None,) * 3, "new"), ((1, None, 2), "build")],
                              only=("get", "set", "clr", "has", "pan"), family="mix%d" % fall))
    return out


def initial_states():
    """C14"""
    out, k = [], 0
    for m in MODES:
        for kind in ("lazy", "opt", "cell"):
            for ty in ("i32", "String", "Nc", "Cl", "Cp"):
                for dflt in (None, 5, 8):
                    forms = [None]
                    if dflt is not None:
                        forms = {"i32": [None, "i32::from({v}u8)", "FIVE{v}"], "String": [None, 'String::from("{v}")', "mk_string({v})"],
                                 "Nc": [None, "Nc::make({v})"], "Cl": [None, "Cl({v})"], "Cp": [None, "Cp({v})"]}[ty]
                        forms = [forms[k % len(forms)]]
                    for form in forms:
                        for variant in (0, 1):
                            if variant and kind == "lazy":
                                continue
                            f = Fld(kind, ty, "ref", False, dflt, dform=form, spell=k % 8,
                                    extra=("builder(required)",) if k % 4 == 1 else ("builder",) if k % 4 == 2 else (),
                                    inner=m == "plain" and variant == 1, lock=not variant)
                            out.append(Struct("I%d" % k, m, [f], [((None,), "new"), ((None,), "default")],
                                              only=("get", "has", "clr", "set", "rd")))
                            k += 1
    # several fields at once: no value ends up in another field
    for m in MODES:
        for perm in range(4):
            kinds = [("lazy", None), ("opt", 5), ("cell", None), ("cell", 8), ("lazy", 5), ("opt", None)]
            kinds = kinds[perm:] + kinds[:perm]
            fs = [Fld(kd, "Cp" if d is None else "i32", "ref", False, d) for kd, d in kinds[:3]]
            out.append(Struct("M%d" % k, m, fs, [((None,) * 3, "new"), ((None,) * 3, "default")], only=("get", "has", "clr")))
            k += 1
    return out


def lazies(mode, tag, fall=(False, True), clone=False):
    """one lazy field, written in many ways"""
    out, k = [], 0
    types = (("i32", ("ref", "copy", "clone")), ("String", ("ref", "clone")), ("Cp", ("ref", "copy")), ("Cl", ("clone", "ref")))
    if not clone:
        types += (("Nc", ("ref",)),)
    for ty, gets in types:
        for get in gets:
            for fl in fall:
                for dflt in (None, 5):
                    f = Fld("lazy", ty, get, fl, dflt, into=ty not in ("i32",) and k % 2 == 0, spell=k % 8)
                    out.append(Struct("%s%d" % (tag, k), mode, [f], routes1(f)))
                    k += 1
    return out


def mixed(mode, tag, fall=(False, True)):
    """fields of all kinds next to each other"""
    out = []
    for k, (fl, perm) in enumerate((a, b) for a in fall for b in range(3)):
        fs = [Fld("lazy", "String", "clone", fl, spell=k), Fld("opt", "i32", "copy", spell=k + 1), Fld("cell", "String", "ref", spell=k + 2),
              Fld("lazy", "i32", "ref", fl, 8 if k % 2 else None, spell=k + 3)]
        fs = (fs[perm:] + fs[:perm])[:3]
        out.append(Struct("%s%d" % (tag, k), mode, fs, [((None,) * 3, "new"), (tuple(1 + i if f.kind == "cell" or i == 0 else None for i, f in enumerate(fs)), "build")],
                          only=("get", "set", "clr", "has", "err", "pan", "cln", "gmw")))
    return out


def cloned():
    """C08"""
    out = lazies("plain", "Cp", clone=True) + lazies("sync", "Cs", clone=True)
    out += [s for s in simple(MODES, "Co") if s.fields[0].ty != "Nc"]
    out += two_lazy("plain", "Cq") + two_lazy("sync", "Cr") + mixed("plain", "Cm") + mixed("sync", "Cn")
    for s in out:
        s.cl = True
        if s.only:
            s.only += ("cln",)
    return out


def suite(prop):
    if prop == "C01":
        return lazies("sync", "Ls") + two_lazy("sync", "Lt") + mixed("sync", "Lm")
    if prop == "C02":
        return lazies("async", "La") + two_lazy("async", "Lb") + mixed("async", "Lc")
    if prop == "C04":
        return lazies("sync", "Ls") + lazies("async", "La") + mixed("sync", "Lm") + mixed("async", "Ln")
    if prop == "C06":
        out = []
        for m in MODES:
            out += lazies(m, "E" + m, fall=(True,)) + two_lazy(m, "F" + m) + mixed(m, "G" + m)
        return out
    if prop == "C07":
        return simple(("sync", "async"), "O")
    if prop == "C08":
        return cloned()
    if prop == "C09":
        return plain_lazy() + two_lazy("plain", "P")
    if prop == "C10":
        return simple()
    if prop == "C11":
        return families()
    if prop == "C14":
        return initial_states()
    raise KeyError(prop)


# ------------------------------------------------------------------------------------------------------ behaviours

class Lts:
    """What TLC found: states and transitions of the templates."""

    def __init__(self, templates, check):
        f = path("templates.json")
        json.dump(templates, open(f, "w"))
        r = tlc("FxSeq.tla", "FxSeq.cfg", env={"TEMPLATES": f}, mem="4g")
        if not r.ok:
            raise ToolError("TLC on FxSeq: " + r.out[-3000:])
        self.generated, self.distinct = r.generated, r.distinct
        self.init, self.next = {}, {}
        ntr = 0
        for line in r.out.splitlines():
            if line.startswith('"[\\"T\\"'):
                x = json.loads(json.loads(line))
                _, t, val, nb, plan, i, k, v, log, val2, nb2, plan2 = x
                s = (t, tuple(val), tuple(nb), tuple(plan))
                s2 = (t, tuple(val2), tuple(nb2), tuple(plan2))
                res = (k + str(v) if k in ("v", "e") else k) + "/" + "+".join(map(str, log))
                self.next.setdefault(s, {})[i - 1] = (res, s2)
                ntr += 1
            elif line.startswith('"[\\"I\\"'):
                x = json.loads(json.loads(line))
                _, t, rt, val = x
                self.init[(t, rt)] = (t, tuple(val), (0,) * len(val), ("ok",) * len(val))
        self.transitions = ntr
        if not self.init or not ntr:
            raise ToolError("no behaviours in TLC's output: " + r.out[-2000:])


def paths(lts, start, ops, rnd, depth, nrandom, length, cover=True, cap=4000):
    out = []

    def rec(s, p, d):
        if d == 0:
            out.append(p)
            return
        for o in ops:
            r, s2 = lts.next[s][o]
            rec(s2, p + [(o, r)], d - 1)
    while depth > 1 and len(ops) ** depth > cap:
        depth -= 1
    rec(start, [], depth)
    if cover:
        # every reachable transition once, after a shortest way there
        seen, queue = {start: []}, [start]
        while queue:
            s = queue.pop(0)
            for o in ops:
                r, s2 = lts.next[s][o]
                tail, st = [], s2
                for q in ops[:3]:
                    r2, st = lts.next[st][q]
                    tail.append((q, r2))
                out.append(seen[s] + [(o, r)] + tail)
                if s2 not in seen:
                    seen[s2] = seen[s] + [(o, r)]
                    queue.append(s2)
            if len(out) > 4 * cap:
                break
    for _ in range(nrandom):
        s, p = start, []
        for _ in range(length):
            o = rnd.choice(ops)
            r, s2 = lts.next[s][o]
            p.append((o, r))
            s = s2
        out.append(p)
    return out


# ------------------------------------------------------------------------------------------------------- the replay

CARGO = """[package]
name = "seq"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "src/lib.rs"
[dependencies]
fieldx = { path = "%s/fieldx", features = [%s] }
tokio = { version = "1", features = ["sync"] }
async-trait = "0.1"
parking_lot = "0.12"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
%s
[profile.dev]
opt-level = 0
debug = false
incremental = false
"""


def make_crate(name, lib, bins, features=("sync", "async"), deps=""):
    d = path(name, "Cargo.toml")
    root = os.path.dirname(d)
    feats = ", ".join('"%s"' % f for f in features)
    open(d, "w").write(CARGO % (REPO, feats, deps))
    lock = os.path.join(VERIF, "harness", "gen", "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(root, "Cargo.lock"))
    os.makedirs(os.path.join(root, "src", "bin"), exist_ok=True)
    open(os.path.join(root, "src", "lib.rs"), "w").write(lib)
    for b, src in bins.items():
        open(os.path.join(root, "src", "bin", b + ".rs"), "w").write(src)
    return root


def build_crate(check, root, what):
    ok, errs, stderr = cargo_json(["build", "--bins"], root)
    if ok:
        return True
    mine = [e for e in errs if "seq" == e.get("_target") or e.get("_target", "").startswith("b")]
    if mine and len(mine) == len(errs):
        check.violate("compile", "%s: documented declarations or helper calls do not compile: %s" % (what, mine[0]["message"]),
                      [e.get("rendered", "")[:3000] for e in mine[:5]])
        return False
    if errs:
        raise ToolError("fieldx itself does not build: " + errs[0].get("rendered", ""))
    raise ToolError("cannot build: " + stderr[-3000:])


def run(prop):
    check = Check(prop, "model_checking")
    check.cov.update(replay(check, prop))
    check.assumptions = ["single-threaded use", "the abstraction of configurations to FxSeq templates (lib/fx.py) is right"]
    return check.finish()


def replay(check, prop, structs=None, name="seqcrate", features=("sync", "async")):
    """FxSeq's behaviours of the structs of this property replayed into the code; returns what that covered."""
    rnd = random.Random(SEED)
    structs = structs or suite(prop)
    for s in structs:
        s.decorate(rnd)
    templates, index = [], {}
    for s in structs:
        key = json.dumps(s.template(), sort_keys=True)
        if key not in index:
            index[key] = len(templates)
            t = s.template()
            t["routes"] = []
            templates.append(t)
        s.t = index[key]
        t = templates[s.t]
        s.rix = []
        for g, h in s.routes:
            g = [-1 if x is None else x for x in g]
            if g not in t["routes"]:
                t["routes"].append(g)
            s.rix.append(t["routes"].index(g) + 1)
    # groups: same template, same operations, same constructors
    groups = {}
    for s in structs:
        k = (s.t, tuple(s.my_ops()), tuple(s.rix))
        s.group = groups.setdefault(k, len(groups))
    nb = min(6, max(1, len(structs) // 12))
    bins = {}
    for b in range(nb):
        mine = structs[b::nb]
        src = ["#![allow(warnings)]", "use fieldx::fxstruct;", "use seq::*;", CONSTS,
               "pub const FIVE5: i32 = 5; pub const FIVE8: i32 = 8;"]
        src += [s.rust(s.group) for s in mine]
        src.append("fn main() { drive(&std::env::args().nth(1).unwrap(), &[%s]); }" % ", ".join(s.entry(s.group) for s in mine))
        bins["b%d" % b] = "\n".join(src)
    root = make_crate(name, PRELUDE, bins, features)
    with ThreadPoolExecutor(2) as ex:
        fut = ex.submit(Lts, templates, check)
        built = build_crate(check, root, prop)
        lts = fut.result()
    note("built; LTS: %d states, %d transitions" % (lts.distinct, lts.transitions))
    npaths = 0
    sample = []
    for (t, ops, rix), g in groups.items():
        f = path("paths", "g%d.txt" % g)
        with open(f, "w") as o:
            for k, r in enumerate(rix):
                ps = paths(lts, lts.init[(t + 1, r)], list(ops), rnd, 4 if QUICK else 6, 40 if QUICK else 2000, 30,
                           cap=(4000 if QUICK else 200000) if k == 0 else (700 if QUICK else 20000))
                npaths += len(ps)
                if len(sample) < 3:
                    p = rnd.choice(ps)
                    sample.append({"fields": templates[t]["fields"], "route": templates[t]["routes"][r - 1],
                                   "behaviour": [[templates[t]["ops"][i], e] for i, e in p]})
                for p in ps:
                    o.write("%d;%s\n" % (k, " ".join("%d:%s" % x for x in p)))
    note("behaviours:", npaths)
    replayed = steps = 0
    digests = {}
    if built:
        def go(b):
            return subprocess.run([path("target", "debug", b), os.path.dirname(path("paths", "x"))], stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, timeout=800)
        by_id = {s.id: s for s in structs}
        with ThreadPoolExecutor(CORES) as ex:
            for b, p in zip(bins, ex.map(go, bins)):
                if p.returncode != 0:
                    check.violate("crash", "replay process died with %s: %s" % (p.returncode, p.stderr[-500:]), {"bin": b})
                for line in p.stdout.splitlines():
                    d = json.loads(line)
                    if "bad" in d and isinstance(d["bad"], str):
                        s = by_id[d["bad"]]
                        t = s.template()
                        i = next((j for j, (x, y) in enumerate(zip(d["expected"], d["got"])) if x != y), len(d["got"]) - 1)
                        op = t["ops"][d["ops"][i]]
                        decl = "%s { %s }" % (s.mode, "; ".join(f.decl().strip().replace("\n    ", " ") for f in s.fields))
                        check.violate("replay", "%s: created by %s, after %d calls, %s(field %d, %s) gave %s, FxSeq says %s" % (
                            decl, s.ctor(*s.routes[d["ctor"]]), i, op["o"], op["f"], op["a"], d["got"][i], d["expected"][i]),
                            {"struct": s.rust(0), "calls": [t["ops"][x] for x in d["ops"]], "expected": d["expected"], "got": d["got"]})
                    else:
                        replayed += d["paths"]
                        steps += d["steps"]
                        s = by_id[d["cfg"]]
                        if s.family:
                            digests.setdefault(s.family, {})[s.id] = d["digest"]
    pairs = 0
    for fam, ds in digests.items():
        pairs += len(ds) * (len(ds) - 1) // 2
        if len(set(ds.values())) > 1 and prop == "C11":
            check.violate("modes", "plain, sync and async results differ for family %s: %s" % (fam, ds), ds)
    return {"states": lts.distinct, "transitions": lts.transitions, "traces_validated_against_impl": replayed,
            "helper_calls_replayed": steps, "struct_configurations": len(structs), "templates": len(templates),
            "mode_pairs_compared": pairs, "samples": sample}
