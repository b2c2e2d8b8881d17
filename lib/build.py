"""C12, C13: behaviours of FxBuild (TLC) replayed into generated structs with a struct builder."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from fx import Fld, Struct, WithBuilder, PRELUDE, CONSTS
from seq import make_crate, build_crate, MODES

LIB = PRELUDE + r'''
use fieldx::error::FieldXError;
#[derive(Debug)] pub enum BE { Fx(String), Uninit(String), P }
impl From<FieldXError> for BE { fn from(e: FieldXError) -> Self { match e { FieldXError::UninitializedField(n) => BE::Fx(n), _ => BE::P } } }
thread_local! { static NAMES: StdRefCell<Vec<&'static str>> = StdRefCell::new(vec![]); }
pub fn set_names(n: &[&'static str]) { NAMES.with(|x| *x.borrow_mut() = n.to_vec()) }
fn ix(n: &str) -> String {
    let n = n.strip_prefix("r#").unwrap_or(n);
    NAMES.with(|x| x.borrow().iter().position(|x| *x == n).map_or_else(|| format!("?{n}"), |i| (i + 1).to_string()))
}
pub trait BErr { fn res(&self) -> String; }
impl BErr for FieldXError { fn res(&self) -> String { match self { FieldXError::UninitializedField(n) => format!("m{}", ix(n)), _ => "?".into() } } }
impl BErr for BE { fn res(&self) -> String { match self { BE::Fx(n) => format!("c{}", ix(n)), BE::Uninit(n) => format!("w{}", ix(n)), BE::P => "x".into() } } }
thread_local! { static PB: StdRefCell<(Vec<String>, bool)> = StdRefCell::new((vec![], false)); }
pub fn pb_note(s: String) { PB.with(|p| p.borrow_mut().0.push(s)) }
pub fn pb_plan(x: bool) -> String { PB.with(|p| p.borrow_mut().1 = x); "u".into() }
pub fn pb_fails() -> bool { PB.with(|p| p.borrow().1) }
pub fn pb_reset() { PB.with(|p| *p.borrow_mut() = (vec![], false)) }
pub fn pb_seen() -> String { PB.with(|p| p.borrow().0.join("+")) }
'''


class BFld(Fld):
    def __init__(self, *a, fb="unset", req="unset", named=False, binto=False, **kw):
        Fld.__init__(self, *a, **kw)
        self.fb, self.req, self.named, self.binto = fb, req, named, binto

    def abstract(self):
        return {"k": self.kind, "def": -1 if self.dflt is None else self.dflt, "tdef": {"Cp": 4}.get(self.ty, 0),
                "fb": self.fb, "req": self.req}

    def decl(self):
        if self.kind == "skip":
            return self.text(["skip"] + (["default(%s)" % self.default_src()] if self.dflt is not None else []))
        a = self.args()
        if self.fb == "off":
            a.append("builder(off)")
        elif self.fb == "on":
            b = []
            if self.named:
                b.append('"put_%s"' % self.base)
            if self.binto:
                b.append("into")
            if self.req == "on":
                b.append("required")
            elif self.req == "off":
                b.append("required(off)")
            a.append("builder(%s)" % ", ".join(b) if b else "builder")
        return self.text(a)

    def needs_into(self):
        return self.into or self.binto or self.st.sinto

    def setter(self):
        if self.named:
            return "put_" + self.base
        return self.st.prefix + self.mname() if self.st.prefix else self.acc()

    def given(self, v):
        into = self.binto or self.st.sinto
        return "Src(%d)" % v if into else "mk::<%s>(%d)" % (self.ty, v)

    def look(self, after):
        """what is in the field; after: a lazy field is asked for its value too"""
        if self.kind == "skip":
            return "rv(&o.%s)" % self.n
        if self.kind == "lazy":
            if self.st.rc and self.locked and not after:
                # the accessors of a reference-counted struct need the reference, which is not there yet
                return "{ let mut w = %s; let v = w.clear(); let r = ro(v.as_ref()); if let Some(v) = v { w.store(v); } r }" % self.wrap("o.write_%s()" % self.mname())
            g = self.op("get", 0, True)
            return "if %s == \"t\" { %s } else { %s }" % (self.op("has", 0, True), g, 'format!("b{}", %s)' % g if after else '"n".to_string()')
        return self.op("get", 0, True)


class BStruct(Struct, WithBuilder):
    def __init__(self, cid, mode, fields, sb, sreq, pb, errk, rc, prefix, sinto, pbname, attrs=()):
        Struct.__init__(self, cid, mode, fields, [], attrs)
        self.sb, self.sreq, self.pb, self.errk, self.rc, self.prefix, self.sinto, self.pbname = sb, sreq, pb, errk, rc, prefix, sinto, pbname
        self.pbf = len(fields) if pb != "none" else 0

    def template(self):
        return {"sb": self.sb, "sreq": self.sreq, "pb": self.pb, "pbf": self.pbf, "fields": [f.abstract() for f in self.fields]}

    def attr(self):
        a = {"plain": [], "sync": ["sync"], "async": ["r#async"]}[self.mode] + list(self.attrs)
        if self.rc:
            a.append("rc")
        if self.sb != "field":
            b = []
            if self.prefix:
                b.append('"%s"' % self.prefix)
            if self.sb == "optin":
                b.append("opt_in")
            if self.sreq:
                b.append("required")
            if self.sinto:
                b.append("into")
            if self.errk == "from":
                b.append("error(BE)")
            elif self.errk == "variant":
                b.append("error(BE, BE::Uninit)")
            if self.pb != "none":
                b.append("post_build" + ("(%s)" % self.pbname if self.pbname else ""))
            a.append("builder(%s)" % ", ".join(b) if b else "builder")
        return "#[fxstruct(%s)]" % ", ".join(a + self.up)

    def rust(self, full):
        h, im = self.head()
        out = self.wrap([self.attr()] + h)
        out += [im] + [b for b in (f.builder_fn() for f in self.fields) if b]
        out.append("    fn look(o: &Self, after: bool) -> String { let mut v: Vec<String> = vec![];")
        for f in self.fields:
            out.append("        v.push(if after { %s } else { %s });" % (f.look(True), f.look(False)))
        out.append("        v.join(\",\") }")
        if self.pb != "none":
            f = self.fields[self.pbf - 1]
            if f.kind == "skip":
                chg = "this.%s = mk(90);" % f.n
            else:
                chg = "{ let o = &mut this; %s; }" % f.op("set", 90, True)
            if self.errk != "none":
                out.append("    fn %s(self) -> Result<Self, BE> { let mut this = self; pb_note(Self::look(&this, false)); if pb_fails() { return Err(BE::P); } %s Ok(this) }"
                           % (self.pbname or "post_build", chg))
            else:
                out.append("    fn %s(self) -> Self { let mut this = self; pb_note(Self::look(&this, false)); %s this }" % (self.pbname or "post_build", chg))
        out.append("}")
        ty = self.id
        rct = {"plain": "std::rc::Rc", "sync": "std::sync::Arc", "async": "std::sync::Arc"}[self.mode]
        objty = "%s<%s>" % (rct, ty) if self.rc else ty
        errty = "BE" if self.errk != "none" else "fieldx::error::FieldXError"
        out.append("fn run_%s(k: usize, ops: &[usize], done: &mut dyn FnMut(usize, String) -> bool) {" % self.id)
        out.append("    set_names(&[%s]);" % ", ".join('"%s"' % f.base for f in self.fields))
        out.append("    pb_reset();\n    let mut b = Some(%s::builder());" % self.id)
        out.append("    for (i, op) in ops.iter().enumerate() {\n        let r = guarded(|| match op {")
        for f in self.fields:
            if self.has_setter(f):
                for v in (6, 7):
                    out.append("            %d => { b = Some(b.take().unwrap().%s(%s)); \"u\".to_string() }" % (10 * f.f + v, f.setter(), f.given(v)))
        out.append("            1 => pb_plan(true),")
        shown = "format!(\"o{}|{}\", %s::look(&obj, true), pb_seen())" % self.id if full else '"o".to_string()'
        failed = 'format!("{}|{}", e.res(), pb_seen())' if full else "e.res()"
        out.append("            2 => { let res: Result<%s, %s> = b.as_mut().unwrap().build(); match res { Ok(obj) => %s, Err(e) => %s } }" % (objty, errty, shown, failed))
        out.append("            _ => unreachable!(),\n        });\n        if !done(i, r) { return; }\n    }\n}")
        return "\n".join(out)

    def has_setter(self, f):
        # The model says so (see Lts); this is only used to write code that compiles.
        return f.kind != "skip" and (f.fb == "on" or (f.fb == "unset" and self.sb == "all"))

    def expect(self, res, rf, obj, seen, full):
        def val(i, v):
            f = self.fields[i]
            return "v%d" % v if v >= 0 else "n"
        s = "+".join(",".join(val(i, v) for i, v in enumerate(x)) for x in seen)
        if res == "u":
            return "u/"
        if res == "missing":
            r = {"none": "m", "from": "c", "variant": "w"}[self.errk] + str(rf)
            return (r + "|" if full else r) + "/"
        if res == "failed":
            return ("x|" + s if full else "x") + "/"
        if not full:
            return "o/"
        log, vs = [], []
        for i, v in enumerate(obj):
            f = self.fields[i]
            if f.kind == "lazy" and v < 0:
                log.append(str(f.f))
                vs.append("bv%d" % (10 * f.f))
            else:
                vs.append(val(i, v))
        return "o%s|%s/%s" % (",".join(vs), s, "+".join(log))


def suite(rnd, rounds):
    out = []
    tys = {"lazy": ["i32", "String", "Nc", "Cl"], "opt": ["i32", "String", "Nc", "Cp"], "cell": ["i32", "Cp", "Nc", "String"]}
    k = 0
    for rd in range(rounds):
        for mode in MODES:
            for sb, sreq in (("all", False), ("all", True), ("optin", False), ("optin", True), ("field", False)):
                fields = []
                for kind in ("lazy", "opt", "cell"):
                    for dflt in (None, 5):
                        for fb, req in (("unset", "unset"), ("off", "unset"), ("on", "unset"), ("on", "on"), ("on", "off")):
                            fields.append((kind, dflt, fb, req))
                rnd.shuffle(fields)
                while fields:
                    mine, fields = fields[:3], fields[3:]
                    if not any(x[2] == "on" for x in mine) and sb == "field":
                        mine.append(("cell", None, "on", "unset"))
                    sinto = sb != "field" and rnd.random() < 0.2
                    fs = []
                    for kind, dflt, fb, req in mine:
                        ty = rnd.choice(tys[kind][1:] if sinto else tys[kind])
                        get = "ref"
                        if ty == "i32" and rnd.random() < 0.4:
                            get = "copy"
                        inner = mode == "plain" and kind != "lazy" and rnd.random() < 0.3
                        lock = mode == "plain" or kind == "lazy" or rnd.random() < 0.6
                        fs.append(BFld(kind, ty, get, kind == "lazy" and rnd.random() < 0.4, dflt, inner=inner, lock=lock, fb=fb, req=req,
                                       named=fb == "on" and rnd.random() < 0.3, binto=fb == "on" and ty != "i32" and rnd.random() < 0.4,
                                       spell=0 if inner else rnd.randrange(8) & ~2))
                    if rnd.random() < 0.25:
                        fs.insert(rnd.randrange(len(fs) + 1), BFld("skip", rnd.choice(["i32", "Cp"]), "ref", False, rnd.choice([None, 5])))
                    pb, errk, pbname = "none", "none", ""
                    if sb != "field":
                        pb, errk = [("none", "none"), ("plain", "none"), ("fallible", "from"), ("fallible", "variant"), ("none", "from"),
                                    ("none", "variant")][k % 6]
                        pbname = "" if k % 4 < 2 else "finish_it"
                    out.append(BStruct("B%d" % k, mode, fs, sb, sreq, pb, errk, rnd.random() < 0.25, "with_" if sb != "field" and k % 5 == 0 else "",
                                       sinto, pbname))
                    out[-1].decorate(rnd, setter=out[-1].has_setter)
                    k += 1
    return out


class Lts:
    def __init__(self, templates):
        f = path("templates.json")
        json.dump(templates, open(f, "w"))
        r = tlc("FxBuild.tla", "FxBuild.cfg", env={"TEMPLATES": f}, mem="4g", workers=4)
        if not r.ok:
            raise ToolError("TLC on FxBuild: " + r.out[-3000:])
        self.generated, self.distinct = r.generated, r.distinct
        self.init, self.next, self.setters = {}, {}, {}
        self.transitions = 0
        for line in r.out.splitlines():
            if line.startswith('"[\\"T\\"'):
                _, t, bl, plan, o, f, v, res, rf, obj, seen, bl2, plan2, ph2 = json.loads(json.loads(line))
                s, s2 = (t, tuple(bl), plan), (t, tuple(bl2), plan2)
                op = {"give": 10 * f + v, "plan": 1, "build": 2}[o]
                self.next.setdefault(s, {})[op] = ((res, rf, tuple(obj), tuple(map(tuple, seen))), s2 if ph2 == "filling" else None)
                self.transitions += 1
            elif line.startswith('"[\\"I\\"'):
                _, t, has = json.loads(json.loads(line))
                self.init[t] = (t, (-1,) * len(has), "ok")
                self.setters[t] = has
        if not self.init or not self.transitions:
            raise ToolError("no behaviours in TLC's output: " + r.out[-2000:])


def paths(lts, start, rnd, depth, nrandom, length):
    out = []

    def rec(s, p, d):
        if s is None or d == 0:
            out.append(p)
            return
        for o, (r, s2) in sorted(lts.next[s].items()):
            rec(s2, p + [(o, r)], d - 1)
    while depth > 2 and len(lts.next[start]) ** depth > 600:
        depth -= 1
    rec(start, [], depth)
    # every transition once, followed by build()
    seen, queue = {start: []}, [start]
    while queue:
        s = queue.pop(0)
        for o, (r, s2) in sorted(lts.next[s].items()):
            p = seen[s] + [(o, r)]
            if s2 is not None:
                r2, _ = lts.next[s2][2]
                out.append(p + [(2, r2)])
                if s2 not in seen:
                    seen[s2] = p
                    queue.append(s2)
            else:
                out.append(p)
    for _ in range(nrandom):
        s, p = start, []
        while s is not None and len(p) < length:
            # building early ends it all
            ops = [o for o in sorted(lts.next[s]) if o != 2 or rnd.random() < 0.4 or lts.next[s][2][0][0] == "missing"] or [2]
            o = rnd.choice(ops)
            r, s2 = lts.next[s][o]
            p.append((o, r))
            s = s2
        out.append(p)
    return out


def run(prop):
    check = Check(prop, "model_checking")
    rnd = random.Random(SEED * 7 + (prop == "C13"))
    check.cov.update(replay(check, prop, rnd, suite(rnd, 5 if QUICK else 8), prop == "C13"))
    check.assumptions = ["the abstraction of declarations to FxBuild templates (lib/build.py) is right",
                         "nothing is claimed about a builder after build() made an object or its post-build method failed"]
    return check.finish()


def replay(check, prop, rnd, structs, full, name="buildcrate", features=("sync", "async")):
    """FxBuild's behaviours replayed into the code; returns what that covered"""
    templates, index = [], {}
    for s in structs:
        key = json.dumps(s.template(), sort_keys=True)
        if key not in index:
            index[key] = len(templates)
            templates.append(s.template())
        s.t = index[key] + 1
    nb = 6 if QUICK else 24
    bins = {}
    for b in range(nb):
        mine = structs[b::nb]
        src = ["#![allow(warnings)]", "use fieldx::fxstruct;", "use seq::*;", CONSTS]
        src += [s.rust(full) for s in mine]
        src.append("fn main() { drive(&std::env::args().nth(1).unwrap(), &[%s]); }" % ", ".join(s.entry(int(s.id[1:])) for s in mine))
        bins["b%d" % b] = "\n".join(src)
    for s in structs:
        s.group = int(s.id[1:])
    root = make_crate(name, LIB, bins, features)
    with ThreadPoolExecutor(2) as ex:
        fut = ex.submit(Lts, templates)
        built = build_crate(check, root, prop)
        lts = fut.result()
    note("built; LTS: %d states, %d transitions" % (lts.distinct, lts.transitions))
    cache = {}
    kinds = {}
    sample = []
    for s in structs:
        if s.t not in cache:
            cache[s.t] = paths(lts, lts.init[s.t], rnd, 4 if QUICK else 6, 40 if QUICK else 400, 14)
        assert lts.setters[s.t] == [s.has_setter(f) for f in s.fields]
        with open(path("paths", "g%d.txt" % s.group), "w") as o:
            for p in cache[s.t]:
                o.write("0;%s\n" % " ".join("%d:%s" % (op, s.expect(*r, full)) for op, r in p))
                for _, r in p:
                    kinds[r[0]] = kinds.get(r[0], 0) + 1
        if len(sample) < 3:
            sample.append({"template": s.template(), "behaviour": rnd.choice(cache[s.t])})
    replayed = steps = 0
    if built:
        by_id = {s.id: s for s in structs}
        with ThreadPoolExecutor(CORES) as ex:
            for b, p in zip(bins, ex.map(lambda b: subprocess.run(
                    [path("target", "debug", b), os.path.dirname(path("paths", "x"))], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    text=True, timeout=800), bins)):
                if p.returncode != 0:
                    check.violate("crash", "replay process died with %s: %s" % (p.returncode, p.stderr[-500:]), {"bin": b})
                for line in p.stdout.splitlines():
                    d = json.loads(line)
                    if "bad" in d and isinstance(d["bad"], str):
                        s = by_id[d["bad"]]
                        i = next((j for j, (x, y) in enumerate(zip(d["expected"], d["got"])) if x != y), len(d["got"]) - 1)
                        ops = ["build()" if o == 2 else "plan a failing post_build" if o == 1 else "%s(%d)" % (s.fields[o // 10 - 1].setter(), o % 10) for o in d["ops"]]
                        check.violate("replay", "%s %s: after %s, %s gave %s, FxBuild says %s" % (
                            s.attr(), " ".join(" ".join(f.decl().split()) for f in s.fields), ops[:i], ops[i], d["got"][i], d["expected"][i]),
                            {"struct": s.rust(full), "calls": ops, "expected": d["expected"], "got": d["got"]})
                    else:
                        replayed += d["paths"]
                        steps += d["steps"]
    return {"states": lts.distinct, "transitions": lts.transitions, "traces_validated_against_impl": replayed,
            "builder_calls_replayed": steps, "struct_configurations": len(structs), "templates": len(templates),
            "results_expected": kinds, "samples": sample}
