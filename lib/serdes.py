"""C16, C17: behaviours of FxSerde (TLC) replayed into generated structs with serde support."""
import itertools, json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from fx import Fld, Struct, MAKERS, PRELUDE, CONSTS
from seq import make_crate, build_crate

ABSENT, NULL, BAD, UNKNOWN, TYPEDEF = -3, -4, -5, -1, -2

LIB = PRELUDE + r'''
use serde::{Serialize, Serializer, Deserialize, Deserializer};
macro_rules! num { ($($t:ident)*) => { $(
    impl Serialize for $t { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_i64(self.0) } }
    impl<'de> Deserialize<'de> for $t { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { i64::deserialize(d).map($t) } }
)* } }
num!(Cl Cp);
/// keys and values of a JSON object, each as often as it is there
pub struct Pairs(pub Vec<(String, serde_json::Value)>);
impl<'de> Deserialize<'de> for Pairs {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Pairs;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("an object") }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Pairs, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? { v.push(e); }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(V)
    }
}
pub fn show(json: &str) -> String {
    let Ok(mut p) = serde_json::from_str::<Pairs>(json) else { return "not-an-object".into() };
    p.0.sort_by(|a, b| a.0.cmp(&b.0));
    p.0.iter().map(|(k, v)| {
        let v = match v {
            serde_json::Value::Null => "n".to_string(),
            serde_json::Value::Number(n) => format!("v{n}"),
            serde_json::Value::String(s) => if s.is_empty() { "v0".into() } else { format!("v{s}") },
            // a list or a pair, and an empty one
            serde_json::Value::Array(a) if a.is_empty() || a.len() == 2 && a[0] == 0 && a[1] == "" => "v0".into(),
            serde_json::Value::Array(a) if a.len() == 2 && (a[0] == a[1] || a[1] == a[0].to_string()) => format!("v{}", a[0]),
            serde_json::Value::Array(a) if a.len() == 3 && a[0] == a[2] => format!("v{}", a[1]),
            x => format!("?{x}").replace([' ', ',', '|', '/'], "_"),
        };
        format!("{k}={v}")
    }).collect::<Vec<_>>().join(",")
}
pub fn blog() -> String {
    ENV.with(|e| { let mut l = std::mem::take(&mut e.borrow_mut().log); l.sort(); l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+") })
}
pub fn docs(id: &str) -> Vec<String> {
    std::fs::read_to_string(format!("{}/d{}.txt", std::env::args().nth(1).unwrap(), id)).unwrap().lines().map(|x| x.to_string()).collect()
}
'''


class SFld(Fld):
    """sw: how serialization is switched: both, ser, de, off; swform: spelling; fd: serde default: None, TYPEDEF or a value"""

    def __init__(self, *a, sw="both", swform=0, fd=None, fdform=0, jname=None, rename=None, gen=False, nulldef=False, **kw):
        Fld.__init__(self, *a, **kw)
        self.sw, self.swform, self.fd, self.fdform, self.jname, self.rename, self.gen, self.nulldef = sw, swform, fd, fdform, jname, rename, gen, nulldef

    def bind(self, st, i):
        Fld.bind(self, st, i)
        if self.rename:
            self.mn = self.rename
        return self

    @property
    def key(self):
        return self.jname or self.rename or self.base

    def md(self):
        return 2

    def abstract(self):
        a = Fld.abstract(self)
        return {"k": a["k"], "def": a["def"], "tdef": a["tdef"], "ser": self.sw in ("both", "ser"), "de": self.sw in ("both", "de"),
                "fd": -1 if self.fd is None else self.fd, "ren": self.key != self.base, "nulldef": self.nulldef}

    def value_src(self, v):
        if self.ty in ("i64", "u16"):
            return "%d" % v
        if self.ty in MAKERS:
            return "%s(%d)" % (MAKERS[self.ty], v)
        return {"i32": "%d" % v, "String": '"%d".to_string()' % v}.get(self.ty, "D%s%d" % (self.ty.upper(), v))

    def decl(self):
        a = self.args()
        if self.rename:
            a.append('rename("%s")' % self.rename)
        s = []
        if self.jname:
            s.append('"%s"' % self.jname)
        if self.sw == "off":
            s.append("off" if self.swform % 2 == 0 and not s else "serialize(off), deserialize(off)")
        elif self.sw == "ser":
            s.append("deserialize(off)" + (", serialize" if self.swform % 2 else ""))
        elif self.sw == "de":
            s.append("serialize(off)" + (", deserialize" if self.swform % 2 else ""))
        if self.fd == TYPEDEF:
            s.append("default")
        elif self.fd is not None:
            fn = "%s::sd_%s" % (self.st.id, self.base)
            if self.fdform == 1 and not self.st.generic and self.kind == "cell":
                s.append('default("%s")' % fn)
            elif self.fdform == 2 and not self.st.generic:
                s.append("default(Self::sdv_%s())" % self.base)
            else:
                s.append("default(%s)" % self.value_src(self.fd) if self.ty != "String" else "default(%s)" % ('mk_string(%d)' % self.fd))
        if s or self.swform & 2:
            a.append("serde(%s)" % ", ".join(s) if s else "serde")
        return self.text(a)

    def dty(self):
        return "X" if self.gen else self.ty

    def look(self):
        if self.kind == "lazy":
            return "if %s == \"t\" { %s } else { \"n\".to_string() }" % (self.op("has", 0), self.op("get", 0))
        return self.op("get", 0)

    def js(self, v):
        form = {"String": '"%d"', "Vec<i64>": "[%d,%d]", "(i64, String)": '[%d,"%d"]', "[i64; 3]": "[%d,%d,%d]"}.get(self.ty, "%d")
        return {NULL: "null", BAD: '{"bad":1}'}.get(v) or form % ((v,) * form.count("%d"))


class SStruct(Struct):
    def __init__(self, cid, mode, fields, ser=True, de=True, sdef="none", sform=0, attrs=(), probe=False):
        self.generic = any(f.gen for f in fields)
        Struct.__init__(self, cid, mode, fields, [([None] * len(fields), "new")], attrs)
        self.ser, self.de, self.sdef, self.sform, self.probe = ser, de, sdef, sform, probe

    def sval(self):
        return [20 + f.f for f in self.fields]

    def template(self):
        return {"ser": self.ser, "de": self.de, "sdef": self.sdef, "sval": self.sval(), "fields": [f.abstract() for f in self.fields]}

    def attr(self):
        a = {"plain": [], "sync": ["sync"], "async": ["r#async"]}[self.mode] + list(self.attrs)
        s = []
        if self.sform & 1:
            s.append('"Sh%s"' % self.id)
        if not self.ser:
            s.append("serialize(off)")
        if not self.de:
            s.append("deserialize(off)")
        if self.sdef == "bare":
            s.append("default")
        elif self.sdef == "fn":
            s.append('default("Self::sdef")' if self.sform & 2 and not self.generic else "default(Self::sdef())")
            a.append("builder")
        a.append("serde(%s)" % ", ".join(s) if s else "serde")
        return "#[fxstruct(%s)]" % ", ".join(a + self.up)

    def noise_field(self, rnd, i, builder, lt=False):
        builder = self.sdef == "fn"
        return Struct.noise_field(self, rnd, i, builder).replace("Nc,", "Cl,").replace(")]", ", serde(off))]" if rnd.random() < 0.5 else ", serde(serialize(off), deserialize(off)))]")

    def docs(self):
        n = len(self.fields)
        out = []
        for d in itertools.product([ABSENT, 2, NULL, BAD], repeat=n):
            if sum(x in (NULL, BAD) for x in d) <= 1:
                for y in [0, UNKNOWN] + [f.f for f in self.fields if f.key != f.base]:
                    out.append((d, y))
        return out

    def json(self, d, y, rot):
        ps = ['"%s":%s' % (f.key, f.js(v)) for f, v in zip(self.fields, d) if v != ABSENT]
        if y == UNKNOWN:
            ps.append('"zz_unknown":7')
        elif y:
            ps.append('"%s":%s' % (self.fields[y - 1].base, self.fields[y - 1].js(7)))
        rot %= max(1, len(ps))
        return "{%s}" % ",".join(ps[rot:] + ps[:rot])

    def rust(self):
        g, gi = ("<X: Clone + Default>", "<X>") if self.generic else ("", "")
        conc = self.id + ("<i32>" if self.generic else "")
        out = [self.attr()]
        if self.ser:
            out.append("#[derive(Clone)]")
        out = self.wrap(out + ["pub struct %s%s {" % (self.id, g)] + self.members() + ["}"])
        out += ["impl%s %s%s { %s" % (g, self.id, gi, self.own())]
        for f in self.fields:
            if f.kind == "lazy":
                ret, body = ("Result<%s, E>" % f.ty, "Ok(mk(%d + bsi(%d)))") if f.fall else (f.ty, "mk(%d + bsi(%d))")
                out.append("    %sfn build_%s(&self) -> %s { %s }" % ("async " if f.isasync else "", f.mname(), ret, body % (10 * f.f, f.f)))
            if f.fd not in (None, TYPEDEF):
                out.append("    pub fn sd_%s() -> %s { mk(%d) }\n    pub fn sdv_%s() -> %s { mk(%d) }" % (f.base, f.ty, f.fd, f.base, f.ty, f.fd))
        if self.sdef == "fn":
            sh = "%s%s" % ("Sh%s" % self.id if self.sform & 1 else "__%sShadow" % self.id, gi)
            if self.sform & 4 or self.generic or not self.ser:
                vs = []
                for f, v in zip(self.fields, self.sval()):
                    if f.sw == "off":
                        continue
                    x = "mk::<%s>(%d)" % (f.ty, v)
                    vs.append("%s: %s" % (f.n, "Default::default()" if f.gen else "Some(%s)" % x if f.kind in ("lazy", "opt") else x))
                out.append("    fn sdef() -> %s { %s { %s } }" % (sh, sh.split("<")[0], ", ".join(vs)))
            else:
                out.append("    fn sdef() -> Self { Self::builder()%s.build().unwrap() }" % "".join(".%s(mk(%d))" % (f.acc(), v) for f, v in zip(self.fields, self.sval())))
        out.append("}")
        look = ["fn look_%s(obj: &mut %s) -> String { let mut v: Vec<String> = vec![];" % (self.id, conc)]
        for f in self.fields:
            look.append("        { let o = &mut *obj; v.push(%s); }" % f.look())
        out += look + ["        v.join(\",\") }"]
        out.append("fn run_%s(k: usize, ops: &[usize], done: &mut dyn FnMut(usize, String) -> bool) {" % self.id)
        out.append("    let mut obj = <%s as Default>::default();" % conc)
        out.append("    thread_local! { static DOCS: Vec<String> = docs(\"%s\"); }" % self.id)
        out.append("    for (i, op) in ops.iter().enumerate() {\n        let r = guarded(|| match op {")
        for f in self.fields:
            bind = "let o = %s;" % ("&obj" if f.shared else "&mut obj")
            out.append("            %d => { %s let _ = %s; \"u\".to_string() }" % (10 * f.f, bind, f.op("set", 1)))
            if f.kind != "cell":
                out.append("            %d => { %s let _ = %s; \"u\".to_string() }" % (10 * f.f + 1, bind, f.op("clr", 0)))
            out.append("            %d => { %s %s }" % (10 * f.f + 2, bind, f.op("get", 0)))
        ser = 'let s = serde_json::to_string(&obj).unwrap();'
        if self.ser:
            out.append('            1 => { %s let b = blog(); format!("{}|{}|{}", show(&s), look_%s(&mut obj), b) }' % (ser, self.id))
        if self.ser and self.de:
            out.append('            2 => { %s let b = blog(); match serde_json::from_str::<%s>(&s) { Ok(x) => { obj = x; let c = blog(); format!("ok|{}|{b}{c}", look_%s(&mut obj)) } Err(_) => "err".into() } }' % (ser, conc, self.id))
        if self.de:
            out.append('            n if *n >= 1000 => { let r: Result<%s, _> = DOCS.with(|d| serde_json::from_str(&d[n - 1000])); match r { Ok(x) => { obj = x; let c = blog(); format!("ok|{}|{c}", look_%s(&mut obj)) } Err(_) => "err".into() } }' % (conc, self.id))
        out.append("            _ => unreachable!(),\n        });\n        if !done(i, r) { return; }\n    }\n}")
        return "\n".join(out)

    # what FxSerde says, as the harness writes it
    def vals(self, v):
        return ",".join("v%d" % x if x >= 0 else "n" for x in v)

    def expect(self, tr):
        o, f, d, res, v2, built, v, v1 = tr
        b = "+".join(str(i + 1) for i, x in enumerate(built) if x)
        if o in ("set", "clr"):
            return "u/"
        if o == "get":
            return ("v%d" % v if v >= 0 else "n") + "/" + b
        if o == "ser":
            ps = sorted("%s=%s" % (f.key, "n" if x == NULL else "v%d" % x) for f, x in zip(self.fields, d) if x != ABSENT)
            return "%s|%s|%s/" % (",".join(ps), self.vals(v1), b)
        if res == "err":
            return "err/"
        return "ok|%s|%s/" % (self.vals(v2), b)


CODE = {"ser": 1, "rt": 2}


class Lts:
    def __init__(self, templates):
        f = path("templates.json")
        json.dump(templates, open(f, "w"))
        r = tlc("FxSerde.tla", "FxSerde.cfg", env={"TEMPLATES": f}, mem="6g", workers=6, timeout=800)
        if not r.ok:
            raise ToolError("TLC on FxSerde: " + r.out[-3000:])
        self.generated, self.distinct = r.generated, r.distinct
        self.init, self.next, self.de = {}, {}, {}
        self.transitions = 0
        for line in r.out.splitlines():
            if line.startswith('"[\\"T\\"'):
                _, t, v, n, o, f, d, res, v2, n2, built, x = json.loads(json.loads(line))
                s, s2 = (t, tuple(v), tuple(n)), (t, tuple(v2), tuple(n2))
                op = CODE.get(o) or 10 * f + {"set": 0, "clr": 1, "get": 2}[o]
                self.next.setdefault(s, {})[op] = ((o, f, d, res, v2, built, x, v), s2)
                self.transitions += 1
            elif line.startswith('"[\\"I\\"'):
                _, t, v = json.loads(json.loads(line))
                self.init[t] = (t, tuple(v), (0,) * len(v))
            elif line.startswith('"[\\"D\\"'):
                _, t, d, y, res, v2 = json.loads(json.loads(line))
                self.de.setdefault(t, {})[(tuple(d), y)] = (res, tuple(v2))
        if not self.init or not self.transitions:
            raise ToolError("no behaviours in TLC's output: " + r.out[-2000:])

    def step(self, s, op, docs):
        if op < 1000:
            return self.next[s][op]
        t, v, n = s
        res, v2 = self.de[t][docs[op - 1000]]
        if res == "err":
            return ("de", 0, None, "err", v, [], 0, v), s
        return ("de", 0, None, "ok", v2, [False] * len(v), 0, v), (t, v2, n)


def paths(lts, start, docs, usedocs, rnd, depth, nrandom, length):
    dops = [1000 + i for i, d in enumerate(docs) if usedocs and d in lts.de.get(start[0], {})]
    ops = lambda s: sorted(lts.next.get(s, {}))
    out = []

    def rec(s, p, d):
        if d == 0:
            out.append(p)
            return
        for o in ops(s):
            tr, s2 = lts.step(s, o, docs)
            rec(s2, p + [(o, tr)], d - 1)
    while depth > 2 and len(ops(start)) ** depth > 800:
        depth -= 1
    if ops(start):
        rec(start, [], depth)
    # every document, and what the object does then
    for o in dops:
        s, p = start, []
        for x in [o] + [rnd.choice(ops(start) or [o]) for _ in range(4)] + [rnd.choice(dops)] + [1 if 1 in lts.next.get(start, {}) else o]:
            if x >= 1000 or x in lts.next.get(s, {}):
                tr, s2 = lts.step(s, x, docs)
                p.append((x, tr))
                s = s2
        out.append(p)
    for _ in range(nrandom):
        s, p = start, []
        while len(p) < length:
            n = ops(s)
            if dops and (not n or rnd.random() < 0.25):
                n = dops
            if 2 in n and rnd.random() < 0.15:
                n = [2]
            if 1 in n and rnd.random() < 0.15:
                n = [1]
            o = rnd.choice(n)
            tr, s2 = lts.step(s, o, docs)
            p.append((o, tr))
            s = s2
        out.append(p)
    return out


def unpromised(mode, kind, dflt, fd):
    # finding F8
    return mode == "plain" and kind == "opt" and dflt is not None


def field(rnd, mode, kind, dflt, switches, gen=False, ser=True):
    tys = {"lazy": ["i32", "String", "Cl"], "opt": ["i32", "String", "Cl", "Cp"], "cell": ["i32", "Cp", "String"]}
    ty = "i32" if gen else rnd.choice(tys[kind])
    inner = mode == "plain" and kind != "lazy" and rnd.random() < 0.3
    lock = mode == "plain" or kind == "lazy" or rnd.random() < 0.6
    if mode == "async":
        lock = kind != "opt" or rnd.random() < 0.5
    get = "ref"
    if ty == "i32" and rnd.random() < 0.3 and not gen:
        get = "copy"
    elif ty == "Cl" and rnd.random() < 0.3:
        get = "clone"
    kw = dict(inner=inner, lock=lock, gen=gen, spell=0 if inner else rnd.choice([0, 1, 4, 5]))
    if switches:
        kw.update(switches)
    # (what a fallible builder gives on success is all that matters here: see C06 for failures)
    return SFld(kind, ty, get, kind == "lazy" and rnd.random() < 0.3, dflt, **kw)


def suite(prop, rnd, rounds):
    out = []
    combos = [(k, d) for k in ("lazy", "opt", "cell") for d in (None, 5)]

    def add(mode, fs, **kw):
        out.append(SStruct("S%d" % len(out), mode, fs, **kw).decorate(rnd, gens=False))
    for _ in range(rounds):
        if prop == "C16":
            for mode in ("plain", "sync"):
                # every pair of kinds, spellings and types at random
                pairs = [(a, b) for a in combos for b in combos if not any(unpromised(mode, *x, None) for x in (a, b))]
                for a, b in pairs:
                    fs = []
                    for j, (k, d) in enumerate((a, b)):
                        r = rnd.random()
                        sw = {}
                        if r < 0.2:
                            sw["jname"] = "j%d" % j
                        elif r < 0.4:
                            sw["rename"] = "r%d" % j
                        elif r < 0.5:
                            sw["rename"], sw["jname"] = "r%d" % j, ["self", "while"][j]
                        if rnd.random() < 0.15:
                            sw["fd"], sw["fdform"] = rnd.choice([TYPEDEF, 8]), rnd.randrange(3)
                        if rnd.random() < 0.2:
                            sw["swform"] = 2
                        elif rnd.random() < 0.15:
                            sw["sw"], sw["swform"] = rnd.choice(["ser", "ser", "de"]), rnd.randrange(4)
                        fs.append(field(rnd, mode, k, d, sw, gen=d is None and k == "cell" and rnd.random() < 0.5 and "fd" not in sw))
                    sdef = rnd.choice(["none", "none", "bare", "fn"])
                    if sdef == "fn" and any(f.gen for f in fs):
                        sdef = "bare"
                    add(mode, fs, sdef=sdef, sform=rnd.randrange(8))
            for mode in ("plain", "sync"):
                for _ in range(4):
                    pool = [c for c in combos if not unpromised(mode, *c, None)]
                    add(mode, [field(rnd, mode, *rnd.choice(pool), {}) for _ in range(3)])
            for inner in (False, True):
                # finding F8: the code's own rule, and the property's
                for probe in (False, True):
                    add("plain", [SFld("opt", "i32", "ref", False, 5, inner=inner, nulldef=not probe)], probe=probe)
        else:
            for mode in ("plain", "sync", "async"):
                for ser, de in ((True, True), (True, False), (False, True)):
                    if mode == "async" and ser:
                        continue
                    for sw in ("both", "ser", "de", "off"):
                        for (k, d) in combos:
                            if unpromised(mode, k, d, None):
                                continue
                            if not (ser and de) and rnd.random() < 0.6 and mode != "async":
                                continue
                            s1 = {"sw": sw, "swform": rnd.randrange(4)}
                            if rnd.random() < 0.5:
                                s1["fd"], s1["fdform"] = rnd.choice([TYPEDEF, 8, 8]), rnd.randrange(3)
                            r = rnd.random()
                            if r < 0.25:
                                s1["jname"] = "j0"
                            elif r < 0.45:
                                s1["rename"] = "r0"
                            elif r < 0.6:
                                s1["rename"], s1["jname"] = "r0", "self"
                            pool = [c for c in combos if not unpromised(mode, *c, None)]
                            fs = [field(rnd, mode, k, d, s1)]
                            fs.insert(rnd.randrange(2), field(rnd, mode, *rnd.choice(pool), {"fd": rnd.choice([None, None, 9])}))
                            sdef = rnd.choice(["none", "none", "bare", "fn"])
                            add(mode, fs, ser=ser, de=de, sdef=sdef if de else "none", sform=rnd.randrange(8))
    return out


def run(prop):
    check = Check(prop, "model_checking")
    rnd = random.Random(SEED * 11 + (prop == "C17"))
    check.cov.update(replay(check, prop, rnd, suite(prop, rnd, 8 if QUICK else 12)))
    check.assumptions = ["the data format is JSON (serde_json)", "the abstraction of declarations to FxSerde templates (lib/serdes.py) is right",
                         "async structs with lazy fields cannot be serialized (they are not Clone): only their deserialization is covered"]
    return check.finish()


def replay(check, prop, rnd, structs, name="serdecrate", features=("sync", "async", "serde")):
    """FxSerde's behaviours replayed into the code; returns what that covered"""
    templates, index = [], {}

    def tpl(t):
        key = json.dumps(t, sort_keys=True)
        if key not in index:
            index[key] = len(templates)
            templates.append(t)
        return index[key] + 1
    for i, s in enumerate(structs):
        s.t = tpl(s.template())
        s.group = i
        if s.probe:
            t = s.template()
            t["fields"] = [dict(f, nulldef=True) for f in t["fields"]]
            s.t_known = tpl(t)
    nb = 8
    bins = {}
    for b in range(nb):
        mine = structs[b::nb]
        src = ["#![allow(warnings)]", "use fieldx::fxstruct;", "use serde::{Serialize, Deserialize};", "use seq::*;", CONSTS,
               "pub const DCL9: Cl = Cl(9); pub const DCP9: Cp = Cp(9);"]
        src += [s.rust() for s in mine]
        src.append("fn main() { drive(&std::env::args().nth(1).unwrap(), &[%s]); }" % ", ".join(s.entry(s.group) for s in mine))
        bins["b%d" % b] = "\n".join(src)
    root = make_crate(name, LIB, bins, features)
    with ThreadPoolExecutor(2) as ex:
        fut = ex.submit(Lts, templates)
        built = build_crate(check, root, prop)
        lts = fut.result()
    note("built; LTS: %d states, %d transitions" % (lts.distinct, lts.transitions))
    kinds, sample = {}, []
    for s in structs:
        docs = s.docs()
        with open(path("paths", "d%s.txt" % s.id), "w") as o:
            for i, (d, y) in enumerate(docs):
                o.write(s.json(d, y, i) + "\n")
        ps = paths(lts, lts.init[s.t], docs, prop == "C17", rnd, 4 if QUICK else 5, 60 if QUICK else 1000, 12)
        if s.probe:
            ps = [p for p in ps if any(x[0] == 2 for x in p)][:200]
        s.docs_ = docs
        with open(path("paths", "g%d.txt" % s.group), "w") as o:
            for p in ps:
                o.write("0;%s\n" % " ".join("%d:%s" % (op, s.expect(tr)) for op, tr in p))
                for _, tr in p:
                    kinds[tr[0] + "/" + tr[3]] = kinds.get(tr[0] + "/" + tr[3], 0) + 1
        if len(sample) < 3:
            p = rnd.choice(ps)
            sample.append({"template": s.template(), "behaviour": [[op, s.expect(tr)] for op, tr in p]})
    replayed = steps = 0
    if built:
        by_id = {s.id: s for s in structs}
        with ThreadPoolExecutor(CORES) as ex:
            for b, p in zip(bins, ex.map(lambda b: subprocess.run(
                    [path("target", "debug", b), os.path.dirname(path("paths", "x"))], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    text=True, timeout=800), bins)):
                if p.returncode != 0:
                    check.violate("crash", "replay process died with %s: %s" % (p.returncode, p.stderr[-500:]), {"bin": b})
                for line in p.stdout.splitlines():
                    d = json.loads(line)
                    if "bad" in d and isinstance(d["bad"], str):
                        s = by_id[d["bad"]]
                        i = next((j for j, (x, y) in enumerate(zip(d["expected"], d["got"])) if x != y), len(d["got"]) - 1)
                        key = "replay"
                        if s.probe:
                            st, exp = lts.init[s.t_known], []
                            for op in d["ops"][:len(d["got"])]:
                                tr, st = lts.step(st, op, s.docs_)
                                exp.append(s.expect(tr))
                            if exp == d["got"]:
                                key = "plain-optional-default-null"

                        def name(o):
                            if o >= 1000:
                                return "deserialize(%s)" % s.json(*s.docs_[o - 1000], o - 1000)
                            return {1: "serialize()", 2: "round-trip()"}.get(o) or "%s_%s()" % (["set", "clear", "get"][o % 10], s.fields[o // 10 - 1].n)
                        ops = [name(o) for o in d["ops"]]
                        check.violate(key, "%s %s: after %s, %s gave %s, FxSerde says %s" % (
                            s.attr(), " ".join(" ".join(f.decl().split()) for f in s.fields), ops[:i], ops[i], d["got"][i], d["expected"][i]),
                            {"struct": s.rust(), "calls": ops, "expected": d["expected"], "got": d["got"]})
                    else:
                        replayed += d["paths"]
                        steps += d["steps"]
    return {"states": lts.distinct, "transitions": lts.transitions, "traces_validated_against_impl": replayed,
            "calls_replayed": steps, "struct_configurations": len(structs), "templates": len(templates),
            "results_expected": kinds, "samples": sample}
