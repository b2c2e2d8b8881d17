"""C18, C19, C20: declarations resolved by FxAttr (TLC) compared with what the generated structs turn out to have."""
import copy, json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from seq import make_crate, build_crate

KINDS = ("get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder")
METHODS = tuple(k for k in KINDS if k != "lazy")
NAMES = "abcdef"
PREFIX = {"clearer": "clear_", "lazy": "build_", "predicate": "has_", "reader": "read_", "set": "set_", "writer": "write_"}

LIB = r'''
#![allow(warnings)]
use std::future::Future;
use std::marker::PhantomData;
#[derive(Debug, Default, Clone, Copy, PartialEq)] pub struct Tv(pub i64);
#[derive(Debug, Default, Clone, PartialEq)] pub struct NoCopy(pub i64);
pub struct Src(pub i64);
impl From<Src> for Tv { fn from(s: Src) -> Self { Tv(s.0) } }
#[derive(Debug, Clone, PartialEq)] pub struct E;
pub struct Absent;
pub struct NoBuilder;

pub trait NoB { fn builder() -> NoBuilder { NoBuilder } }
impl<T> NoB for T {}

/// Send and Sync or not
pub struct Is<T>(PhantomData<T>);
impl<T: Send> Is<T> { pub const SEND: bool = true; }
impl<T: Sync> Is<T> { pub const SYNC: bool = true; }
pub trait IsNot { const SEND: bool = false; const SYNC: bool = false; }
impl<T> IsNot for Is<T> {}

fn shape(n: &str) -> String {
    let n = n.trim();
    if n.ends_with("::Absent") { return "A".into(); }
    if n == "bool" { return "b".into(); }
    if let Some(r) = n.strip_prefix("core::result::Result<") { return format!("R{}", shape(&r[..r.rfind(',').unwrap_or(r.len())])); }
    let tv = |s: &str| s.ends_with("::Tv") && !s.contains('<') && !s.contains('&');
    let opt = |s: &str| s.strip_prefix("core::option::Option<").and_then(|s| s.strip_suffix(">")).map_or(false, tv);
    if tv(n) { return "T".into(); }
    if opt(n) { return "O".into(); }
    if let Some(r) = n.strip_prefix("&mut ") { if tv(r) { return "&mut T".into(); } if opt(r) { return "&mut O".into(); } }
    else if let Some(r) = n.strip_prefix("&") { if tv(r) { return "&T".into(); } if opt(r) { return "&O".into(); } }
    if let Some(r) = n.strip_prefix("core::option::Option<&") { if tv(r.trim_end_matches('>')) { return "o&T".into(); } }
    if n.contains("::NoBuilder") { return "nobuilder".into(); }
    if n.contains("core::option::Option<") && n.contains("::Tv") { return "gO".into(); }
    if n.contains("::Tv") { return "gT".into(); }
    format!("?{n}")
}
pub fn cls<T>(_: &T) -> String { shape(std::any::type_name::<T>()) }
/// builder setters give the builder back
pub fn bld<T, U>(_: &T, _of: &U) -> String {
    let n = std::any::type_name::<T>();
    if n.ends_with("::Absent") { "A".into() } else if n == std::any::type_name::<U>() { "B".into() } else { format!("?{n}") }
}
fn noop() -> std::task::Waker {
    use std::task::*;
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
pub fn bo<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    for _ in 0..1000 {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
    }
    panic!("pending for ever");
}
pub fn say(st: &str, what: &str, r: String) { println!("{st}\t{what}\t{r}"); }
'''


# ------------------------------------------------------------------------------------------------------- declarations

def no_helper():
    return {"on": "-", "nm": "", "vis": "-", "m": "-", "into": "-", "optin": False, "req": "-", "vis2": "-", "m2": "-"}


def no_args():
    return {"rc": "-", "serde": "-", "mode2": "-", "vis2": "-", "mode": "-", "lock": "-", "optional": "-", "inner_mut": "-", "copy": "-", "clone": "-", "into": "-", "fall": "-",
            "ferr": False, "vis": "-", "h": {k: no_helper() for k in KINDS}}


def no_field(n="a"):
    f = no_args()
    f.update({"n": n, "rn": "", "skip": False, "df": False})
    return f


VIS = {"priv": ["private"], "super": ["public(super)"], "crate": ["public(crate)"], "pub": ["public"]}
MODE = {"sync": "sync", "sync_off": "sync(off)", "async": "r#async", "msync": "mode(sync)", "masync": "mode(async)", "mplain": "mode(plain)"}


def vis_src(v, top):
    return 'public(in_mod = "crate::%s")' % top if v == "in" else VIS[v][0]


# arguments FxItems is about (record "it")
def marks(tags):
    return ", ".join("mark::mark(%s)" % t for t in tags)


def tags(l):
    """attributes of a struct: the derive makes them visible"""
    return "attributes(%s)" % ", ".join(["derive(mark::Notes)"] + ["tag(%s)" % t for t in l])


def item_helper(it, k, field):
    sub = []
    if it["fn"].get(k):
        sub.append("attributes_fn(%s)" % marks(it["fn"][k]))
    if k == "builder" and it["battrs"]:
        sub.append("attributes(%s)" % ", ".join(it["battrs"]) if field else tags(it["battrs"]))
    if k == "builder" and it["bimpl"]:
        sub.append("attributes_impl(%s)" % marks(it["bimpl"]))
    return sub


def item_serde(it, top, rnd):
    sub = []
    if it["sname"]:
        sub.append('"%s"' % it["sname"])
    if it["svis"] != "-":
        sub.append(vis_src(it["svis"], top))
    if it["sattrs"]:
        sub.append(tags(it["sattrs"]))
    if it["fwdsaid"]:
        sub.append("forward_attrs(%s)" % ", ".join(it["fwd"] + ["allow"]))
    rnd.shuffle(sub)
    return sub


def item_rc(it, top, rnd):
    return (['"%s"' % it["rcname"]] if it["rcname"] else []) + ([vis_src(it["rcvis"], top)] if it["rcvis"] != "-" else [])


ITEM_ARGS = {"serde": item_serde, "rc": item_rc}


def item_args(it, field, rnd):
    out = []
    if field:
        if it["all"]:
            out.append("attributes_fn(%s)" % marks(it["all"]))
        if it["serde"]:
            sub = (["attributes(%s)" % ", ".join(it["sattrs"])] if it["sattrs"] else []) + (["forward_attrs(%s)" % ", ".join(it["fwd"] + ["allow"])] if it["fwdsaid"] else [])
            rnd.shuffle(sub)
            out.append("serde" + ("(%s)" % ", ".join(sub) if sub else ""))
        return out
    for a, n in (("no_new", "no_new"), ("dflt", "default")):
        if it[a] != "-":
            out.append(n if it[a] == "on" else n + "(off)")
    if it["attrs"]:
        out.append(tags(it["attrs"]))
    if it["impl"]:
        out.append("attributes_impl(%s)" % marks(it["impl"]))
    return out


def render(a, top, rnd, field):
    """the arguments as they are written"""
    out = []
    for m in (a["mode"], a["mode2"]):
        if m != "-":
            out.append(MODE[m])
    it = a.get("it")
    for x in ("rc", "serde"):
        if a.get(x, "-") != "-":
            sub = ITEM_ARGS[x](it, top, rnd) if it and a[x] == "on" else ["off"] if a[x] == "off" else []
            out.append(x + ("(%s)" % ", ".join(sub) if sub else ""))
    for x in ("lock", "optional", "inner_mut", "copy", "clone", "into"):
        if a[x] != "-":
            out.append(x if a[x] == "on" else x + "(off)")
    if a["fall"] != "-":
        sub = (["off"] if a["fall"] == "off" else []) + (["error(E)"] if a["ferr"] else [])
        out.append("fallible" + ("(%s)" % ", ".join(sub) if sub else ""))
    for v in (a["vis"], a["vis2"]):
        if v != "-":
            out.append(vis_src(v, top))
    for k in KINDS:
        h = a["h"][k]
        if h["on"] == "-":
            continue
        sub = []
        if h["nm"]:
            sub.append('"%s"' % h["nm"])
        if h["on"] == "off":
            sub.append("off")
        for v in (h["vis"], h["vis2"]):
            if v != "-":
                sub.append(vis_src(v, top))
        for m in (h["m"], h["m2"]):
            if m != "-":
                sub.append(m)
        if h["into"] != "-":
            sub.append("into" if h["into"] == "on" else "into = false" if k == "set" else "into(off)")
        if h["optin"]:
            sub.append("opt_in")
        if h["req"] != "-":
            sub.append("required" if h["req"] == "on" else "required(off)")
        if it:
            sub += item_helper(it, k, field)
        rnd.shuffle(sub)
        out.append(k + ("(%s)" % ", ".join(sub) if sub else ""))
    if field and a["rn"]:
        out.append('rename("%s")' % a["rn"])
    if it:
        out += item_args(it, field, rnd)
    rnd.shuffle(out)
    if field and a["skip"]:
        out.insert(0, "skip")
    return out


def rnd_args(rnd, field, n, vis=False, dense=0.3):
    a = no_field(n) if field else no_args()

    def maybe(p):
        return rnd.random() < p
    style = rnd.random()
    if field:
        if maybe(0.25):
            a["mode"] = rnd.choice(["sync", "async", "mplain", "msync", "masync", "sync_off"])
    else:
        a["mode"] = rnd.choice(["-", "-", "sync", "sync", "async", "async", "msync", "masync", "mplain", "sync_off"])
    for x, p in (("lock", 0.1), ("optional", 0.15), ("inner_mut", 0.12 if a["mode"] in ("-", "sync_off") else 0.03), ("copy", 0.12), ("clone", 0.12), ("into", 0.12)):
        if maybe(p):
            a[x] = "on" if maybe(0.7) else "off"
    if maybe(0.15):
        a["fall"] = rnd.choice(["on", "off"]) if field else rnd.choice(["on", "off", "off"])
        a["ferr"] = maybe(0.7)
    for k in KINDS:
        if k == "lazy" and not maybe(0.8):
            continue
        if maybe(dense):
            h = a["h"][k]
            h["on"] = "off" if maybe(0.25) else "on"
            if maybe(0.25) and k != "lazy" or maybe(0.1):
                h["nm"] = "sx_%s_%s" % (k, n) if field else "px_%s_" % k
            if k == "get" and maybe(0.4):
                h["m"] = rnd.choice(["copy", "clone", "as_ref"])
            if k in ("set", "builder") and maybe(0.3):
                h["into"] = rnd.choice(["on", "off"])
            if k == "builder" and not field and maybe(0.3):
                h["optin"] = True
            if k == "builder" and maybe(0.35):
                h["req"] = rnd.choice(["on", "on", "off"])
            if h["on"] == "off" and not field:
                h["nm"], h["m"], h["into"], h["optin"], h["req"] = h["nm"] if k != "lazy" else "", "-", "-", False, "-"
            if vis and k not in ("lazy", "builder") and maybe(0.5):
                h["vis"] = rnd.choice(["priv", "super", "crate", "in", "pub"])
    if vis and maybe(0.5):
        a["vis"] = rnd.choice(["priv", "super", "crate", "in", "pub"])
    if field:
        if maybe(0.2):
            a["rn"] = "ren_" + n
        if maybe(0.04):
            a["skip"] = True
        if maybe(0.15):
            a["df"] = True
    return a


class Tla:
    def __init__(self, decls, module="FxAttr"):
        f = path("configs.json")
        json.dump(decls, open(f, "w"))
        r = tlc(module + ".tla", module + ".cfg", env={"CONFIGS": f}, mem="4g", workers=4)
        if not r.ok:
            raise ToolError("TLC on %s: %s" % (module, r.out[-3000:]))
        self.distinct, self.generated = r.distinct, r.generated
        self.res = [None] * len(decls)
        for line in r.out.splitlines():
            if line.startswith(('"[\\"R\\"', '"[\\"I\\"')):
                _, i, contra, unsettled, hasb, sync, rather, needs, fields, *items = json.loads(json.loads(line))
                self.res[i - 1] = {"needs": set(needs[0]), "perhaps": set(needs[1]), "contra": contra, "unsettled": unsettled, "hasb": hasb, "sync": sync, "rather": rather, "fs": fields}
                if items:
                    self.res[i - 1]["items"] = items[0]
        if any(x is None for x in self.res):
            raise ToolError("declarations without an answer in TLC's output: " + r.out[-2000:])


def explore(depth):
    """TLC over everything that can be written with `depth` arguments"""
    return tlc_start("FxAttr.tla", "FxAttr.cfg", env={"DEPTH": str(depth)}, mem="6g", workers=4 if depth < 3 else 8)


def good_decls(rnd, nstructs, per, vis):
    """declarations FxAttr finds neither contradictory nor unsettled, several fields in each"""
    cands, groups = [], []
    for i in range(nstructs):
        s = rnd_args(rnd, False, "", vis, 0.35 if not vis else 0.45)
        if vis:
            svis = rnd.choice(["priv", "super", "crate", "pub", "pub"])
        else:
            svis = "pub"
        ix = []
        for j in range(per * 5):
            ix.append(len(cands))
            cands.append({"s": s, "fs": [rnd_args(rnd, True, NAMES[j % per], vis, rnd.choice([0.15, 0.4]) if not vis else 0.5)], "svis": svis})
        groups.append(ix)
    t = Tla(cands)
    packed = []
    for ix in groups:
        byname = {}
        for i in ix:
            r = t.res[i]
            if not r["contra"] and not r["unsettled"]:
                f = cands[i]["fs"][0]
                # prefer fields with much to say
                byname.setdefault(f["n"], []).append((sum(e["ex"] for e in r["fs"][0]["h"].values()) + rnd.random(), i))
        if byname:
            fs = [cands[max(v)[1]]["fs"][0] for n, v in sorted(byname.items())]
            packed.append({"s": cands[ix[0]]["s"], "fs": fs, "svis": cands[ix[0]]["svis"]})
    t2 = Tla(packed)
    out = [(p, r) for p, r in zip(packed, t2.res) if not r["contra"] and not r["unsettled"]]
    return out, [t, t2], len(cands)


def candidates(D, f, k):
    """every name the helper k of the field f could go by"""
    bases = {f["n"], f["rn"] or f["n"]}
    pre = {PREFIX.get(k, "")}
    if D["s"]["h"][k]["nm"]:
        pre.add(D["s"]["h"][k]["nm"])
    out = {p + b + ("_mut" if k == "get_mut" else "") for p in pre for b in bases}
    if k == "get_mut":
        pass
    if f["h"][k]["nm"]:
        out.add(f["h"][k]["nm"])
    return sorted(out)


class Decl:
    def __init__(self, i, D, R, rnd):
        self.id, self.D, self.R = "s%d" % i, D, R
        self.sattr = "#[fxstruct(%s)]" % ", ".join(render(D["s"], self.id, rnd, False))
        self.fattrs = []
        for f in D["fs"]:
            a = render(f, self.id, rnd, True)
            if f["df"]:
                a.append("default(Tv(5))")
            self.fattrs.append("#[fieldx(%s)]" % ", ".join(a) if a else "")
        self.expected = {}
        # names by kind, the one expected and the ones not
        self.names = {}
        for f, r in zip(D["fs"], R["fs"]):
            for k in METHODS if R.get("probe", True) else ():
                for nm in candidates(D, f, k):
                    e = r["h"][k]
                    if e["ex"] and e["nm"] == nm:
                        self.names[(k == "builder", nm)] = (f, k, e)
                    else:
                        self.names.setdefault((k == "builder", nm), (f, k, None))
                if r["h"][k]["ex"]:
                    self.names[(k == "builder", r["h"][k]["nm"])] = (f, k, r["h"][k])

    def struct(self, vis="pub "):
        out = ["#[derive(Clone)]" if self.D["s"].get("serde") == "on" else "", self.sattr]
        if "it" in self.D["s"]:
            out.append("#[derive(mark::Notes)]")
            out += ["#[tag(%s)]" % t for t in self.D["s"]["it"]["own"]]
        out.append("%sstruct S {" % vis)
        for f, a in zip(self.D["fs"], self.fattrs):
            out.append("    %s\n    %s%s: Tv," % (a, "".join("#[%s] " % o for o in f["it"]["own"]) if "it" in f else "", f["n"]))
        out.append("}\nimpl S {")
        for f, r in zip(self.D["fs"], self.R["fs"]):
            if r["kind"] == "lazy":
                out.append("    %sfn %s(&self) -> %s { %s }" % (
                    "async " if r["prot"] == "alock" else "", r["lazyname"], "Result<Tv, E>" if r["fall"] else "Tv", "Ok(Tv(1))" if r["fall"] else "Tv(1)"))
        out.append("}")
        return "\n".join(out)

    def bare(self):
        return "\n".join(["#[derive(Clone)]" if self.D["s"].get("serde") == "on" else "", self.sattr, "struct S {"] + ["    %s\n    %s: Tv," % (a, f["n"]) for f, a in zip(self.D["fs"], self.fattrs)] + ["}"])

    def text(self):
        return "%s %s" % (self.sattr, "; ".join(("%s %s" % (a, f["n"])).strip() for f, a in zip(self.D["fs"], self.fattrs)))

    def probes(self, tag, only_vis=None):
        """statements asking `o: S` for every name"""
        out = []
        for (b, nm), (f, k, e) in sorted(self.names.items(), key=lambda x: x[0]):
            what = "%s %s" % ("builder" if b else "method", nm)
            if only_vis is not None and b:
                continue
            ex = e is not None and (only_vis is None or e["vis"] in only_vis)
            if ex:
                self.expected[tag + what] = ("B" if b else ("x" if e["excl"] else "") + {"W": "gT", "RW": "RgT"}.get(e["sh"], e["sh"]), k, f["n"])
            else:
                self.expected[tag + what] = ("A", k, f["n"])
            aw = ex and e["aw"] and not b
            w = (lambda c: "bo(%s)" % c) if aw else (lambda c: c)
            arg = ""
            if b or k == "set":
                arg = "Src(3)" if ex and e["into"] else "Default::default()" if ex else "Tv(3)"
            key = '"%s", "%s%s"' % (self.id, tag, what)
            if b:
                out.append((b, "{ let b = S::builder(); let r = bld(&S::builder().%s(%s), &b); say(%s, r); }" % (nm, arg, key)
                           if self.R["hasb"] else "{ let r = cls(&S::builder().%s(%s)); say(%s, r); }" % (nm, arg, key)))
            else:
                sh = "{ let mut p = &o; cls(&%s) }" % w("p.%s(%s)" % (nm, arg))
                if ex and e["excl"]:
                    out.append((b, "{ let r = format!(\"x{}\", cls(&%s)); say(%s, r); }" % (w("o.%s(%s)" % (nm, arg)), key)))
                elif ex:
                    out.append((b, "{ let r = %s; say(%s, r); }" % (sh, key)))
                else:
                    out.append((b, "{ let r = cls(&o.%s(%s)); say(%s, r); }" % (nm, arg, key)))
        if self.R["hasb"] and only_vis is None:
            # build() with one value missing: does it insist?
            give = {f["n"]: ".%s(%s)" % (r["h"]["builder"]["nm"], "Src(3)" if r["h"]["builder"]["into"] else "Tv(3)")
                    for f, r in zip(self.D["fs"], self.R["fs"]) if r["h"]["builder"]["ex"]}
            for f, r in zip(self.D["fs"], self.R["fs"]):
                if f["n"] in give:
                    what = "required " + f["n"]
                    self.expected[tag + what] = ("Err" if r["req"] else "Ok", "builder", f["n"])
                    out.append((True, '{ let r = S::builder()%s.build(); say("%s", "%s%s", if r.is_ok() { "Ok" } else { "Err" }.into()); }' % (
                        "".join(v for n, v in give.items() if n != f["n"]), self.id, tag, what)))
        return out


def fallback(decls):
    names = {}
    for d in decls:
        for (b, nm), (f, k, e) in d.names.items():
            names.setdefault((b, nm), k in ("set", "builder"))
    ms = ["fn %s%s -> Absent where Self: Sized { Absent }" % (nm, "<V>(&mut self, _v: V)" if arg else "(&mut self)")
          for nm, arg in sorted({(nm, a) for (b, nm), a in names.items() if not b})]
    bs = ["fn %s<V>(&mut self, _v: V) -> Absent where Self: Sized { Absent }" % nm for nm in sorted({nm for (b, nm) in names if b})]
    return ("pub trait Fb { %s }\nimpl<T> Fb for T {}\npub trait Bb { %s }\nimpl<T> Bb for T {}" % (" ".join(ms), " ".join(bs)))


def run_bins(check, decls, bins, env=None):
    by = {d.id: d for d in decls}
    n = 0
    with ThreadPoolExecutor(CORES) as ex:
        outs = list(ex.map(lambda b: subprocess.run([path("target", "debug", b)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300), bins))
    seen = set()
    for b, p in zip(bins, outs):
        if p.returncode != 0:
            check.violate("crash", "probing died: " + p.stderr[-500:], {"bin": b})
        for line in p.stdout.splitlines():
            st, what, r = line.split("\t")
            d = by[st]
            exp, k, f = d.expected[what]
            seen.add((st, what))
            n += 1
            if r != exp:
                check.violate("resolution", "%s: FxAttr says %s of field %s (%s) is %s, the struct has %s" % (d.text(), what, f, k, exp, r),
                              {"declaration": d.D, "struct": d.struct(), "what": what, "expected": exp, "got": r})
    if not check.violations:
        for d in decls:
            for w in d.expected:
                if (d.id, w) not in seen:
                    raise ToolError("no answer about %s of %s" % (w, d.id))
    return n


HEAD = "#![allow(warnings)]\nuse seq::*;\n"


def probe(check, decls, nb, what, name="attrcrate", features=("sync", "async"), lib=LIB):
    """compiles the declarations and asks them for every name; returns how many names"""
    use = " use serde::{Serialize, Deserialize};" if "serde" in features else ""
    bins = {}
    for b in range(nb):
        mine = decls[b::nb]
        src = [HEAD, fallback(mine)]
        for d in mine:
            ps = d.probes("")
            src.append(("mod %s { use crate::*; use fieldx::fxstruct;" + use + "\n%s\npub fn probe() { probe::go() }\nmod probe { use super::{S, Tv, Src, cls, bld, bo, say, E}; use crate::Fb;\npub fn go() {\nlet mut o = S::new();\n%s\nb::go() }\nmod b { use super::super::{S, Tv, Src, cls, bld, say}; use crate::{Bb, NoB};\npub fn go() {\n%s\n} } } }")
                       % (d.id, d.struct(), "\n".join(x for b, x in ps if not b), "\n".join(x for b, x in ps if b)))
        src.append("fn main() { %s }" % " ".join("%s::probe();" % d.id for d in mine))
        bins["b%d" % b] = "\n".join(src)
    root = make_crate(name, lib, bins, features)
    return run_bins(check, decls, list(bins)) if build_crate(check, root, what) else 0


def run18(check, rnd):
    exp = explore(2)
    good, ts, ncand = good_decls(rnd, 400 if QUICK else 1200, 6, False)
    decls = [Decl(i, D, R, rnd) for i, (D, R) in enumerate(good)]
    n = probe(check, decls, 8 if QUICK else 24, "C18")
    full = tlc_wait(exp, 800)
    if not full.ok:
        raise ToolError("TLC on FxAttr (exploration): " + full.out[-3000:])
    stats = {}
    for d in decls:
        for (b, nm), (f, k, e) in d.names.items():
            s, l = d.D["s"]["h"][k]["on"], f["h"][k]["on"]
            key = "%s struct:%s field:%s" % (k, s, l)
            stats[key] = stats.get(key, 0) + 1
    check.cov.update({"states": full.distinct + sum(t.distinct for t in ts), "transitions": full.generated + sum(t.generated for t in ts),
                      "traces_validated_against_impl": len(decls), "declarations_resolved": ncand, "structs_compiled": len(decls),
                      "fields": sum(len(d.D["fs"]) for d in decls), "names_probed": n,
                      "level_pairs": stats,
                      "samples": [d.text() for d in decls[:3]]})
    check.assumptions = ["declarations FxAttr calls Unsettled are not checked",
                         "a helper under a name none of the levels could have given would go unnoticed"]


# rungs of the ladder: who sees what
ALLV = ("priv", "super", "in", "crate", "pub")
RUNGS = {"inner": ALLV, "outer": ALLV[1:], "module": ALLV[2:], "sibling": ALLV[3:], "external": ALLV[4:]}


def run19(check, rnd):
    exp = explore(2)
    good, ts, ncand = good_decls(rnd, 190 if QUICK else 300, 4, True)
    decls = [Decl(i, D, R, rnd) for i, (D, R) in enumerate(good)]
    lib = [LIB, fallback(decls)]
    sib, ext = [], {}
    nb = 4
    use = "use crate::{Tv, Src, cls, bo, say, E, Fb};"

    def go(d, rung):
        if d.D["svis"] not in RUNGS[rung]:   # the struct itself is not seen from there
            return ""
        return "let mut o = %s::outer::inner::make();\n%s" % (
            ("seq::" if rung == "external" else "crate::") + d.id, "\n".join(x for b, x in d.probes(rung + " ", RUNGS[rung])))
    for i, d in enumerate(decls):
        v = {"priv": "", "super": "pub(super) ", "crate": "pub(crate) ", "pub": "pub "}[d.D["svis"]]
        lib.append("""pub mod %s {
pub mod outer {
pub mod inner { use crate::{Tv, Src, E}; use fieldx::fxstruct;
%s
pub fn make() -> S { S::new() }
mod below { %s pub(super) fn go() { %s } }
pub fn probe() { below::go() } }
%s
pub fn probe() { %s } }
%s
pub fn probe() { %s } }""" % (d.id, d.struct(v), use, go(d, "inner"), use, go(d, "outer"), use, go(d, "module")))
        sib.append("pub fn %s() { %s }" % (d.id, go(d, "sibling")))
        ext.setdefault("b%d" % (i % nb), []).append((d.id, go(d, "external")))
    lib.append("pub mod sibling { %s\n%s }" % (use, "\n".join(sib)))
    bins = {}
    for b, l in ext.items():
        out = ["#![allow(warnings)]", "use seq::{Tv, Src, cls, bo, say, E, Fb};"]
        out += ["fn %s() { %s }" % x for x in l]
        out.append("fn main() { %s }" % " ".join(
            "%s(); seq::sibling::%s(); seq::%s::probe(); seq::%s::outer::probe(); seq::%s::outer::inner::probe();" % ((i,) * 5) for i, _ in l))
        bins[b] = "\n".join(out)
    root = make_crate("viscrate", "\n".join(lib), bins)
    n = 0
    if build_crate(check, root, "C19"):
        n = run_bins(check, decls, list(bins))
    full = tlc_wait(exp, 800)
    if not full.ok:
        raise ToolError("TLC on FxAttr (exploration): " + full.out[-3000:])
    byvis = {}
    for d in decls:
        for r in d.R["fs"]:
            for k, e in r["h"].items():
                if e["ex"] and k != "builder":
                    byvis[e["vis"]] = byvis.get(e["vis"], 0) + 1
    check.cov.update({"states": full.distinct + sum(t.distinct for t in ts), "transitions": full.generated + sum(t.generated for t in ts),
                      "traces_validated_against_impl": len(decls), "declarations_resolved": ncand, "structs_compiled": len(decls),
                      "rungs": list(RUNGS), "names_probed": n, "methods_by_visibility": byvis,
                      "samples": [d.text() for d in decls[:3]]})
    check.assumptions = ["methods of the object only: new(), builder() and the builder's setters are always public",
                         "public(in_mod = ..) is tried with one ancestor module of the struct"]


CHK = r"""
#![allow(warnings)]
use std::marker::PhantomData;
use std::future::Future;
#[derive(Debug, Default, Clone, Copy, PartialEq, serde::Serialize, serde::Deserialize)] pub struct Tv(pub i64);
#[derive(Debug, Default, Clone, PartialEq, serde::Serialize, serde::Deserialize)] pub struct NoCopy(pub i64);
pub struct Src(pub i64);
impl From<Src> for Tv { fn from(s: Src) -> Self { Tv(s.0) } }
#[derive(Debug, PartialEq)] pub struct E;
pub struct Is<T>(PhantomData<T>);
impl<T: Send> Is<T> { pub const SEND: bool = true; }
impl<T: Sync> Is<T> { pub const SYNC: bool = true; }
pub trait IsNot { const SEND: bool = false; const SYNC: bool = false; }
impl<T> IsNot for Is<T> {}
pub fn sendable<T: Future + Send>(_: T) {}
"""


class Mods:
    """modules to be compiled together, and who an error belongs to"""
    def __init__(self, name, lib, nb, features=("sync", "async", "serde")):
        self.name, self.lib, self.nb, self.features = name, lib, nb, features
        self.mods = []

    def add(self, key, src):
        self.mods.append((key, src))

    def check(self):
        """-> {key: [(code, message)]}"""
        bins, where = {}, {}
        for b in range(self.nb):
            lines = ["#![allow(warnings)]", "use seq::*;", "fn main() {}"]
            for key, src in self.mods[b::self.nb]:
                start = len(lines) + 1
                lines += src.split("\n")
                where.setdefault("b%d" % b, []).append((start, len(lines), key))
            bins["b%d" % b] = "\n".join(lines) + "\n"
        root = make_crate(self.name, self.lib, bins, self.features)
        ok, errs, stderr = cargo_json(["check", "--bins", "--keep-going"], root)
        found = {}
        for e in errs:
            if not e["_target"].startswith("b"):
                raise ToolError("fieldx itself does not build: " + e.get("rendered", ""))
            if not e["spans"]:
                continue   # "aborting due to .."
            hit = False
            for sp in e["spans"]:
                while sp and not sp["file_name"].startswith("src/bin/"):
                    sp = (sp.get("expansion") or {}).get("span")
                if sp:
                    for a, z, key in where[e["_target"]]:
                        if a <= sp["line_start"] <= z:
                            found.setdefault(key, []).append(((e.get("code") or {}).get("code"), e["message"]))
                            hit = True
                            break
                if hit:
                    break
            if not hit:
                raise ToolError("an error that belongs to nothing: " + e.get("rendered", ""))
        if not ok and not found:
            raise ToolError("cannot check: " + stderr[-2000:])
        return found


def asserts(R):
    return "const _: () = assert!(Is::<S>::SYNC == %s); const _: () = assert!(Is::<S>::SEND == %s);" % (
        str(R["sync"]).lower(), str(R["send"]).lower())


def futures(d):
    out = []
    for f, r in zip(d.D["fs"], d.R["fs"]):
        for k, e in r["h"].items():
            if e["ex"] and e["aw"] and k != "builder":
                out.append("sendable(o.%s(%s));" % (e["nm"], ("Src(3)" if e["into"] else "Tv(3)") if k == "set" else ""))
    return "fn futures(o: &S) { %s }" % " ".join(out) if out and d.R["send"] and d.R["sync"] else ""


def run20(check, rnd):
    depth3 = None if QUICK else explore(3)
    p = tlc_start("FxAttr.tla", "FxAttr.cfg", env={"DEPTH": "2", "EMIT": "1"}, mem="6g", workers=4)
    # what mixes fields
    multi, ts, ncand = good_decls(rnd, 320 if QUICK else 800, 4, False)
    p = tlc_wait(p, 600)
    note("TLC done")
    if not p.ok:
        raise ToolError("TLC on FxAttr: " + p.out[-3000:])
    contra, good, seen = [], [], set()
    for line in p.out.splitlines():
        if line.startswith('"[\\"D\\"'):
            _, D, c, u, sy, se, r = json.loads(json.loads(line))
            key = json.dumps(D, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            if c:
                contra.append(D)
            elif not u:
                good.append((D, {"sync": sy, "send": se, "fs": [r], "hasb": False}))
    if len(contra) < 100 or len(good) < 1000:
        raise ToolError("FxAttr gave %d contradictory and %d good declarations" % (len(contra), len(good)))
    key = lambda x: json.dumps(x, sort_keys=True)
    contra.sort(key=key)
    good.sort(key=lambda x: key(x[0]))
    copies = [(D, R) for D, R in good if R["fs"][0]["h"]["get"]["ex"] and copied(D)]
    for D, R in multi:
        R["send"] = True
    uncopied = [(D, R) for D, R in good if not R["fs"][0]["h"]["get"]["ex"] and copied(D) and not R["fs"][0]["h"]["set"]["into"] and not R["fs"][0]["h"]["builder"]["into"]]
    if QUICK:
        uncopied = rnd.sample(uncopied, min(60, len(uncopied)))
        good = rnd.sample(good, 1400)
    # a contradiction of a helper by itself, with any other argument: enough to take some
    alone, rest = [], []
    for D in contra:
        (alone if any(h["vis2"] != "-" or h["m2"] != "-" for a in [D["s"]] + D["fs"] for h in a["h"].values()) else rest).append(D)
    contra = rest + (rnd.sample(alone, 300) if QUICK else alone)
    more = []
    for D, R in multi:
        # the same as a reference counted struct
        D2 = copy.deepcopy(D)
        D2["s"]["rc"] = "on"
        more.append(D2)
    t3 = Tla(more)
    multi += [(D, dict(r, send=r["sync"])) for D, r in zip(more, t3.res) if not r["contra"] and not r["unsettled"]]
    yes, no, cp = Mods("good", CHK, 8), Mods("contra", CHK, 6), Mods("copy", CHK, 4)
    text = {}
    nfut = 0

    def put(mods, pre, i, D, R, ty="Tv", tail=True):
        nonlocal nfut
        d = Decl(i, D, R or {"fs": []}, rnd)
        d.id = pre + str(i)
        body = d.struct() if R else d.bare()
        if ty != "Tv":
            body = re.sub(r"(?m)^    (%s): Tv," % "|".join(NAMES), r"    \1: %s," % ty, body).replace("default(Tv(5))", "default(NoCopy(5))")
            body = body.replace("-> Tv", "-> NoCopy").replace("Result<Tv", "Result<NoCopy").replace("{ Tv(1) }", "{ NoCopy(1) }").replace("Ok(Tv(1))", "Ok(NoCopy(1))")
        fut = futures(d) if R and tail else ""
        nfut += fut.count("sendable(")
        mods.add(d.id, "mod %s { use crate::*; use fieldx::fxstruct; use serde::{Serialize, Deserialize};\n%s\n%s\n%s\n}" % (d.id, body, asserts(R) if R and tail else "", fut))
        text[d.id] = (d.text(), D)
    for i, (D, R) in enumerate(good):
        put(yes, "g", i, D, R)
    for i, (D, R) in enumerate(multi):
        put(yes, "m", i, D, R)
    for i, (D, R) in enumerate(uncopied):
        put(yes, "u", i, D, R, "NoCopy")
    for i, D in enumerate(contra):
        for way in range(2):
            put(no, "c%d_" % way, i, D, None)
    for i, (D, R) in enumerate(copies):
        put(cp, "p", i, D, R, "NoCopy", False)
    note("%d+%d good, %d contradictory, %d to refuse" % (len(good), len(multi), len(contra), len(copies)))
    f = yes.check()
    for k, es in f.items():
        bad = [m for c, m in es if c == "E0080"]
        if bad:
            check.violate("marker", "%s: Send and Sync are not what FxAttr says (%s)" % (text[k][0], bad[0]), {"declaration": text[k][1]})
        else:
            check.violate("refused", "%s: not contradictory, yet does not compile: %s" % (text[k][0], es[0][1]), {"declaration": text[k][1], "errors": es[:5]})
    note("checked the good ones")
    f = no.check()
    for k, _ in no.mods:
        if k not in f:
            check.violate("accepted", "%s: contradictory, yet compiles" % text[k][0], {"declaration": text[k][1]})
    f = cp.check()
    for k, _ in cp.mods:
        if k not in f:
            check.violate("copied", "%s: has a copy getter for a type that is not Copy, yet compiles" % text[k][0], {"declaration": text[k][1]})
    full = tlc_wait(depth3, 3000) if depth3 else None
    if full and not full.ok:
        raise ToolError("TLC on FxAttr (exploration): " + full.out[-3000:])
    check.cov.update({"states": (full or p).distinct + sum(t.distinct for t in ts), "transitions": (full or p).generated + sum(t.generated for t in ts),
                      "traces_validated_against_impl": len(yes.mods) + len(no.mods) + len(cp.mods),
                      "declarations_that_must_compile": len(yes.mods), "declarations_that_must_be_rejected": len(no.mods),
                      "copy_getters_that_must_be_rejected": len(cp.mods), "futures_that_must_be_send": nfut,
                      "samples": [text["c0_0"][0], text["g0"][0]] + ([text["p0"][0]] if copies else [])})
    check.assumptions = ["any error at the declaration counts as its rejection"]


def copied(D):
    f, s = D["fs"][0], D["s"]
    if f["h"]["get"]["m"] != "-":
        return f["h"]["get"]["m"] == "copy"
    if f["copy"] == "on" or f["clone"] == "on":
        return f["copy"] == "on"
    sm = s["h"]["get"]["m"] if s["h"]["get"]["m"] != "-" else "copy" if s["copy"] == "on" else "-"
    return sm == "copy" and f["copy"] != "off"


def run(prop):
    check = Check(prop, "model_checking")
    rnd = random.Random(SEED * 13 + int(prop[1:]))
    {"C18": run18, "C19": run19, "C20": run20}[prop](check, rnd)
    return check.finish()
