"""C21, C22: the items a declaration generates and the attributes they carry, resolved by FxItems (TLC) and compared with what the
generated structs turn out to have."""
import random
from common import *
from seq import make_crate, build_crate
import attr
from attr import Decl, METHODS, NAMES, ALLV, RUNGS, Tla, rnd_args, run_bins

LIB = attr.LIB.replace("#[derive(Debug, PartialEq)] pub struct E", "#[derive(Debug, Clone, PartialEq)] pub struct E").replace("Copy, PartialEq)] pub struct Tv", "Copy, PartialEq, serde::Serialize, serde::Deserialize)] pub struct Tv") + r'''
#[derive(Debug, Clone, Copy, PartialEq, serde::Serialize, serde::Deserialize)] pub struct Nd(pub i64);
pub use fieldx::traits::FXStruct;
impl<T: Default> Is<T> { pub const DFLT: bool = true; }
impl<T: FXStruct> Is<T> { pub const FX: bool = true; }
pub trait IsNot2 { const DFLT: bool = false; const FX: bool = false; }
impl<T> IsNot2 for Is<T> {}
pub trait NoNotes { const NOTES: &'static str = "none"; }
impl<T> NoNotes for T {}
pub trait NoNew { fn new() -> Absent { Absent } fn build(&mut self) -> Absent where Self: Sized { Absent } }
impl<T> NoNew for T {}
/// what a function returns
pub fn ret0<R>(_: impl FnOnce() -> R) -> String { std::any::type_name::<R>().into() }
pub fn ret1<T, R>(_: impl FnOnce(&T) -> R) -> String { std::any::type_name::<R>().into() }
pub fn made(n: String) -> String {
    if n.ends_with("::Absent") { "A" } else if n.contains("sync::Arc<") { "Arc" } else if n.contains("rc::Rc<") { "Rc" }
    else if n.contains("rc::Weak<") { "RcWeak" } else if n.contains("sync::Weak<") { "ArcWeak" } else if n.ends_with("::S") { "S" } else { return format!("?{n}") }.into()
}
pub fn there(n: String) -> String { if n.contains("Absent") || n.contains("NoBuilder") { "A".into() } else { "there".into() } }
'''
TAGS = ("a", "b", "c")


def items():
    return {"no_new": "-", "dflt": "-", "rcname": "", "rcvis": "-", "sname": "", "svis": "-", "own": [], "attrs": [], "impl": [],
            "battrs": [], "bimpl": [], "sattrs": [], "fwd": [], "fwdsaid": False, "fn": {k: [] for k in METHODS}, "all": [], "serde": False}


def some(rnd, p, of=TAGS):
    return rnd.sample(of, rnd.choice([1, 1, 2])) if rnd.random() < p else []


def add_items(rnd, D, attributes):
    """write more arguments into the declaration"""
    s = D["s"]
    it = s["it"] = items()
    s["serde"], s["rc"] = rnd.choice([("-", "-"), ("on", "-"), ("on", "-"), ("-", "on")])
    if s["rc"] == "on":
        s["mode"] = s["mode"] if s["mode"] != "-" else rnd.choice(["sync", "mplain", "async"])
    if attributes:
        it["own"] = some(rnd, 0.5)
        it["attrs"] = some(rnd, 0.5)
        it["impl"] = some(rnd, 0.4)
        if s["h"]["builder"]["on"] == "on":
            it["bimpl"] = some(rnd, 0.6)
            it["battrs"] = some(rnd, 0.4)
        it["sattrs"] = some(rnd, 0.4) if s["serde"] == "on" else []
        it["fwd"] = rnd.sample(["note_a", "note_b"], rnd.choice([0, 1, 1, 2]))
        for k in METHODS:
            if s["h"][k]["on"] == "on":
                it["fn"][k] = some(rnd, 0.5)
    else:
        it["no_new"] = rnd.choice(["-", "-", "on", "on", "off"])
        it["dflt"] = rnd.choice(["-", "-", "-", "on", "off"])
        if rnd.random() < 0.5:
            it["rcname"] = "me_here"
        if rnd.random() < 0.6:
            it["rcvis"] = rnd.choice(["priv", "super", "crate", "in", "pub"])
        if rnd.random() < 0.5:
            it["sname"] = "Shade"
        it["svis"] = rnd.choice(["-", "priv", "super", "crate", "in", "pub"])
        if s["h"]["builder"]["on"] == "on" and rnd.random() < 0.5:
            s["h"]["builder"]["vis"] = rnd.choice(["priv", "super", "crate", "pub"])
    it["fwdsaid"] = s["serde"] == "on"
    bnotes = it["battrs"] or it["attrs"]
    snotes = it["sattrs"] or it["attrs"]
    if not snotes:
        it["fwd"] = []
    for f in D["fs"]:
        i = f["it"] = items()
        if not attributes:
            continue
        i["own"] = some(rnd, 0.5, ("note_a", "note_b"))
        i["all"] = some(rnd, 0.15)
        for k in METHODS:
            if f["h"][k]["on"] == "on":
                i["fn"][k] = some(rnd, 0.45)
        if f["h"]["builder"]["on"] == "on" and bnotes and rnd.random() < 0.5:
            i["battrs"] = ["note_c"]
        if s["serde"] == "on" and rnd.random() < 0.4:
            i["serde"] = True
            if snotes and rnd.random() < 0.6:
                i["sattrs"] = ["note_c"]
            if rnd.random() < 0.5:
                i["fwdsaid"] = True
                i["fwd"] = rnd.sample(["note_a", "note_b"], rnd.choice([0, 1])) if snotes else []


def declarations(rnd, nstructs, per, attributes):
    out, tlas, ncand = [], [], 0
    cands = []
    for i in range(nstructs * 3):
        s = rnd_args(rnd, False, "", False, 0.45)
        if attributes and rnd.random() < 0.6:
            s["h"]["builder"]["on"] = "on"
        lean = not attributes and rnd.random() < 0.5       # Default depends on one of the fields
        if lean and s["h"]["builder"]["on"] == "on" and rnd.random() < 0.5:
            s["h"]["builder"]["on"] = "-"
        lucky = rnd.randrange(per)
        D = {"s": s, "fs": [], "svis": "pub" if attributes else rnd.choice(["priv", "super", "crate", "pub", "pub"])}
        for j in range(per * 3):
            f = rnd_args(rnd, True, NAMES[j % per], False, 0.35)
            if not attributes:
                f["df"] = j % per == lucky and rnd.random() < 0.7 if lean else f["df"] and rnd.random() < 0.3
            D["fs"].append(f)
        add_items(rnd, D, attributes)
        if lean:
            s["it"]["no_new"], s["it"]["dflt"], s["rc"] = "on", rnd.choice(["-"] * 9 + ["off"]), "-"
            s["serde"] = rnd.choice(["-", "-", "on"])
            s["mode"] = rnd.choice(["-", "mplain", s["mode"]])
        cands.append(D)
    # one field at a time, to find those that make sense, then together
    singles, where = [], []
    for i, D in enumerate(cands):
        for j, f in enumerate(D["fs"]):
            singles.append({"s": D["s"], "fs": [f], "svis": D["svis"]})
            where.append((i, j))
    t = Tla(singles, "FxItems")
    keep = {}
    for (i, j), r in zip(where, t.res):
        if not r["unsettled"]:
            keep.setdefault(i, {}).setdefault(cands[i]["fs"][j]["n"], []).append(cands[i]["fs"][j])
    packed = [{"s": cands[i]["s"], "fs": [rnd.choice(v) for n, v in sorted(k.items())], "svis": cands[i]["svis"]} for i, k in sorted(keep.items())]
    t2 = Tla(packed, "FxItems")
    for D, r in zip(packed, t2.res):
        if not r["unsettled"] and len(out) < nstructs:
            out.append((D, r))
    return out, [t, t2], len(singles)


def explore(depth):
    return tlc_start("FxItems.tla", "FxItems.cfg", env={"DEPTH": str(depth)}, mem="6g", workers=4)


def notes_of(text):
    head, fields = text.split("|")
    return head, dict(x.split(":") for x in fields.split(",") if x)


def mark_names(d):
    """-> {(who, function): [tags]}"""
    out = {}
    it = d.R["items"]
    out[("S", "impl")] = it["impl"]
    if d.R["hasb"]:
        out[("B", "impl")] = it["bimpl"]
    for r, x in zip(d.R["fs"], it["fs"]):
        for k in METHODS:
            if r["h"][k]["ex"]:
                out[("B" if k == "builder" else "S", r["h"][k]["nm"])] = x["fn"][k]
    return out


class MarkDecl(Decl):
    def probe(self):
        it = self.R["items"]
        out = []
        for (who, fn), tags in sorted(mark_names(self).items()):
            for t in TAGS:
                what = "mark(%s) on %s %s" % (t, who, fn)
                self.expected[what] = ("there" if t in tags else "A", fn, who)
                out.append('say("%s", "%s", there(ret0(|| %s::__mark_%s_%s())));' % (self.id, what, "S" if who == "S" else "SBuilder", t, fn))
        self.notes = {"S": ("S", it["struct"], [x["own"] for x in it["fs"]], [True] * len(it["fs"]))}
        if self.R["hasb"]:
            self.notes["B"] = ("SBuilder", it["battrs"], [x["bf"] for x in it["fs"]], [r["h"]["builder"]["ex"] for r in self.R["fs"]])
        if it["shadow"]:
            self.notes["D"] = (it["shadow"], it["shattrs"], [x["sf"] for x in it["fs"]], [x["inshadow"] for x in it["fs"]])
        for w, (ty, head, fs, there) in self.notes.items():
            if w != "S" and not head:
                what = "notes of %s" % w
                self.expected[what] = ("none", ty, "struct")
                out.append('say("%s", "%s", <%s>::NOTES.to_string());' % (self.id, what, ty))
                continue
            what = "tags of %s" % w
            self.expected[what] = ("+".join("tag(%s)" % t for t in head), ty, "struct")
            out.append('say("%s", "%s", %s::NOTES.split("|").next().unwrap().to_string());' % (self.id, what, ty))
            for f, n, there_ in zip(self.D["fs"], fs, there):
                if there_ or w == "D":
                    what = "notes of %s.%s" % (w, f["n"])
                    self.expected[what] = ("+".join(sorted(n)) if there_ else "no such field", ty, f["n"])
                    out.append('say("%s", "%s", noted(%s::NOTES, "%s"));' % (self.id, what, ty, f["n"]))
        return "\n".join(out)


NOTED = r'''
pub fn noted(all: &str, f: &str) -> String {
    let fields = all.split('|').nth(1).unwrap_or("");
    for x in fields.split(',') {
        if let Some((n, a)) = x.split_once(':') {
            if n == f { let mut v: Vec<&str> = a.split('+').filter(|s| !s.is_empty()).collect(); v.sort(); return v.join("+"); }
        }
    }
    "no such field".into()
}
'''


def run21(check, rnd):
    exp = explore(3 if QUICK else 4)
    good, ts, ncand = declarations(rnd, 320 if QUICK else 900, 4, True)
    note("%d declarations" % len(good))
    decls = [MarkDecl(i, D, R, rnd) for i, (D, R) in enumerate(good)]
    nb = 8 if QUICK else 24
    bins = {}
    for b in range(nb):
        mine = decls[b::nb]
        body = [(d, d.probe()) for d in mine]
        fns = sorted({fn for d in mine for _, fn in mark_names(d)})
        src = [attr.HEAD, "pub trait Unmarked { %s }\nimpl<T> Unmarked for T {}" % " ".join("fn __mark_%s_%s() -> Absent { Absent }" % (t, fn) for fn in fns for t in TAGS)]
        for d, ps in body:
            src.append("mod %s { use crate::*; use fieldx::fxstruct; use serde::{Serialize, Deserialize};\n%s\npub fn probe() {\n%s\n} }" % (d.id, d.struct(), ps))
        src.append("fn main() { %s }" % " ".join("%s::probe();" % d.id for d in mine))
        bins["b%d" % b] = "\n".join(src)
    root = make_crate("markcrate", LIB + NOTED, bins, ("sync", "async", "serde"), 'mark = { path = "%s/harness/mark" }' % VERIF)
    n = 0
    if build_crate(check, root, "C21"):
        n = run_bins(check, decls, list(bins))
    finish(check, exp, ts, decls, ncand, n)
    where = {}
    for d in decls:
        for (who, fn), tags in mark_names(d).items():
            w = "impl" if fn == "impl" else "method"
            where["%s %s" % (who, w)] = where.get("%s %s" % (who, w), 0) + len(tags)
    check.cov["attributes_by_place"] = where
    check.assumptions = ["declarations FxItems calls UnsettledItems are not checked",
                         "attribute macros and derive helper attributes of the harness stand for all attributes"]


class ItemDecl(Decl):
    """probes from one place (rung) of the module tree"""
    def probe(self, rung):
        it = self.R["items"]
        sees = RUNGS[rung]
        out = []

        def ask(what, expected, code):
            w = "%s %s" % (rung, what)
            self.expected[w] = (expected, "item", "struct")
            out.append('say("%s", "%s", %s);' % (self.id, w, code))
        ask("new()", it["made"] if it["new"] else "A", "made(ret0(|| S::new()))")
        if rung == "inner":
            ask("Default", str(it["dflt"]).lower(), "Is::<S>::DFLT.to_string()")
            ask("FXStruct", "true", "Is::<S>::FX.to_string()")
        if not it["builder"] or it["bvis"] in sees:    # not even a value of a type that is not seen may be used
            ask("builder()", "there" if it["builder"] else "A", "there(ret0(|| S::builder()))")
            ask("build()", "there" if it["builder"] else "A", "there(ret0(|| { let mut b = S::builder(); b.build() }))")
        for nm in ("myself", "me_here"):
            for suf in ("", "_downgrade"):
                ex = it["self"] == nm and it["selfvis"] in sees
                ask("%s%s()" % (nm, suf), it["made"] + ("Weak" if suf else "") if ex else "A", "made(ret1(|o: &S| o.%s%s()))" % (nm, suf))
        # the types: a glob import brings those that can be seen, which then hide the ones of the module
        types = {"SBuilder": it["bvis"] if it["builder"] else None}
        for nm in ("__SShadow", "Shade"):
            if it["shadow"] == nm:
                if it["shadowvis"] != "-":
                    types[nm] = it["shadowvis"]
            else:
                types[nm] = None
        for nm, v in types.items():
            ask("type %s" % nm, "there" if v in sees else "A", "{ use %s::*; there(std::any::type_name::<%s>().to_string()) }" % (self.inner, nm))
        return "\n".join(out)


def run22(check, rnd):
    exp = explore(3)
    good, ts, ncand = declarations(rnd, 400 if QUICK else 800, 3, False)
    note("%d declarations" % len(good))
    decls = [ItemDecl(i, D, R, rnd) for i, (D, R) in enumerate(good)]
    absent = 'mod absent { pub struct SBuilder_Absent; }'
    lib, sib, ext = [LIB], [], {}
    nb = 4
    fb = ("pub trait Selfless { %s }\nimpl<T> Selfless for T {}" % " ".join("fn %s%s(&self) -> Absent { Absent }" % (n, s) for n in ("myself", "me_here") for s in ("", "_downgrade")))
    lib.append(fb)
    use = "use crate::{Tv, Src, Is, IsNot2, NoB, NoNew, Selfless, made, there, ret0, ret1, say, E, Absent};"
    local = "type SBuilder = Absent; type __SShadow = Absent; type Shade = Absent;"

    def go(d, rung):
        if d.D["svis"] not in RUNGS[rung]:
            return ""
        d.inner = ("seq::" if rung == "external" else "crate::") + d.id + "::outer::inner"
        return "use %s::S;\n%s" % (d.inner, d.probe(rung))
    nodef = 0
    for i, d in enumerate(decls):
        v = {"priv": "", "super": "pub(super) ", "crate": "pub(crate) ", "pub": "pub "}[d.D["svis"]]
        body = d.struct(v)
        # without Default the types of the fields need none, except those of which build() has to make a value
        if not d.R["items"]["dflt"] and d.D["s"]["serde"] != "on" and all(r["kind"] != "cell" or r["h"]["builder"]["ex"] for r in d.R["fs"] if d.R["hasb"]):
            body = body.replace("Tv", "Nd")     # the types of the fields need no Default
            nodef += 1
        lib.append("""pub mod %s {
pub mod outer {
pub mod inner { use crate::{Tv, Nd, Src, E}; use fieldx::fxstruct; use serde::{Serialize, Deserialize};
%s
mod below { %s %s pub(super) fn go() { %s } }
pub fn probe() { below::go() } }
mod at { %s %s pub(super) fn go() { %s } }
pub fn probe() { at::go() } }
mod at { %s %s pub(super) fn go() { %s } }
pub fn probe() { at::go() } }""" % (d.id, body, use, local, go(d, "inner"), use, local, go(d, "outer"), use, local, go(d, "module")))
        sib.append("pub fn %s() { %s }" % (d.id, go(d, "sibling")))
        ext.setdefault("b%d" % (i % nb), []).append((d.id, go(d, "external")))
    lib.append("pub mod sibling { %s %s\n%s }" % (use, local, "\n".join(sib)))
    bins = {}
    for b, l in ext.items():
        out = ["#![allow(warnings)]", use.replace("crate::", "seq::"), local]
        out += ["fn %s() { %s }" % x for x in l]
        out.append("fn main() { %s }" % " ".join(
            "%s(); seq::sibling::%s(); seq::%s::probe(); seq::%s::outer::probe(); seq::%s::outer::inner::probe();" % ((i,) * 5) for i, _ in l))
        bins[b] = "\n".join(out)
    root = make_crate("itemcrate", "\n".join(lib), bins, ("sync", "async", "serde"), 'mark = { path = "%s/harness/mark" }' % VERIF)
    n = 0
    if build_crate(check, root, "C22"):
        n = run_bins(check, decls, list(bins))
    finish(check, exp, ts, decls, ncand, n)
    check.cov["structs_of_types_without_default"] = nodef
    check.cov["rungs"] = list(RUNGS)
    check.assumptions = ["declarations FxItems calls UnsettledItems are not checked", "what the items do is the business of other checks"]


def finish(check, exp, ts, decls, ncand, n):
    full = tlc_wait(exp, 800)
    if not full.ok:
        raise ToolError("TLC on FxItems (exploration): " + full.out[-3000:])
    check.cov.update({"states": full.distinct + sum(t.distinct for t in ts), "transitions": full.generated + sum(t.generated for t in ts),
                      "traces_validated_against_impl": len(decls), "declarations_resolved": ncand, "structs_compiled": len(decls),
                      "questions_answered": n, "samples": [d.text() for d in decls[:3]]})


def run(prop):
    check = Check(prop, "model_checking")
    {"C21": run21, "C22": run22}[prop](check, random.Random(SEED * 17 + int(prop[1:])))
    return check.finish()
