"""C15: behaviours of FxRc (TLC) replayed into generated reference-counted structs."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from fx import PRELUDE
from seq import make_crate, build_crate

LIB = PRELUDE + r'''
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
thread_local! { pub static LIVE: std::cell::Cell<i64> = std::cell::Cell::new(0); pub static RAN: std::cell::Cell<i64> = std::cell::Cell::new(0);
                pub static NB: std::cell::Cell<i64> = std::cell::Cell::new(0); pub static MADE: std::cell::Cell<i64> = std::cell::Cell::new(0);
                pub static FAIL: std::cell::Cell<u8> = std::cell::Cell::new(0); pub static PBOK: std::cell::Cell<bool> = std::cell::Cell::new(true);
                pub static PBW: std::cell::RefCell<Option<Box<dyn Fn() -> usize>>> = std::cell::RefCell::new(None); }
/// Counts the objects alive.
pub struct Tok(pub AtomicI64);
impl Default for Tok { fn default() -> Self { LIVE.with(|l| l.set(l.get() + 1)); Tok(AtomicI64::new(0)) } }
impl Drop for Tok { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
pub struct V<W> { pub k: i64, pub me: W }
/// The builder of the lazy field is about to fail?
pub fn fails() -> bool {
    let f = FAIL.with(|f| f.replace(0));
    if f != 0 { RAN.with(|r| r.set(r.get() + 1)); }
    if f == 2 { panic!("planned") }
    f == 1
}
/// The builder of the lazy field was invoked.
pub fn ran(ok: bool) -> i64 {
    RAN.with(|r| r.set(r.get() + 1));
    let k = NB.with(|n| { let k = n.get(); n.set((k + 1) % 3); k });
    if ok { k } else { -50 }
}
pub fn res(ran0: i64, k: i64, same: bool) -> String {
    let n = RAN.with(|r| r.get()) - ran0;
    if !same { return "foreign".into() }
    match n { 0 => format!("v{k}"), 1 => format!("b{k}"), n => format!("built{n}") }
}
'''

STRUCT = r'''
mod m%(id)s {
    use super::*;
    use %(path)s::{%(P)s as P, Weak as W};
    pub struct %(err)s;
    impl From<fieldx::error::FieldXError> for %(err)s { fn from(_: fieldx::error::FieldXError) -> Self { %(err)s } }
    #[fxstruct(%(attrs)s)]
    pub struct %(decl)s {
        #[fieldx(builder(off))]
        tok: Tok,
        %(extra)s
        #[fieldx(%(lazy)s)]
        %(a)s: V<W<%(S)s>>,
    }
    %(alias)s
    impl%(igen)s {
        %(asy)sfn build_%(ab)s(%(self)s) -> %(ret)s {
            let me = self.%(up)s();
            %(fail)s
            let ok = me.as_ref().map_or(false, |m| std::ptr::eq(&**m as *const Self, &*self as *const Self)) && me.as_ref().map_or(false, |m| P::strong_count(m) >= 2);
            %(ok)s
        }
        %(pb)s
    }
    fn get(h: &P<S>, plan: u8) -> String {
        let r0 = RAN.with(|r| r.get());
        FAIL.with(|f| f.set(plan));
        let v = %(get)s;
        let same = v.me.upgrade().map_or(false, |m| P::ptr_eq(&m, h));
        res(r0, v.k, same)
    }
    fn make(k: u8) -> P<S> {
        PBOK.with(|p| p.set(true));
        let p: P<S> = if k == 0 { S::new() } else { S::builder()%(calls)s.build().ok().unwrap() };
        if let Some(f) = PBW.with(|c| c.borrow_mut().take()) { if f() != P::as_ptr(&p) as *const u8 as usize { PBOK.with(|p| p.set(false)) } }
        FAIL.with(|f| f.set(0));
        let n = MADE.with(|m| { m.set(m.get() + 1); m.get() });
        p.tok.0.store(n, SeqCst);
        p
    }
    pub fn run(_k: usize, ops: &[usize], done: &mut dyn FnMut(usize, String) -> bool) {
        NB.with(|n| n.set(0)); MADE.with(|n| n.set(0)); LIVE.with(|n| n.set(0));
        let mut hs: Vec<Option<P<S>>> = (0..4).map(|_| None).collect();
        let mut ws: Vec<Option<W<S>>> = (0..4).map(|_| None).collect();
        for (i, op) in ops.iter().enumerate() {
            let (o, x, y) = (op / 100, op / 10 %% 10, op %% 10);
            let r = guarded(|| match o {
                0 | 1 => { let p = make(o as u8); hs[x] = Some(p); if PBOK.with(|p| p.get()) { "u".into() } else { "post-build".into() } }
                2 => { let p = hs[x].clone(); hs[y] = p; "u".into() }
                3 => { hs[x] = None; "u".into() }
                4 => { let me = hs[x].as_ref().unwrap().%(up)s(); let r = match &me { None => "none".to_string(), Some(m) => if P::ptr_eq(m, hs[x].as_ref().unwrap()) { "same".into() } else { "other".into() } }; hs[y] = me; r }
                5 => { let w: W<S> = hs[x].as_ref().unwrap().%(up)s_downgrade(); ws[y] = Some(w); "u".into() }
                6 => { let p = ws[x].as_ref().unwrap().upgrade(); match p { None => "none".into(), Some(p) => { let r = format!("some{}", p.tok.0.load(SeqCst)); hs[y] = Some(p); r } } }
                7 => { ws[x] = None; "u".into() }
                8 => get(hs[x].as_ref().unwrap(), 0),
                10 => { let r = guarded(|| get(hs[x].as_ref().unwrap(), 1)); FAIL.with(|f| f.set(0)); r }
                11 => { let r = guarded(|| get(hs[x].as_ref().unwrap(), 2)); FAIL.with(|f| f.set(0)); r }
                %(clr)s
                _ => unreachable!(),
            });
            let c: Vec<String> = hs[1..].iter().take(NH).map(|h| h.as_ref().map_or(0, |p| P::strong_count(p)).to_string()).collect();
            let r = format!("{}|{}|{}", r, c.join(","), LIVE.with(|l| l.get()));
            if !done(i, r) { return; }
        }
        drop(hs);
        drop(ws);
        if LIVE.with(|l| l.get()) != 0 { done(ops.len() - 1, "leak".into()); }
    }
}
'''


def structs():
    out = []
    for mode in ("plain", "sync", "async"):
        for rcform, up in (("rc", "myself"), ("rc(public)", "myself"), ('rc("me")', "me"), ('rc("this_one", public)', "this_one")):
            for variant in range(8):
                n = len(out)
                fall = (n // 2) % 2 == 0
                self_ = "&self"
                if mode == "plain" and variant % 2 == 1:
                    self_ = "self: P<Self>"
                extra, calls, pb, bargs = "", "", "", []
                if variant & 2:
                    extra = "#[fieldx(get, builder)]\n        n: i32,"
                    calls = ".n(3)"
                if variant % 4 == 1:
                    bargs.append("post_build(done)")
                    pb = "fn done(self) -> Self { if self.%s().is_some() { PBOK.with(|p| p.set(false)) } let w = self.%s_downgrade(); PBW.with(|c| *c.borrow_mut() = Some(Box::new(move || w.upgrade().map_or(0, |p| P::as_ptr(&p) as *const u8 as usize)))); self }" % (up, up)
                if variant % 4 == 3:
                    bargs += ["post_build", "error(E3)"]
                    pb = "fn post_build(self) -> Result<Self, E3> { if self.%s().is_some() { PBOK.with(|p| p.set(false)) } Ok(self) }" % up
                attrs = {"plain": [], "sync": ["sync"], "async": ["r#async"]}[mode] + [rcform, "builder(%s)" % ", ".join(bargs) if bargs else "builder"]
                lazy = ["lazy", "get", "clearer"]
                a, ab = [("a", "a"), ("r#type", "type"), ("_a_", "_a_")][n % 3]
                # attributes may as well be given for the whole struct
                if n % 5 == 4 and variant < 4:
                    attrs += lazy[1:2]
                    lazy = lazy[:1] + lazy[2:]
                if variant == 0:
                    lazy.append("builder(off)")
                if fall:
                    lazy.append("fallible(error(E))")
                if mode != "plain":
                    lazy += ["get_mut", "reader"]
                route = "%s" if mode == "plain" else ["%s", "read_", "_mut"][n % 3 if variant >= 4 else 0]
                call = "h.%s()" % (a if route == "%s" else "read_" + ab if route == "read_" else ab + "_mut")
                if mode == "async":
                    call = "bo(%s)" % call
                if fall:
                    call = 'match %s { Ok(v) => v, Err(E(n)) => return format!("e{}", RAN.with(|r| r.get()) - r0 + n - 77) }' % call
                clr = {"plain": "", "sync": '9 => { let v = hs[x].as_ref().unwrap().clear_%s(); v.map_or("n".into(), |v| format!("v{}", v.k)) }' % ab,
                       "async": '9 => { let v = bo(hs[x].as_ref().unwrap().clear_%s()); v.map_or("n".into(), |v| format!("v{}", v.k)) }' % ab}[mode]
                decl, S, alias, igen = "S", "S", "", " S"
                if variant >= 4:
                    if n % 3 == 0:
                        decl, S, alias, igen = "Sg<T: Val + Default + 'static> where T: Clone", "Sg<T>", "pub type S = Sg<i32>;", "<T: Val + Default + 'static> Sg<T> where T: Clone"
                        if mode != "plain":
                            decl, igen = decl.replace("+ 'static", "+ 'static + Send + Sync"), igen.replace("+ 'static", "+ 'static + Send + Sync")
                        extra += "\n        #[fieldx(optional, get)]\n        other: T,"
                    elif n % 3 == 1:
                        decl, S, alias, igen = "Sg<const N: usize>", "Sg<N>", "pub type S = Sg<4>;", "<const N: usize> Sg<N>"
                v = "V { k: ran(ok), me: self.%s_downgrade() }" % up
                fail = "let failed = fails();" + (" if failed { return Err(E(77)) }" if fall else "")
                out.append(dict(id=n, mode=mode, attrs=", ".join(attrs), extra=extra, calls=calls, pb=pb, up=up, lazy=", ".join(lazy), get=call, clr=clr,
                                self=self_, err="E3", asy="async " if mode == "async" else "", a=a, ab=ab, fall=fall, fail=fail,
                                ret="Result<V<W<Self>>, E>" if fall else "V<W<Self>>", ok="Ok(%s)" % v if fall else v, decl=decl, S=S, alias=alias, igen=igen,
                                path="std::rc" if mode == "plain" else "std::sync", P="Rc" if mode == "plain" else "Arc"))
    return out


CODE = {"new": 0, "bld": 1, "cl": 2, "dr": 3, "up": 4, "dn": 5, "wu": 6, "dw": 7, "get": 8, "clr": 9, "ge": 10, "gp": 11}


class Lts:
    def __init__(self, h, w, o):
        cfg = path("FxRc.cfg")
        open(cfg, "w").write("CONSTANTS H = %d W = %d Objects = %d\nSPECIFICATION Spec\nINVARIANTS TypeOK DeadIsEmpty\n"
                             "PROPERTIES NoResurrection WeakIsWeak\nCHECK_DEADLOCK FALSE\n" % (h, w, o))
        r = tlc("FxRc.tla", cfg, mem="8g", workers=4, timeout=800)
        if not r.ok:
            raise ToolError("TLC on FxRc: " + r.out[-3000:])
        self.generated, self.distinct = r.generated, r.distinct
        self.next, self.transitions = {}, 0
        for line in r.out.splitlines():
            if line.startswith('"[\\"T\\"'):
                _, s, o, x, y, k, v, counts, live, s2 = json.loads(json.loads(line))
                key = lambda s: json.dumps(s)
                res = {"u": "u", "same": "same", "none": "none", "some": "some%d" % v, "v": "v%d" % v, "b": "b%d" % v, "n": "n", "e": "e1", "p": "p"}[k]
                self.next.setdefault(key(s), {})[CODE[o] * 100 + x * 10 + y] = ("%s|%s|%d/" % (res, ",".join(map(str, counts)), live), key(s2))
                self.transitions += 1
                if not any(s[0]) and not any(s[1]) and s[2] == 0:
                    self.start = key(s)
        if not self.transitions:
            raise ToolError("no behaviours in TLC's output: " + r.out[-2000:])


def paths(lts, without, rnd, depth, nrandom, length):
    ops = lambda s: [(o, x) for o, x in sorted(lts.next.get(s, {}).items()) if o // 100 not in without]
    out = []

    def rec(s, p, d):
        n = ops(s)
        if d == 0 or not n:
            out.append(p)
            return
        for o, (r, s2) in n:
            rec(s2, p + [(o, r)], d - 1)
    rec(lts.start, [], depth)
    seen, queue = {lts.start: []}, [lts.start]
    while queue:
        s = queue.pop(0)
        for o, (r, s2) in ops(s):
            p = seen[s] + [(o, r)]
            if s2 not in seen:
                seen[s2] = p
                queue.append(s2)
            else:
                out.append(p)
    for _ in range(nrandom):
        s, p = lts.start, []
        while len(p) < length:
            n = ops(s)
            if not n:
                break
            o, (r, s2) = rnd.choice(n)
            p.append((o, r))
            s = s2
        out.append(p)
    return out


def group(s):
    return (1 if s["mode"] == "plain" else 0) + (2 if s["fall"] else 0)


def run(prop):
    check = Check(prop, "model_checking")
    check.cov.update(replay(check, prop, random.Random(SEED), structs()))
    check.assumptions = ["single-threaded use of the handles", "objects are made by new() and build() (not by cloning the struct value or by Default::default())"]
    return check.finish()


def replay(check, prop, rnd, ss, name="rccrate", features=("sync", "async")):
    """FxRc's behaviours replayed into the code; returns what that covered"""
    H, W, O = (3, 1, 2) if QUICK or name != "rccrate" else (3, 2, 2)
    nb = min(6, len(ss))
    bins = {}
    for b in range(nb):
        mine = ss[b::nb]
        src = ["#![allow(warnings)]", "use fieldx::fxstruct;", "use seq::*;", "use std::sync::atomic::Ordering::SeqCst;", "const NH: usize = %d;" % H]
        src += [STRUCT % s for s in mine]
        src.append("fn main() { drive(&std::env::args().nth(1).unwrap(), &[%s]); }" % ", ".join(
            'Cfg { id: "%d", group: %d, md: &[1], run: m%d::run }' % (s["id"], group(s), s["id"]) for s in mine))
        bins["b%d" % b] = "\n".join(src)
    root = make_crate(name, LIB, bins, features)
    with ThreadPoolExecutor(2) as ex:
        fut = ex.submit(Lts, H, W, O)
        built = build_crate(check, root, prop)
        lts = fut.result()
    note("built; LTS: %d states, %d transitions" % (lts.distinct, lts.transitions))
    sample = []
    for g in range(4):
        ps = paths(lts, {o for o, x in ((9, g & 1), (10, not g & 2)) if x}, rnd, 4 if QUICK else 5, 1000 if QUICK else 20000, 40)
        with open(path("paths", "g%d.txt" % g), "w") as o:
            for p in ps:
                o.write("0;%s\n" % " ".join("%d:%s" % x for x in p))
        sample.append(rnd.choice(ps))
    replayed = steps = 0
    if built:
        by_id = {str(s["id"]): s for s in ss}
        names = {v: k for k, v in CODE.items()}
        with ThreadPoolExecutor(CORES) as ex:
            for b, p in zip(bins, ex.map(lambda b: subprocess.run(
                    [path("target", "debug", b), os.path.dirname(path("paths", "x"))], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    text=True, timeout=800), bins)):
                if p.returncode != 0:
                    check.violate("crash", "replay process died with %s: %s" % (p.returncode, p.stderr[-500:]), {"bin": b})
                for line in p.stdout.splitlines():
                    d = json.loads(line)
                    if "bad" in d and isinstance(d["bad"], str):
                        s = by_id[d["bad"]]
                        i = next((j for j, (x, y) in enumerate(zip(d["expected"], d["got"])) if x != y), len(d["got"]) - 1)
                        ops = ["%s %d %d" % (names[o // 100], o // 10 % 10, o % 10) for o in d["ops"]]
                        check.violate("replay", "fxstruct(%s): after %s, %s gave %s, FxRc says %s" % (
                            s["attrs"], ops[:i], ops[i], d["got"][-1], d["expected"][i]),
                            {"struct": STRUCT % s, "calls": ops, "expected": d["expected"], "got": d["got"]})
                    else:
                        replayed += d["paths"]
                        steps += d["steps"]
    return {"states": lts.distinct, "transitions": lts.transitions, "traces_validated_against_impl": replayed,
            "calls_replayed": steps, "struct_configurations": len(ss), "handles": H, "weak_handles": W, "objects": O, "samples": sample}
