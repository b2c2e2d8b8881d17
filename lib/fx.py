"""Generation of Rust structs that use fieldx, from field descriptions, and of the code that drives their helpers."""
import json, random, re, zlib

NAMES = "abcdefgh"

PRELUDE = r'''
#![allow(warnings)]
use std::cell::RefCell as StdRefCell;
use std::collections::HashMap;
use std::future::Future;

pub trait Val: Sized { fn mk(n: i64) -> Self; fn num(&self) -> i64; }
impl Val for i32 { fn mk(n: i64) -> Self { n as i32 } fn num(&self) -> i64 { *self as i64 } }
impl Val for String {
    fn mk(n: i64) -> Self { n.to_string() }
    fn num(&self) -> i64 { if self.is_empty() { 0 } else { self.parse().unwrap_or(-77) } }
}
/// neither Copy nor Clone
#[derive(Debug, Default, PartialEq)] pub struct Nc(pub i64);
impl Val for Nc { fn mk(n: i64) -> Self { Nc(n) } fn num(&self) -> i64 { self.0 } }
/// Clone
#[derive(Debug, Default, PartialEq, Clone)] pub struct Cl(pub i64);
impl Val for Cl { fn mk(n: i64) -> Self { Cl(n) } fn num(&self) -> i64 { self.0 } }
/// Its Default is not zero, and it is made by Into
#[derive(Debug, PartialEq, Clone, Copy)] pub struct Cp(pub i64);
impl Default for Cp { fn default() -> Self { Cp(4) } }
impl Val for Cp { fn mk(n: i64) -> Self { Cp(n) } fn num(&self) -> i64 { self.0 } }
pub struct Src(pub i64);
/// conversions of it fail
pub const BAD: i64 = -77;
impl Src { pub fn get(&self) -> i64 { if self.0 == BAD { panic!("no conversion") } self.0 } }
impl Val for i64 { fn mk(n: i64) -> Self { n } fn num(&self) -> i64 { *self } }
impl Val for u16 { fn mk(n: i64) -> Self { n as u16 } fn num(&self) -> i64 { *self as i64 } }
impl Val for Vec<i64> { fn mk(n: i64) -> Self { vec![n, n] } fn num(&self) -> i64 { if self.is_empty() { 0 } else if self.len() == 2 && self[0] == self[1] { self[0] } else { -77 } } }
impl Val for Box<i64> { fn mk(n: i64) -> Self { Box::new(n) } fn num(&self) -> i64 { **self } }
impl Val for (i64, String) {
    fn mk(n: i64) -> Self { (n, n.to_string()) }
    fn num(&self) -> i64 { if self.1.is_empty() && self.0 == 0 || self.1 == self.0.to_string() { self.0 } else { -77 } }
}
impl Val for Option<i64> { fn mk(n: i64) -> Self { Some(n) } fn num(&self) -> i64 { self.unwrap_or(0) } }
impl Val for [i64; 3] { fn mk(n: i64) -> Self { [n; 3] } fn num(&self) -> i64 { if self[0] == self[2] { self[1] } else { -77 } } }
impl From<Src> for Nc { fn from(s: Src) -> Self { Nc(s.get()) } }
impl From<Src> for Cl { fn from(s: Src) -> Self { Cl(s.get()) } }
impl From<Src> for Cp { fn from(s: Src) -> Self { Cp(s.get()) } }
impl From<Src> for String { fn from(s: Src) -> Self { s.get().to_string() } }
impl From<Src> for Vec<i64> { fn from(s: Src) -> Self { Val::mk(s.get()) } }
impl From<Src> for Box<i64> { fn from(s: Src) -> Self { Val::mk(s.get()) } }
impl From<Src> for (i64, String) { fn from(s: Src) -> Self { Val::mk(s.get()) } }

pub fn mk<T: Val>(n: i64) -> T { T::mk(n) }
pub fn mk_string(n: i64) -> String { n.to_string() }
pub fn text() -> &'static str { "text" }
pub fn mk_vec(n: i64) -> Vec<i64> { mk(n) }
pub fn mk_box(n: i64) -> Box<i64> { mk(n) }
pub fn mk_pair(n: i64) -> (i64, String) { mk(n) }
pub fn mk_arr(n: i64) -> [i64; 3] { mk(n) }
impl Nc { pub fn make(n: i64) -> Self { Nc(n) } }
pub fn n<T: Val>(x: &T) -> i64 { x.num() }
pub fn rv<T: Val>(x: &T) -> String { format!("v{}", x.num()) }
pub fn ro<T: Val>(x: Option<&T>) -> String { match x { Some(x) => rv(x), None => "n".into() } }
pub fn rb(x: bool) -> String { (if x { "t" } else { "f" }).into() }
pub fn re(e: E) -> String { format!("e{}", e.0) }
#[derive(Debug, PartialEq, Clone)] pub struct E(pub i64);

#[derive(Default)] pub struct Env { pub nb: Vec<i64>, pub plan: Vec<u8>, pub log: Vec<usize>, pub md: Vec<i64> }
thread_local! { pub static ENV: StdRefCell<Env> = StdRefCell::new(Env::default()); }
pub fn env_reset(md: &[i64]) {
    ENV.with(|e| *e.borrow_mut() = Env { nb: vec![0; md.len()], plan: vec![0; md.len()], log: vec![], md: md.to_vec() })
}
pub fn env_plan(f: usize, p: u8) -> String { ENV.with(|e| e.borrow_mut().plan[f - 1] = p); "u".into() }
pub fn env_log() -> String {
    ENV.with(|e| { let l = std::mem::take(&mut e.borrow_mut().log); l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+") })
}
/// The builder of field f was invoked.
pub fn bs(f: usize) -> Result<i64, E> {
    let (k, p) = ENV.with(|e| {
        let mut e = e.borrow_mut();
        let k = e.nb[f - 1];
        e.nb[f - 1] = (k + 1) % e.md[f - 1];
        e.log.push(f);
        let p = e.plan[f - 1];
        e.plan[f - 1] = 0;
        (k, p)
    });
    match p { 1 => Err(E(70 + k)), 2 => panic!("planned"), _ => Ok(k) }
}
pub fn bsi(f: usize) -> i64 { bs(f).unwrap() }

fn noop() -> std::task::Waker {
    use std::task::*;
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// Nothing here ever has a reason to wait.
pub fn bo<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = noop();
    let mut cx = std::task::Context::from_waker(&w);
    for _ in 0..1000 {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
    }
    panic!("pending for ever");
}

pub struct Cfg {
    pub id: &'static str,
    pub group: usize,
    pub md: &'static [i64],
    /// run one path: constructor, operations -> results
    pub run: fn(usize, &[usize], &mut dyn FnMut(usize, String) -> bool),
}

pub fn guarded(f: impl FnOnce() -> String) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(_) => "p".into(),
    }
}

/// Files g<group>.txt: lines `ctor;op:expected op:expected ...`
pub fn drive(dir: &str, cfgs: &[Cfg]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut files: HashMap<usize, Vec<(usize, Vec<usize>, Vec<String>)>> = HashMap::new();
    for c in cfgs {
        let paths = files.entry(c.group).or_insert_with(|| {
            std::fs::read_to_string(format!("{dir}/g{}.txt", c.group)).unwrap().lines().map(|l| {
                let (k, rest) = l.split_once(';').unwrap();
                let mut ops = vec![];
                let mut exp = vec![];
                for x in rest.split(' ') {
                    let (o, e) = x.split_once(':').unwrap();
                    ops.push(o.parse().unwrap());
                    exp.push(e.to_string());
                }
                (k.parse().unwrap(), ops, exp)
            }).collect()
        });
        let (mut bad, mut steps, mut digest) = (0, 0u64, 0xcbf29ce484222325u64);
        for (k, ops, exp) in paths.iter() {
            env_reset(c.md);
            let mut got: Vec<String> = vec![];
            let mut ok = true;
            (c.run)(*k, ops, &mut |i, r| {
                let r = format!("{}/{}", r, env_log());
                for b in r.bytes() { digest = (digest ^ b as u64).wrapping_mul(0x100000001b3); }
                steps += 1;
                if r != exp[i] { ok = false; }
                got.push(r);
                ok
            });
            if !ok || got.len() != ops.len() {
                bad += 1;
                if bad <= 3 {
                    println!("{{\"bad\":\"{}\",\"ctor\":{},\"ops\":{:?},\"expected\":{:?},\"got\":{:?}}}", c.id, k, ops, &exp[..got.len().min(exp.len())], got);
                }
            }
        }
        println!("{{\"cfg\":\"{}\",\"paths\":{},\"steps\":{},\"bad\":{},\"digest\":\"{:016x}\"}}", c.id, paths.len(), steps, bad, digest);
    }
}
'''


NAMESETS = [list(NAMES), ["first_one", "second", "n3", "f4th", "five", "x6", "seventh_field", "eight"],
            ["_a", "__b_", "c_1", "d_", "_e_e", "f__", "_7", "h"], ["r#type", "r#fn", "value", "r#match", "r#struct", "r#let", "r#use", "r#where"],
            ["value", "wlock", "me", "rlock", "shadow", "guard", "owner", "builder_"],
            ["get_a", "set_b", "build_c", "clear_d", "has_e", "read_f", "write_g", "h_mut"]]
COPY = {"i32", "u16", "i64", "Cp", "[i64; 3]"}
SUBST = {"i32": ["i32", "i32", "i64", "u16", "[i64; 3]"], "String": ["String", "String", "Vec<i64>", "(i64, String)", "Box<i64>"]}
MAKERS = {"Vec<i64>": "mk_vec", "Box<i64>": "mk_box", "(i64, String)": "mk_pair", "[i64; 3]": "mk_arr"}
HOIST = {"get", "get(copy)", "get(clone)", "get(as_ref)", "get_mut", "set", "lazy", "fallible(error(E))", "clearer", "predicate", "reader", "writer", "inner_mut"}


class Fld:
    """One field of a struct. mode: plain, sync, async (of the field)."""

    def __init__(self, kind, ty="i32", get="ref", fall=False, dflt=None, dep=0, into=False, inner=False, lock=True,
                 extra=(), dform=None, spell=0):
        self.kind, self.ty, self.get, self.fall, self.dflt, self.dep = kind, ty, get, fall, dflt, dep
        self.into, self.inner, self.lock, self.extra, self.dform, self.spell = into, inner, lock, extra, dform, spell

    # -- abstract side ------------------------------------------------------------------------------
    def abstract(self):
        return {"k": self.kind, "fall": bool(self.fall), "def": -1 if self.dflt is None else self.dflt,
                "tdef": {"Cp": 4}.get(self.ty, 0), "dep": self.dep}

    def md(self):
        return 3 if self.dep == 0 else 2

    # -- concrete side ------------------------------------------------------------------------------
    def mname(self):
        """the name helper methods are made of"""
        return getattr(self, "mn", self.base)

    def acc(self):
        """the name of the accessor, and of the builder setter"""
        return getattr(self, "mn", self.n)

    def dty(self):
        """the type as the declaration has it"""
        return getattr(self, "tparam", None) or self.ty

    def rename_to(self, n):
        self.n, self.base = n, n.replace("r#", "")

    def bind(self, st, i):
        self.st, self.i, self.n, self.f = st, i, NAMES[i], i + 1
        self.base = self.n
        self.hoisted, self.shuffle = (), None
        self.mode = st.mode
        self.locked = self.mode != "plain" and (self.kind == "lazy" or self.lock)
        self.isasync = self.mode == "async" and self.locked
        self.shared = self.inner or self.locked
        return self

    def default_src(self):
        v = self.dflt
        if getattr(self, "tparam", None):
            return "%s::mk(%d)" % (self.tparam, v)
        if self.dform:
            return self.dform.format(v=v)
        form = zlib.crc32(("%s %s %s %s" % (self.n, self.kind, self.spell, self.shuffle)).encode()) % 6
        if form > 1 and 0 <= v <= 9:     # in terms of the struct
            own = "Self::L%d" % v
            if self.ty == "i32":
                return ["Self::K%d" % v, "i32::max(Self::K%d, 0)" % v, "i32::from([0u8, Self::own(%du8)][1])" % v, "i32::abs({ let n = Self::K%d; n })" % v][form - 2]
            if self.ty in ("Nc", "Cl", "Cp"):
                return ["%s { 0: %s }", "%s(%s)", "%s { 0: { let n = %s; n } }", "%s([%s][0])"][form - 2] % (self.ty, own)
            if self.ty == "String":
                return ["mk_string(%s)", "String::from(Self::own(mk_string(%s)))", "mk_string([%s][0])", "mk_string({ %s })"][form - 2] % own
        if self.ty in ("i64", "u16"):
            return "%d" % v
        if self.ty in MAKERS:
            return "%s(%d)" % (MAKERS[self.ty], v)
        return {"i32": "%d" % v, "String": '"%d"' % v}.get(self.ty, "D%s%d" % (self.ty.upper(), v))

    def needs_into(self):
        return self.into

    def args(self):
        a = list(self.extra)
        if hasattr(self, "mn") and not hasattr(self, "rename"):
            a.append('rename("%s")' % self.mn)
        mode = {"ref": "get", "copy": "get(copy)", "clone": "get(clone)", "as_ref": "get(as_ref)"}[self.get]
        if self.spell & 1 and self.get in ("copy", "clone"):
            a += ["get", self.get]
        else:
            a.append(mode)
        a.append("get_mut")
        a.append("set(into)" if self.into and not self.spell & 2 else "set")
        if self.into and self.spell & 2:
            a.append("into")
        if self.kind == "lazy":
            a.append("lazy")
            if self.fall:
                a.append("fallible(error(E))")
        if self.kind in ("lazy", "opt"):
            a += ["clearer", "predicate"]
        if self.kind == "opt" and self.spell & 4:
            a.append("optional")
        if self.inner:
            a.append("inner_mut")
        if self.mode != "plain" and self.kind != "lazy":
            if self.lock:
                a += ["reader", "writer"]
            elif self.kind == "opt":
                a += [self.mode if self.mode == "sync" else "r#async", "lock(off)"]
        elif self.locked:
            a += ["reader", "writer"]
        if self.dflt is not None:
            a.append("default(%s)" % self.default_src())
        return a

    def text(self, args):
        """the field as declared, with these arguments"""
        a = [x for x in args if x not in self.hoisted]
        if self.shuffle is not None:
            random.Random(self.shuffle).shuffle(a)
        attr = "    #[fieldx(%s)]\n" % ", ".join(a) if a else ""
        if self.shuffle and self.shuffle % 5 == 0:
            attr = "    /// Documented.\n" + attr
        return attr + "    %s%s: %s," % ("pub " if self.shuffle and self.shuffle % 7 == 0 else "", self.n, self.dty())

    def decl(self):
        return self.text(self.args())

    def access_num(self):
        """numeric value of the field through its getter, inside a builder"""
        e = "self.%s()" % self.acc()
        if self.isasync:
            e += ".await"
        if self.fall:
            e += "?"
        if self.get in ("copy", "clone"):
            return "n::<%s>(&%s)" % (self.dty(), e)
        if self.locked or self.inner:
            return "n::<%s>(&*%s)" % (self.dty(), e)
        return "n::<%s>(%s)" % (self.dty(), e)

    def builder_fn(self):
        if self.kind != "lazy":
            return ""
        asy = "async " if self.isasync else ""
        ret = "Result<%s, E>" % self.dty() if self.fall else self.dty()
        b = "bs(%d)?" % self.f if self.fall else "bsi(%d)" % self.f
        if self.dep:
            d = self.st.fields[self.dep - 1].access_num()
            v = "%d + 500 * k + %s" % (1000 * self.f, d)
        else:
            v = "%d + k" % (10 * self.f)
        r = "mk(%s)" % v
        if self.fall:
            r = "Ok(%s)" % r
        return "    %sfn build_%s(&self) -> %s { let k = %s; %s }" % (asy, self.mname(), ret, b, r)

    def wrap(self, call):
        return "bo(%s)" % call if self.isasync else call

    def op(self, o, a, inside=False):
        """Rust expression of type String performing the operation on `o`."""
        T, nm, acc = self.dty() if inside else self.ty, self.mname(), self.acc()
        OT = "Option<%s>" % T
        w = self.wrap
        val = "Src(%d)" % a if self.into and a is not None else "mk::<%s>(%s)" % (T, a)

        def fallible(call, body):
            if self.fall:
                return "match %s { Ok(x) => { %s } Err(e) => re(e) }" % (call, body)
            return "{ let x = %s; %s }" % (call, body)
        if o in ("get", "rd"):
            call = w("o.%s()" % (acc if o == "get" else "read_" + nm))
            if o == "rd" or (self.get not in ("copy", "clone") and (self.locked or self.inner)):
                if self.kind == "opt":
                    return fallible(call, "let y: &%s = &*x; ro(y.as_ref())" % OT)
                return fallible(call, "let y: &%s = &*x; rv(y)" % T)
            if self.get in ("copy", "clone"):
                if self.kind == "opt":
                    return fallible(call, "let y: %s = x; ro(y.as_ref())" % OT)
                return fallible(call, "let y: %s = x; rv(&y)" % T)
            if self.kind == "opt":
                if self.get == "as_ref":
                    return fallible(call, "let y: Option<&%s> = x; ro(y)" % T)
                return fallible(call, "let y: &%s = x; ro(y.as_ref())" % OT)
            return fallible(call, "let y: &%s = x; rv(y)" % T)
        if o in ("gm", "gmw"):
            call = w("o.%s_mut()" % nm)
            if self.kind == "opt":
                return "{ let mut x = %s; let y: &mut %s = &mut *x; match y { Some(z) => { let r = rv(z); %s r } None => \"n\".into() } }" % (
                    call, OT, "*z = mk(%s);" % a if o == "gmw" else "")
            body = "let mut x = x; let y: &mut %s = &mut *x; let r = rv(y); %s r" % (T, "*y = mk(%s);" % a if o == "gmw" else "")
            return fallible(call, body)
        if o in ("gms", "gmn"):
            call = w("o.%s_mut()" % nm)
            new = "Some(mk(%s))" % a if o == "gms" else "None"
            return "{ let mut x = %s; let y: &mut %s = &mut *x; let r = ro(y.as_ref()); *y = %s; r }" % (call, OT, new)
        if o in ("set", "setp"):
            call = w("o.set_%s(%s)" % (nm, "Src(BAD)" if o == "setp" else val))
            if self.kind == "cell":
                return "{ let y: %s = %s; rv(&y) }" % (T, call)
            return "{ let y: %s = %s; ro(y.as_ref()) }" % (OT, call)
        if o == "clr":
            return "{ let y: %s = %s; ro(y.as_ref()) }" % (OT, w("o.clear_%s()" % nm))
        if o == "has":
            c = "o.has_%s()" % nm
            return "rb(%s)" % (c if self.kind == "lazy" else w(c))
        if o in ("wrst", "wrclr"):
            call = w("o.write_%s()" % nm)
            if self.kind == "lazy":
                m = "x.store(mk(%s))" % a if o == "wrst" else "x.clear()"
                return "{ let mut x = %s; let y: %s = %s; ro(y.as_ref()) }" % (call, OT, m)
            if self.kind == "opt":
                new = "Some(mk(%s))" % a if o == "wrst" else "None"
                return "{ let mut x = %s; let y: &mut %s = &mut *x; let r = ro(y.as_ref()); *y = %s; r }" % (call, OT, new)
            return "{ let mut x = %s; let y: &mut %s = &mut *x; let r = rv(y); *y = mk(%s); r }" % (call, T, a)
        if o == "cln":
            # a clone is made and compared, then the original changes; it is the clone that goes on
            return "{ let c = obj.clone(); let a = c == obj && obj == c && obj == obj; { %s let _ = %s; } let b = c == obj || obj == c; obj = c; format!(\"v{}\", 10 * a as i64 + b as i64) }" % (
                "let o = &obj;" if self.shared else "let o = &mut obj;", self.op("set", a))
        if o == "err":
            return "env_plan(%d, 1)" % self.f
        if o == "pan":
            return "env_plan(%d, 2)" % self.f
        raise KeyError(o)

    def ops(self):
        """operations the field understands in this mode: (name, argument)"""
        out = []
        if self.kind == "lazy":
            out = [("get", 0), ("gm", 0), ("gmw", 3), ("set", 1), ("setp", 0), ("clr", 0), ("has", 0)]
            if self.locked:
                out += [("rd", 0), ("wrst", 2), ("wrclr", 0)]
            if self.fall:
                out += [("err", 0)]
            out += [("pan", 0)]
        elif self.kind == "opt":
            out = [("get", 0), ("gm", 0), ("gmw", 3), ("gms", 2), ("gmn", 0), ("set", 1), ("setp", 0), ("clr", 0), ("has", 0)]
            if self.locked:
                out += [("rd", 0), ("wrst", 2), ("wrclr", 0)]
        else:
            out = [("get", 0), ("gm", 0), ("gmw", 3), ("set", 1), ("setp", 0)]
            if self.locked:
                out += [("rd", 0), ("wrst", 2)]
        if self.st.clones():
            out += [("cln", 6)]
        return [x for x in out if x[0] != "setp" or self.into]

    ALL_OPS = {
        "lazy": [("get", 0), ("gm", 0), ("gmw", 3), ("set", 1), ("setp", 0), ("clr", 0), ("has", 0), ("rd", 0), ("wrst", 2), ("wrclr", 0), ("err", 0), ("pan", 0)],
        "opt": [("get", 0), ("gm", 0), ("gmw", 3), ("gms", 2), ("gmn", 0), ("set", 1), ("setp", 0), ("clr", 0), ("has", 0), ("rd", 0), ("wrst", 2), ("wrclr", 0)],
        "cell": [("get", 0), ("gm", 0), ("gmw", 3), ("set", 1), ("setp", 0), ("rd", 0), ("wrst", 2)],
    }


class WithBuilder:
    pass


class Struct:
    """mode: plain, sync, async. routes: list of (given per field or None, constructor)"""

    def __init__(self, cid, mode, fields, routes, attrs=(), only=None, family=None):
        self.id, self.mode, self.attrs, self.only, self.family = cid, mode, list(attrs), only, family
        self.fields = fields
        for i, f in enumerate(fields):
            f.bind(self, i)
        # (given values, how) with how in new, default, build
        self.routes = routes
        self.gen, self.noise, self.up = None, {}, []

    def decorate(self, rnd, names=True, types=True, gens=True, hoist=True, noise=True, setter=lambda f: True):
        """Variations of the declaration that change nothing about what the helpers do."""
        fs = self.fields
        real = [f for f in fs if f.kind != "skip"]
        if names and rnd.random() < 0.7:
            ns = rnd.choice(NAMESETS)
            for i, f in enumerate(fs):
                f.rename_to(ns[i])
        for i, f in enumerate(real):
            if names and not hasattr(f, "rename") and rnd.random() < 0.2:
                f.mn = rnd.choice(["q%d", "other_%d", "q%dX"]) % i
            f.shuffle = rnd.randrange(1, 1000)
            if types and not f.dform and f.ty in SUBST and not getattr(f, "gen", False):
                f.ty = rnd.choice([t for t in SUBST[f.ty] if (f.get != "copy" or t in COPY) and (not f.needs_into() or t not in ("i64", "u16", "[i64; 3]"))])
        g = None
        if gens and rnd.random() < 0.35:
            cand = [f for f in real if setter(f) and not f.dform]
            params, use, inst, where = [], [], [], []
            if not self.has_async() and rnd.random() < 0.4:
                params.append("'l"), use.append("'l"), inst.append("'static")
            if cand:
                f = rnd.choice(cand)
                f.tparam = rnd.choice(["T", "Tt", "S", "V"])
                bounds = ["Val", "Default"]
                if f.ty in COPY and f.get == "copy":
                    bounds.append("Copy")
                if f.get in ("copy", "clone") or self.clones():
                    bounds.append("Clone")
                if self.cl:
                    bounds.append("PartialEq")
                if self.has_async():
                    bounds += ["Send", "Sync", "'static"]
                elif self.mode != "plain" and rnd.random() < 0.5:
                    bounds += ["Send", "Sync"]
                if f.needs_into():
                    bounds.append("From<Src>")
                n = rnd.randrange(len(bounds) + 1)
                params.append(f.tparam + (": " + " + ".join(bounds[:n]) if n else ""))
                if n < len(bounds):
                    where.append("%s: %s" % (f.tparam, " + ".join(bounds[n:])))
                use.append(f.tparam), inst.append(f.ty)
            if rnd.random() < 0.4:
                params.append("const N: usize"), use.append("N"), inst.append("3")
            if params:
                g = dict(params=params, use=use, inst=inst, where=where)
        self.gen = g
        if hoist and not (g and "'l" in g["params"]) and rnd.random() < 0.4:
            common = set(real[0].args()) & HOIST if real else set()
            for f in real:
                common &= set(f.args())
            lifted = [x for x in sorted(common) if rnd.random() < 0.6]
            if "get" in common and any("copy" in f.args() or "clone" in f.args() for f in real):
                lifted = [x for x in lifted if x != "get"]
            for f in real:
                f.hoisted = set(lifted)
            self.up = lifted
        if noise:
            builder = any(h == "build" for _, h in self.routes) or isinstance(self, WithBuilder)
            for i in range(len(fs) + 1):
                if rnd.random() < 0.2:
                    self.noise[i] = self.noise_field(rnd, i, builder)
            if g and "'l" in g["params"] and 0 not in self.noise:
                self.noise[0] = self.noise_field(rnd, 0, builder, True)
            elif g and "'l" in g["params"]:
                self.noise[0] += "\n" + self.noise_field(rnd, 99, builder, True)
        elif g and "'l" in g["params"]:
            self.noise[0] = self.noise_field(rnd, 0, True, True)
        if rnd.random() < 0.15:
            self.mac = rnd.randrange(1, 1000)
        return self

    def noise_field(self, rnd, i, builder, lt=False):
        """a field nobody asks anything"""
        if lt:
            off = ["builder(required(off))"] if builder else []
            return "    #[fieldx(%s)]\n    nz%d: &'l str," % (", ".join(['default(text())'] + off), i)
        k = rnd.randrange(5)
        if self.up or k < 2:
            return "    #[fieldx(skip%s)]\n    nz%d: i32," % (", default(3)" if k else "", i)
        off = ["builder(off)"] if builder else []
        if k == 2:
            return "    #[fieldx(%s)]\n    nz%d: Vec<String>," % (", ".join(["optional", "get", "predicate"] + off), i)
        if k == 3:
            return "    #[fieldx(%s)]\n    nz%d: String," % (", ".join(["get", "default(\"noise\")"] + off), i)
        return "    #[fieldx(%s)]\n    nz%d: %s," % (", ".join(["get", "get_mut"] + off), i, "Cl" if self.cl else "Nc")

    def has_async(self):
        return self.mode == "async"

    cl = False

    def clones(self):
        """may be cloned and compared"""
        return self.cl

    def members(self):
        out = []
        for i, f in enumerate(self.fields):
            if i in self.noise:
                out.append(self.noise[i])
            out.append(f.decl())
        if len(self.fields) in self.noise:
            out.append(self.noise[len(self.fields)])
        return out

    def own(self):
        """what default values may be written in terms of"""
        t = "".join(self.members())
        c = ["const L%d: i64 = %d; const K%d: i32 = %d;" % (n, n, n, n) for n in range(10) if "Self::L%d" % n in t or "Self::K%d" % n in t]
        return " ".join(c + ["fn own<Any>(v: Any) -> Any { v }"] if c or "Self::own" in t else [])

    def head(self, derive=""):
        """the struct, and the beginning of its impl block"""
        g = self.gen
        if not g:
            return ["pub struct %s {" % self.id] + self.members() + ["}"], "impl %s { %s" % (self.id, self.own())
        wh = " where " + ", ".join(g["where"]) if g["where"] else ""
        return (["pub struct %sg<%s>%s {" % (self.id, ", ".join(g["params"]), wh)] + self.members() + ["}"]
                + ["pub type %s = %sg<%s>;" % (self.id, self.id, ", ".join(g["inst"]))],
                "impl<%s> %sg<%s>%s { %s" % (", ".join(g["params"]), self.id, ", ".join(g["use"]), wh, self.own()))

    mac = 0

    def wrap(self, lines):
        """the declaration comes out of a macro, which is given some of its names, types and values"""
        if not self.mac:
            return lines
        rnd, params, given = random.Random(self.mac), [], []
        end = lines.index("}")
        body = []
        for line in lines[:end + 1]:
            parts = line.split("\n")
            m = re.match(r"(\s*(?:pub )?)((?:r#)?\w+): (.*),$", parts[-1])
            if m and line.startswith("    "):
                pre, n, t = m.groups()
                if rnd.random() < 0.6:
                    params.append("$n%d:ident" % len(params)), given.append(n)
                    n = "$n%d" % (len(params) - 1)
                if rnd.random() < 0.6:
                    params.append("$t%d:ty" % len(params)), given.append(t)
                    t = "$t%d" % (len(params) - 1)
                parts[-1] = "%s%s: %s," % (pre, n, t)
            body.append("\n".join(parts))
        if not params:
            return lines
        return (["macro_rules! decl_%s { (%s) => {" % (self.id, ", ".join(params))] + body + ["} }", "decl_%s!(%s);" % (self.id, ", ".join(given))] + lines[end + 1:])

    def template(self):
        fs = [f.abstract() for f in self.fields]
        ops = []
        for f in self.fields:
            for o, a in Fld.ALL_OPS[f.kind]:
                if (o == "err" and not f.fall) or (self.only and o not in self.only):
                    continue
                ops.append({"o": o, "f": f.f, "a": a})
            if self.cl:
                ops.append({"o": "cln", "f": f.f, "a": 6})
        return {"fields": fs, "ops": ops}

    def my_ops(self):
        t = self.template()["ops"]
        mine = {(f.f, o) for f in self.fields for o, _ in f.ops()}
        return [i for i, op in enumerate(t) if (op["f"], op["o"]) in mine and (not self.only or op["o"] in self.only)]

    def ctor(self, given, how):
        if how == "new":
            return "%s::new()" % self.id
        if how == "default":
            return "<%s as Default>::default()" % self.id
        calls = "".join(".%s(%s)" % (f.acc(), ("Src(%d)" if f.into and f.spell & 2 else "mk::<%s>(%%d)" % f.ty) % g)
                        for f, g in zip(self.fields, given) if g is not None)
        return "%s::builder()%s.build().unwrap()" % (self.id, calls)

    def rust(self, group):
        a = list(self.attrs)
        if self.mode == "sync":
            a.insert(0, "sync")
        elif self.mode == "async":
            a.insert(0, "r#async")
        if any(h == "build" for _, h in self.routes) and not any(x.startswith("builder") for x in a):
            a.append("builder")
        t = self.template()
        a += self.up
        h, im = self.head()
        out = ["#[fxstruct(%s)]" % ", ".join(a)] + (["#[derive(Clone, PartialEq)]"] if self.cl else []) + h
        out = self.wrap(out)
        out += [im] + [b for b in (f.builder_fn() for f in self.fields) if b] + ["}"]
        out.append("fn run_%s(k: usize, ops: &[usize], done: &mut dyn FnMut(usize, String) -> bool) {" % self.id)
        out.append("    let mut obj = match k {")
        for i, (g, h) in enumerate(self.routes):
            out.append("        %d => %s," % (i, self.ctor(g, h)))
        out.append("        _ => unreachable!(),\n    };")
        out.append("    for (i, op) in ops.iter().enumerate() {\n        let r = guarded(|| match op {")
        for i in self.my_ops():
            op = t["ops"][i]
            f = self.fields[op["f"] - 1]
            bind = "let o = &obj;" if f.shared else "let o = &mut obj;"
            if op["o"] in ("err", "pan", "cln"):
                bind = ""
            out.append("            %d => { %s %s }" % (i, bind, f.op(op["o"], op["a"])))
        out.append("            _ => unreachable!(),\n        });\n        if !done(i, r) { return; }\n    }\n}")
        return "\n".join(out)

    def entry(self, group):
        return 'Cfg { id: "%s", group: %d, md: &[%s], run: run_%s }' % (
            self.id, group, ", ".join(str(f.md()) for f in self.fields), self.id)


CONSTS = "\n".join("pub const D%s%d: %s = %s(%d);" % (t.upper(), v, t, t, v) for t in ("Nc", "Cl", "Cp") for v in (5, 8))
