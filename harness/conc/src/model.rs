//! Values, the per-execution environment and the uniform interface of objects under test.
use std::cell::Cell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// A field value with an identity. Cloning and comparing are scheduling points.
#[derive(Debug, Copy)]
pub struct V(pub u32);
impl Clone for V {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        let v = self.0;
        sched::yield_now();
        V(v)
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        let a = self.0;
        sched::yield_now();
        a == o.0
    }
}
impl Eq for V {}
impl Default for V {
    fn default() -> Self {
        V(0)
    }
}

/// What setters with `into` are given. The conversion is a scheduling point, wherever the setter runs it.
pub struct In(pub u32);
impl From<In> for V {
    fn from(i: In) -> V {
        sched::yield_now();
        V(i.0)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct E(pub u32);

/// What the k-th builder invocation of an execution does.
#[derive(Clone, Copy, Debug, Default)]
pub struct BPlan {
    pub outcome: u8, // 0 value, 1 error (panic if infallible), 2 panic
    pub pauses: u8,
}

#[derive(Default)]
pub struct Env {
    pub plans: Vec<BPlan>,
    pub nest: bool,
    pub fields: usize,
    pub invoked: AtomicU32,
    pub ids: AtomicU32,
    /// address of an object -> instance number
    pub insts: Mutex<HashMap<usize, usize>>,
}

impl Env {
    pub fn fresh(&self) -> u32 {
        self.ids.fetch_add(1, SeqCst) + 1
    }

    pub fn plan(&self) -> BPlan {
        let k = self.invoked.fetch_add(1, SeqCst) as usize;
        self.plans.get(k).copied().unwrap_or_default()
    }

    pub fn inst_of(&self, addr: usize) -> usize {
        self.insts.lock().unwrap().get(&addr).copied().unwrap_or(99)
    }
}

#[derive(Clone, Default)]
pub struct EnvRef(pub Arc<Env>);
impl PartialEq for EnvRef {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for EnvRef {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    GetC = 1,
    Rd,
    GetM,
    Set,
    Clr,
    Has,
    Wr,
    Gr,
    Gw,
    Gst,
    Gcl,
    Drop,
    Clone,
    Eq,
}

pub const OPN: [&str; 15] = [
    "", "getc", "rd", "getm", "set", "clr", "has", "wr", "gr", "gw", "gst", "gcl", "drop", "clone", "eq",
];

/// A guard held by a thread.
pub trait Grd {
    fn read(&self) -> u32;
    fn write(&mut self, _v: V) -> u32 {
        unreachable!()
    }
    fn store(&mut self, _v: V) -> u32 {
        unreachable!()
    }
    fn clear(&mut self) -> u32 {
        unreachable!()
    }
}

pub enum R<'a> {
    Unit,
    Val(u32),
    Bool(bool),
    Err(u32),
    G(Box<dyn Grd + 'a>),
}

pub type Fut<'a> = Pin<Box<dyn Future<Output = R<'a>> + 'a>>;

pub trait Obj: Send + Sync {
    fn call<'a>(&'a self, f: usize, op: Op, v: u32) -> R<'a>;
    fn call_async<'a>(&'a self, f: usize, op: Op, v: u32) -> Fut<'a>;
    fn clone_obj(&self) -> (Box<dyn Obj>, usize);
    fn eq_obj(&self, o: &dyn Obj) -> bool;
    fn any(&self) -> &dyn std::any::Any;
}

pub fn ov(o: Option<V>) -> u32 {
    o.map_or(0, |v| v.0)
}

/// Logs the start of a builder, its end, and its unwinding.
pub struct BLog {
    c: i64,
    armed: Cell<bool>,
}

pub fn t() -> i64 {
    sched::me().unwrap_or(90) as i64
}

impl BLog {
    pub fn begin(env: &Env, addr: usize, f: usize) -> BLog {
        let c = (env.inst_of(addr) * env.fields + f) as i64;
        sched::log("bb", [t(), c, 0, 0, 0, 0]);
        BLog {
            c,
            armed: Cell::new(true),
        }
    }

    pub fn end(&self, rk: i64, r: u32) {
        self.armed.set(false);
        sched::log("be", [t(), self.c, rk, r as i64, 0, 0]);
    }
}
impl Drop for BLog {
    fn drop(&mut self) {
        if self.armed.get() && std::thread::panicking() {
            sched::log("be", [t(), self.c, 3, 0, 0, 0]);
        }
    }
}

pub struct Boom;

pub fn inv(op: Op, c: usize, a: u32, d: i64) {
    sched::log("inv", [t(), op as i64, c as i64, a as i64, d, 0]);
}
pub fn res(rk: i64, r: u32) {
    sched::log("res", [t(), rk, r as i64, 0, 0, 0]);
}

/// Body of every sync lazy builder.
pub fn run_builder(env: &Env, addr: usize, f: usize, nested: impl FnOnce() -> Result<u32, u32>) -> Result<V, E> {
    let b = BLog::begin(env, addr, f);
    let p = env.plan();
    for _ in 0..=p.pauses {
        sched::yield_now();
    }
    if env.nest && f == 0 {
        let c = env.inst_of(addr) * env.fields + 2;
        inv(Op::GetC, c, 0, 0);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(nested)) {
            Ok(Ok(v)) => res(1, v),
            Ok(Err(e)) => {
                res(2, e);
                b.end(2, e);
                return Err(E(e));
            }
            Err(x) => {
                res(3, 0);
                b.end(3, 0);
                std::panic::resume_unwind(x);
            }
        }
    }
    match p.outcome {
        0 => {
            let v = env.fresh();
            b.end(1, v);
            Ok(V(v))
        }
        1 => {
            let e = env.fresh();
            b.end(2, e);
            Err(E(e))
        }
        _ => std::panic::resume_unwind(Box::new(Boom)),
    }
}

/// Body of every async lazy builder.
pub async fn run_builder_async(
    env: &Env,
    addr: usize,
    f: usize,
    nested: impl Future<Output = Result<u32, u32>>,
) -> Result<V, E> {
    let b = BLog::begin(env, addr, f);
    let p = env.plan();
    for _ in 0..p.pauses {
        sched::rt::pause().await;
    }
    sched::yield_now();
    if env.nest && f == 0 {
        let c = env.inst_of(addr) * env.fields + 2;
        inv(Op::GetC, c, 0, 0);
        match CatchUnwind(Box::pin(nested)).await {
            Ok(Ok(v)) => res(1, v),
            Ok(Err(e)) => {
                res(2, e);
                b.end(2, e);
                return Err(E(e));
            }
            Err(x) => {
                res(3, 0);
                b.end(3, 0);
                std::panic::resume_unwind(x);
            }
        }
    }
    match p.outcome {
        0 => {
            let v = env.fresh();
            b.end(1, v);
            Ok(V(v))
        }
        1 => {
            let e = env.fresh();
            b.end(2, e);
            Err(E(e))
        }
        _ => std::panic::resume_unwind(Box::new(Boom)),
    }
}

pub struct CatchUnwind<F>(pub Pin<Box<F>>);
impl<F: Future> Future for CatchUnwind<F> {
    type Output = Result<F::Output, Box<dyn std::any::Any + Send>>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        let f = &mut self.0;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx))) {
            Ok(std::task::Poll::Ready(v)) => std::task::Poll::Ready(Ok(v)),
            Ok(std::task::Poll::Pending) => std::task::Poll::Pending,
            Err(e) => std::task::Poll::Ready(Err(e)),
        }
    }
}
