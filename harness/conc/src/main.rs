//! Runs generated client programs against the real fieldx structs under the controlled scheduler and writes the
//! API-level traces (deduplicated) as ndjson.
mod model;
mod structs;
use model::*;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::Instant;
use structs::*;

#[derive(Clone, Copy, Debug)]
struct Step {
    op: Op,
    inst: usize,
    f: usize,
    /// clone: target instance, eq: other instance
    d: usize,
    cancel: Option<u32>,
}

#[derive(Clone, Debug, Default)]
struct Program {
    threads: Vec<Vec<Step>>,
    init: [u32; 3],
    plans: Vec<BPlan>,
    nest: bool,
    spurious: bool,
    second: bool,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n.max(1)
    }
    fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

// ---- program units --------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum U {
    GetC,
    Rd,
    GetMW,
    GetMR,
    Set,
    Clr,
    Has,
    WrSt,
    WrClr,
    WrStClr,
    WrClrSt,
    Wr0,
    Rd2,
    CloneHas,
    CloneGet,
    CloneClr,
    CloneSet,
    EqSelf,
    EqOther,
    EqRev,
    CloneEq,
}

struct Gen<'a> {
    rng: &'a mut Rng,
    next_inst: usize,
    lazy: bool,
    has_clr: bool,
}

fn st(op: Op, inst: usize, f: usize) -> Step {
    Step {
        op,
        inst,
        f,
        d: 0,
        cancel: None,
    }
}

impl Gen<'_> {
    fn unit(&mut self, u: U, inst: usize, f: usize, out: &mut Vec<Step>) {
        use Op::*;
        let lz = self.lazy;
        // b's plain getter is a guard
        let getc = if f == 1 { vec![Rd, Gr, Drop] } else { vec![GetC] };
        let mut new = || {
            let i = self.next_inst;
            self.next_inst += 1;
            i
        };
        let seq: Vec<Op> = match u {
            U::GetC => getc,
            U::Rd => vec![Rd, Gr, Drop],
            U::Rd2 => vec![Rd, Gr, Gr, Drop],
            U::GetMW => vec![GetM, Gw, Drop],
            U::GetMR => vec![GetM, Gr, Drop],
            U::Set => vec![Set],
            U::Clr if self.has_clr => vec![Clr],
            U::Clr => vec![Set],
            U::Has if self.has_clr => vec![Has],
            U::Has => getc,
            U::WrSt => vec![Wr, Gst, Drop],
            U::Wr0 => vec![Wr, Drop],
            U::WrClr if self.has_clr => vec![Wr, Gcl, Drop],
            U::WrStClr if self.has_clr => vec![Wr, Gst, Gcl, Drop],
            U::WrClrSt if self.has_clr => vec![Wr, Gcl, Gst, Drop],
            U::WrClr | U::WrStClr | U::WrClrSt => vec![Wr, Gst, Gst, Drop],
            U::CloneHas | U::CloneGet | U::CloneClr | U::CloneSet | U::CloneEq => {
                let n = new();
                if n > 3 {
                    return;
                }
                out.push(Step {
                    op: Clone,
                    inst,
                    f: 0,
                    d: n,
                    cancel: None,
                });
                let ops = match u {
                    U::CloneHas if self.has_clr => vec![Has],
                    U::CloneClr if self.has_clr => vec![Clr],
                    U::CloneSet => vec![Set],
                    U::CloneEq => vec![],
                    _ => getc.clone(),
                };
                for o in ops {
                    out.push(st(o, n, f));
                }
                if u == U::CloneEq {
                    out.push(Step {
                        op: Eq,
                        inst,
                        f: 0,
                        d: n,
                        cancel: None,
                    });
                }
                return;
            }
            U::EqSelf | U::EqOther | U::EqRev => {
                let (a, b) = match u {
                    U::EqSelf => (inst, inst),
                    U::EqOther => (0, 1),
                    _ => (1, 0),
                };
                out.push(Step {
                    op: Eq,
                    inst: a,
                    f: 0,
                    d: b,
                    cancel: None,
                });
                return;
            }
        };
        let _ = lz;
        for o in seq {
            out.push(st(o, inst, f));
        }
    }
}

// ---- execution ------------------------------------------------------------------------------------------------

struct World {
    env: Arc<Env>,
    objs: Mutex<Vec<Option<&'static dyn Obj>>>,
    addrs: Mutex<Vec<usize>>,
    is_async: bool,
}

impl World {
    fn obj(&self, i: usize) -> Option<&'static dyn Obj> {
        self.objs.lock().unwrap().get(i).copied().flatten()
    }
    fn put(&self, i: usize, o: Box<dyn Obj>, addr: usize) {
        self.env.insts.lock().unwrap().insert(addr, i);
        let r: &'static dyn Obj = Box::leak(o);
        self.objs.lock().unwrap()[i] = Some(r);
        self.addrs.lock().unwrap().push(addr);
    }
    /// Only when no thread can use the objects any more.
    fn free(&self) {
        for o in self.objs.lock().unwrap().iter_mut() {
            if let Some(r) = o.take() {
                drop(unsafe { Box::from_raw(r as *const dyn Obj as *mut dyn Obj) });
            }
        }
    }
}

type Held = Vec<(usize, Box<dyn Grd>)>;

fn finish(r: std::thread::Result<Option<R<'static>>>, c: usize, held: &mut Held) {
    match r {
        Ok(None) => sched::log("ce", [t(), 0, 0, 0, 0, 0]),
        Ok(Some(R::Unit)) => res(0, 0),
        Ok(Some(R::Val(v))) => res(1, v),
        Ok(Some(R::Bool(b))) => res(4, b as u32),
        Ok(Some(R::Err(e))) => res(2, e),
        Ok(Some(R::G(g))) => {
            held.push((c, g));
            res(0, 0)
        }
        Err(_) => res(3, 0),
    }
}

fn run_step(w: &World, s: &Step, held: &mut Held) {
    let nf = 3;
    let c = s.inst * nf + s.f;
    let Some(obj) = w.obj(s.inst)
    else {
        return;
    };
    match s.op {
        Op::Gr | Op::Gw | Op::Gst | Op::Gcl | Op::Drop => {
            let Some(k) = held.iter().position(|h| h.0 == c)
            else {
                return;
            };
            sched::yield_now();
            let a = match s.op {
                Op::Gw | Op::Gst => w.env.fresh(),
                _ => 0,
            };
            inv(s.op, c, a, 0);
            let r = catch_unwind(AssertUnwindSafe(|| match s.op {
                Op::Gr => R::Val(held[k].1.read()),
                Op::Gw => R::Val(held[k].1.write(V(a))),
                Op::Gst => R::Val(held[k].1.store(V(a))),
                Op::Gcl => R::Val(held[k].1.clear()),
                _ => {
                    let g = held.remove(k);
                    drop(g);
                    R::Unit
                }
            }));
            finish(r.map(Some), c, held);
        }
        Op::Clone => {
            sched::yield_now();
            inv(s.op, s.inst, 0, s.d as i64);
            match catch_unwind(AssertUnwindSafe(|| obj.clone_obj())) {
                Ok((o, addr)) => {
                    w.put(s.d, o, addr);
                    res(0, 0)
                }
                Err(_) => res(3, 0),
            }
        }
        Op::Eq => {
            let Some(o2) = w.obj(s.d)
            else {
                return;
            };
            sched::yield_now();
            inv(s.op, s.inst, 0, s.d as i64);
            let r = catch_unwind(AssertUnwindSafe(|| R::Bool(obj.eq_obj(o2))));
            finish(r.map(Some), c, held);
        }
        _ => {
            // A thread holding a guard of the field does not re-enter it.
            if held.iter().any(|h| h.0 == c) {
                return;
            }
            sched::yield_now();
            let a = if s.op == Op::Set { w.env.fresh() } else { 0 };
            inv(s.op, c, a, 0);
            if w.is_async {
                let f = s.f;
                let op = s.op;
                let r = sched::rt::block_on(
                    CatchUnwind(Box::pin(async move { obj.call_async(f, op, a).await })),
                    s.cancel,
                    || sched::log("cb", [t(), 0, 0, 0, 0, 0]),
                );
                match r {
                    None => finish(Ok(None), c, held),
                    Some(Ok(v)) => finish(Ok(Some(v)), c, held),
                    Some(Err(e)) => finish(Err(e), c, held),
                }
            }
            else {
                let r = catch_unwind(AssertUnwindSafe(|| obj.call(s.f, s.op, a)));
                finish(r.map(Some), c, held);
            }
        }
    }
}

fn run_thread(w: &World, steps: &[Step]) {
    let mut held: Held = vec![];
    for s in steps {
        run_step(w, s, &mut held);
    }
    while let Some((c, g)) = held.pop() {
        sched::yield_now();
        inv(Op::Drop, c, 0, 0);
        drop(g);
        res(0, 0);
    }
}

struct Ctx {
    kind: Kind,
    is_async: bool,
    pool: sched::Pool,
    seen: HashSet<u64>,
    out: std::io::BufWriter<std::fs::File>,
    execs: u64,
    traces: u64,
    stuck: u64,
    steps: u64,
    deadline: Instant,
    opcount: HashMap<String, u64>,
}

fn emit(log: &[sched::Ev], extra: &[sched::Ev], n: usize, kind: Kind, p: &Program, ninst: usize, stuck: bool) -> String {
    use std::fmt::Write;
    let mut evs: Vec<sched::Ev> = log.to_vec();
    for (k, a) in extra {
        let mut a = *a;
        a[0] = n as i64;
        evs.push((k, a));
    }
    let kn = match kind {
        Kind::Lz => "lz",
        Kind::Lf => "lf",
        Kind::Op => "op",
        Kind::Lk => "lk",
    };
    let mut s = String::with_capacity(evs.len() * 48);
    let mut init = vec![];
    for i in 0..ninst {
        for f in 0..3 {
            init.push(if i == 0 || (i == 1 && p.second) { p.init[f] } else { 0 });
        }
    }
    write!(
        s,
        "{{\"kind\":\"{kn}\",\"n\":{},\"ni\":{ninst},\"two\":{},\"init\":{:?},\"ev\":[",
        n + 1,
        p.second,
        init
    )
    .unwrap();
    let rks = ["u", "v", "e", "p", "b"];
    let mut i = 0;
    let mut first = true;
    while i < evs.len() {
        if !first {
            s.push(',');
        }
        first = false;
        let (k, a) = &evs[i];
        match *k {
            "inv" => {
                let on = OPN[a[1] as usize];
                if i + 1 < evs.len() && evs[i + 1].0 == "res" && evs[i + 1].1[0] == a[0] {
                    let b = &evs[i + 1].1;
                    write!(
                        s,
                        "{{\"e\":\"op\",\"t\":{},\"o\":\"{on}\",\"c\":{},\"a\":{},\"d\":{},\"k\":\"{}\",\"r\":{}}}",
                        a[0], a[2], a[3], a[4], rks[b[1] as usize], b[2]
                    )
                    .unwrap();
                    i += 1;
                }
                else {
                    write!(
                        s,
                        "{{\"e\":\"inv\",\"t\":{},\"o\":\"{on}\",\"c\":{},\"a\":{},\"d\":{}}}",
                        a[0], a[2], a[3], a[4]
                    )
                    .unwrap();
                }
            }
            "res" => write!(
                s,
                "{{\"e\":\"res\",\"t\":{},\"k\":\"{}\",\"r\":{}}}",
                a[0], rks[a[1] as usize], a[2]
            )
            .unwrap(),
            "bb" => write!(s, "{{\"e\":\"bb\",\"t\":{},\"c\":{}}}", a[0], a[1]).unwrap(),
            "be" => write!(
                s,
                "{{\"e\":\"be\",\"t\":{},\"c\":{},\"k\":\"{}\",\"r\":{}}}",
                a[0], a[1], rks[a[2] as usize], a[3]
            )
            .unwrap(),
            other => write!(s, "{{\"e\":\"{other}\",\"t\":{}}}", a[0]).unwrap(),
        }
        i += 1;
    }
    if stuck {
        if !first {
            s.push(',');
        }
        s.push_str("{\"e\":\"stuck\",\"t\":0}");
    }
    s.push_str("]}");
    s
}

#[cfg(not(feature = "native"))]
fn set_spurious(x: bool) {
    tokio::sync::SPURIOUS.store(x, SeqCst)
}
#[cfg(feature = "native")]
fn set_spurious(_: bool) {}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Ctx {
    fn over(&self) -> bool {
        Instant::now() > self.deadline
    }

    fn exec(&mut self, p: &Program, strat: sched::Strategy, prefix: Vec<u32>) -> (Vec<(u32, u32)>, bool) {
        let mut ninst = 1 + p.second as usize;
        for th in &p.threads {
            for s in th {
                if s.op == Op::Clone {
                    ninst = ninst.max(s.d + 1);
                }
            }
        }
        set_spurious(p.spurious);
        let env = Arc::new(Env {
            plans: p.plans.clone(),
            nest: p.nest,
            fields: 3,
            ..Default::default()
        });
        env.ids.store(3, SeqCst);
        let w = Arc::new(World {
            env: env.clone(),
            objs: Mutex::new(vec![None; ninst]),
            addrs: Mutex::new(vec![]),
            is_async: self.is_async,
        });
        let (o, a) = make(self.kind, self.is_async, &env, &p.init);
        w.put(0, o, a);
        if p.second {
            let (o, a) = make(self.kind, self.is_async, &env, &p.init);
            w.put(1, o, a);
        }
        let n = p.threads.len();
        let bodies: Vec<Box<dyn FnOnce() + Send>> = p
            .threads
            .iter()
            .map(|steps| {
                let w = w.clone();
                let steps = steps.clone();
                Box::new(move || run_thread(&w, &steps)) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let o = self.pool.run(bodies, strat, prefix, 20_000);
        self.execs += 1;
        self.steps += o.steps;
        let mut extra = vec![];
        let mut stuck = o.stuck;
        if !stuck {
            // Reveal the final state.
            set_spurious(false);
            let mut fin = vec![];
            let lazy = matches!(self.kind, Kind::Lz | Kind::Lf);
            let mut used = [false; 3];
            for th in &p.threads {
                for s in th {
                    used[s.f] |= s.op != Op::Clone && s.op != Op::Eq;
                }
            }
            used[2] |= p.nest;
            for i in 0..ninst {
                for f in 0..3 {
                    if !used[f] {
                        continue;
                    }
                    if self.kind != Kind::Lk {
                        fin.push(st(Op::Has, i, f));
                        fin.push(st(Op::Clr, i, f));
                    }
                    if lazy || self.kind == Kind::Lk {
                        fin.push(st(Op::Rd, i, f));
                        fin.push(st(Op::Gr, i, f));
                        fin.push(st(Op::Drop, i, f));
                    }
                }
            }
            let w2 = w.clone();
            let o2 = self.pool.run(
                vec![Box::new(move || run_thread(&w2, &fin))],
                sched::Strategy::Dfs { bound: 0 },
                vec![],
                20_000,
            );
            extra = o2.log;
            stuck = o2.stuck;
        }
        let text = emit(&o.log, &extra, n, self.kind, p, ninst, stuck);
        if self.seen.insert(hash(&text)) {
            self.traces += 1;
            for e in &o.log {
                let k = match e.0 {
                    "inv" => OPN[e.1[1] as usize].to_string(),
                    "be" => format!("be{}", e.1[2]),
                    k => k.to_string(),
                };
                *self.opcount.entry(k).or_default() += 1;
            }
            writeln!(self.out, "{text}").unwrap();
        }
        if stuck {
            self.stuck += 1;
        }
        else {
            w.free();
        }
        (o.taken, stuck)
    }

    /// Systematic exploration up to a preemption bound, then random schedules.
    fn explore(&mut self, p: &Program, bound: u32, dfs_cap: u32, random: u32, seed: u64) {
        let mut prefix = vec![];
        for k in 0..dfs_cap {
            let (taken, stuck) = self.exec(p, sched::Strategy::Dfs { bound }, prefix);
            if stuck || (k % 64 == 0 && self.over()) {
                return;
            }
            match sched::next_prefix(&taken) {
                Some(n) => prefix = n,
                None => return,
            }
        }
        for k in 0..random {
            let (_, stuck) = self.exec(p, sched::Strategy::Random { seed: seed ^ (k as u64 * 7919) }, vec![]);
            if stuck {
                return;
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut args: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        args.insert(a.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
    }
    let g = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let num = |k: &str, d: u64| args.get(k).map_or(d, |v| v.parse().unwrap());
    let kind = match g("kind", "lz").as_str() {
        "lz" => Kind::Lz,
        "lf" => Kind::Lf,
        "op" => Kind::Op,
        _ => Kind::Lk,
    };
    let is_async = g("mode", "sync") == "async";
    let lazy = matches!(kind, Kind::Lz | Kind::Lf);
    let has_clr = kind != Kind::Lk;
    let shard = num("shard", 0);
    let shards = num("shards", 1);
    let seed = num("seed", 1);
    let units: Vec<U> = g("units", "")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| {
            use U::*;
            [
                GetC, Rd, GetMW, GetMR, Set, Clr, Has, WrSt, WrClr, WrStClr, WrClrSt, Wr0, Rd2, CloneHas, CloneGet,
                CloneClr, CloneSet, EqSelf, EqOther, EqRev, CloneEq,
            ]
            .into_iter()
            .find(|u| format!("{u:?}").eq_ignore_ascii_case(s))
            .unwrap_or_else(|| {
                eprintln!("unknown unit {s}");
                std::process::exit(2)
            })
        })
        .collect();
    let mut cx = Ctx {
        kind,
        is_async,
        pool: sched::Pool::new(),
        seen: HashSet::new(),
        out: std::io::BufWriter::new(std::fs::File::create(g("out", "traces.ndjson")).unwrap()),
        execs: 0,
        traces: 0,
        stuck: 0,
        steps: 0,
        deadline: Instant::now() + std::time::Duration::from_secs(num("secs", 60)),
        opcount: HashMap::new(),
    };
    let mut programs = 0u64;
    let fail_pct = num("fail", 0);
    let cancel_pct = num("cancel", 0);
    let nest_pct = num("nest", 0);
    let spur_pct = num("spurious", 0);
    let init_pct = num("init", 40);
    let plan = |rng: &mut Rng| -> Vec<BPlan> {
        (0..6)
            .map(|_| BPlan {
                outcome: if rng.chance(fail_pct) {
                    if kind == Kind::Lf && rng.chance(60) {
                        1
                    }
                    else {
                        2
                    }
                }
                else {
                    0
                },
                pauses: rng.below(3) as u8,
            })
            .collect()
    };
    match g("suite", "random").as_str() {
        "small" => {
            // every triple of units: thread 0 does one, thread 1 does two (or threads 1 and 2 one each)
            let bound = num("bound", 2) as u32;
            let cap = num("cap", 60) as u32;
            let mut k = 0u64;
            let nu = units.len();
            for shape in 0..num("shapes", 2) {
                for x in 0..nu * nu * nu * 2 {
                    let (i, u0, u1, u2) = (x % 2, x / 2 % nu, x / 2 / nu % nu, x / 2 / nu / nu);
                    k += 1;
                    if k % shards != shard || cx.stuck > 20 || cx.over() {
                        continue;
                    }
                    if shape == 1 && u2 < u1 {
                        continue;
                    }
                    let mut rng = Rng(seed.wrapping_mul(1_000_003) ^ k);
                    let f = rng.below(3) as usize;
                    let mut p = Program {
                        init: if i == 1 || kind == Kind::Lk { [1, 2, 3] } else { [0; 3] },
                        plans: plan(&mut rng),
                        second: [units[u0], units[u1], units[u2]].iter().any(|u| matches!(u, U::EqOther | U::EqRev)),
                        spurious: rng.chance(spur_pct),
                        ..Default::default()
                    };
                    let mut gen = Gen {
                        next_inst: 1 + p.second as usize,
                        rng: &mut rng,
                        lazy,
                        has_clr,
                    };
                    let mut t0 = vec![];
                    let mut t1 = vec![];
                    let mut t2 = vec![];
                    gen.unit(units[u0], 0, f, &mut t0);
                    gen.unit(units[u1], 0, f, &mut t1);
                    gen.unit(units[u2], 0, f, if shape == 1 { &mut t2 } else { &mut t1 });
                    let rng = gen.rng;
                    p.threads = vec![t0, t1];
                    if shape == 1 {
                        p.threads.push(t2);
                    }
                    if is_async && cancel_pct > 0 {
                        for th in p.threads.iter_mut() {
                            for s in th.iter_mut() {
                                if rng.chance(cancel_pct) {
                                    s.cancel = Some(1 + rng.below(3) as u32);
                                }
                            }
                        }
                    }
                    programs += 1;
                    cx.explore(&p, bound, cap, 0, 0);
                }
            }
        }
        _ => {
            let maxt = num("threads", 3);
            let maxu = num("len", 3);
            let nf = num("fields", 2);
            for k in 0..num("programs", 100) {
                if cx.stuck > 20 || cx.over() {
                    break;
                }
                let mut rng = Rng(seed.wrapping_mul(7_777_777) ^ (k * shards + shard).wrapping_mul(0x51_7c_c1_b7));
                rng.next();
                let fields: Vec<usize> = {
                    let mut v: Vec<usize> = (0..3).collect();
                    while v.len() > nf as usize {
                        let d = rng.below(v.len() as u64) as usize;
                        v.remove(d);
                    }
                    v
                };
                let nt = 2 + rng.below(maxt - 1) as usize;
                let mut p = Program {
                    plans: plan(&mut rng),
                    nest: rng.chance(nest_pct),
                    spurious: rng.chance(spur_pct),
                    second: units.iter().any(|u| matches!(u, U::EqOther | U::EqRev)) && rng.chance(70),
                    ..Default::default()
                };
                for f in 0..3 {
                    if kind == Kind::Lk || rng.chance(init_pct) {
                        p.init[f] = f as u32 + 1;
                    }
                }
                let second = p.second;
                let mut gen = Gen {
                    next_inst: 1 + second as usize,
                    rng: &mut rng,
                    lazy,
                    has_clr,
                };
                for _ in 0..nt {
                    let mut th = vec![];
                    let nu = 1 + gen.rng.below(maxu);
                    for _ in 0..nu {
                        let mut u = units[gen.rng.below(units.len() as u64) as usize];
                        if !second && matches!(u, U::EqOther | U::EqRev) {
                            u = U::EqSelf;
                        }
                        let inst = if second && gen.rng.chance(40) { 1 } else { 0 };
                        let f = fields[gen.rng.below(fields.len() as u64) as usize];
                        let at = th.len();
                        gen.unit(u, inst, f, &mut th);
                        // Sometimes keep the guard while using a field of a higher index.
                        if th.len() > at + 1 && th.last().map_or(false, |s| s.op == Op::Drop) && f < 2 && gen.rng.chance(30) {
                            let hi: Vec<usize> = fields.iter().copied().filter(|x| *x > f).collect();
                            if !hi.is_empty() {
                                let d = th.pop().unwrap();
                                let f2 = hi[gen.rng.below(hi.len() as u64) as usize];
                                let simple = [U::GetC, U::Set, U::Clr, U::Has, U::Rd, U::WrSt];
                                let u2 = simple[gen.rng.below(6) as usize];
                                gen.unit(u2, inst, f2, &mut th);
                                th.push(d);
                            }
                        }
                    }
                    if is_async && cancel_pct > 0 {
                        for s in th.iter_mut() {
                            if gen.rng.chance(cancel_pct) {
                                s.cancel = Some(1 + gen.rng.below(4) as u32);
                            }
                        }
                    }
                    p.threads.push(th);
                }
                programs += 1;
                let s2 = rng.next();
                cx.explore(
                    &p,
                    num("bound", 1) as u32,
                    num("cap", 6) as u32,
                    num("random", 12) as u32,
                    s2,
                );
            }
        }
    }
    cx.out.flush().unwrap();
    let mut oc: Vec<_> = cx.opcount.iter().collect();
    oc.sort();
    println!(
        "{{\"programs\":{programs},\"execs\":{},\"traces\":{},\"stuck\":{},\"switches\":{},\"timeout\":{},\"ops\":{{{}}}}}",
        cx.execs,
        cx.traces,
        cx.stuck,
        cx.steps,
        cx.over(),
        oc.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")
    );
    std::process::exit(0);
}
