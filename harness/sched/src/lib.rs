//! Controlled scheduler. Logical threads are OS threads passing a baton: exactly one of them runs between two
//! scheduling points. Lock shims and user-supplied callbacks (builders, Clone, PartialEq of values) call
//! `yield_now`/`block_on_addr`/`wake_addr`. Which thread goes next is decided by a replayable list of choices.
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ts {
    Runnable,
    Blocked(usize),
    /// Blocked in something the scheduler does not control (a std lock, say).
    Native,
    Finished,
}

pub type Ev = (&'static str, [i64; 6]);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy {
    /// Follow the prefix, then never preempt. Alternatives are offered within the preemption bound.
    Dfs { bound: u32 },
    Random { seed: u64 },
}

struct Inner {
    cur: usize,
    st: Vec<Ts>,
    woken: Vec<bool>,
    steps: u64,
    progress: u64,
    preemptions: u32,
    strategy: Strategy,
    prefix: Vec<u32>,
    /// (taken, number of options) at each point with more than one option
    taken: Vec<(u32, u32)>,
    rng: u64,
    log: Vec<Ev>,
    done: bool,
    stuck: bool,
}

pub struct Exec {
    inner: Mutex<Inner>,
    cvs: Vec<Condvar>,
    done: Condvar,
    max_steps: u64,
    /// Watchdog period; short when the locks are the real ones and block natively.
    tick: Duration,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

const NONE: usize = usize::MAX;

pub struct Outcome {
    pub log: Vec<Ev>,
    pub taken: Vec<(u32, u32)>,
    pub stuck: bool,
    pub steps: u64,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The harness runs with the real lock crates (they have no scheduling points of ours).
pub fn native() -> bool {
    static N: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *N.get_or_init(|| std::env::var_os("FX_NATIVE").is_some())
}

impl Exec {
    pub fn new(n: usize, strategy: Strategy, prefix: Vec<u32>, max_steps: u64) -> Arc<Self> {
        let rng = match strategy {
            Strategy::Random { seed } => seed,
            _ => 0,
        };
        Arc::new(Exec {
            inner: Mutex::new(Inner {
                cur: NONE,
                st: vec![Ts::Runnable; n],
                woken: vec![false; n],
                steps: 0,
                progress: 0,
                preemptions: 0,
                strategy,
                prefix,
                taken: vec![],
                rng,
                log: vec![],
                done: false,
                stuck: false,
            }),
            cvs: (0..n).map(|_| Condvar::new()).collect(),
            done: Condvar::new(),
            max_steps,
            tick: Duration::from_millis(if native() { 10 } else { 250 }),
        })
    }

    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Choose among `opts` options; option 0 is the default.
    fn choose(i: &mut Inner, opts: u32) -> u32 {
        if opts <= 1 {
            return 0;
        }
        let k = i.taken.len();
        let c = match i.strategy {
            Strategy::Dfs { .. } => i.prefix.get(k).copied().unwrap_or(0).min(opts - 1),
            Strategy::Random { .. } => {
                if k < i.prefix.len() {
                    i.prefix[k].min(opts - 1)
                }
                else {
                    (splitmix(&mut i.rng) >> 33) as u32 % opts
                }
            }
        };
        i.taken.push((c, opts));
        c
    }

    /// Decide who runs next. `me` is the current thread (may be not runnable any more). Returns NONE if nobody can.
    fn pick(&self, i: &mut Inner, me: usize) -> usize {
        i.steps += 1;
        i.progress += 1;
        let mut opts: Vec<usize> = Vec::with_capacity(i.st.len());
        let me_ok = me != NONE && i.st[me] == Ts::Runnable;
        if me_ok {
            opts.push(me);
        }
        let may_preempt = match i.strategy {
            Strategy::Dfs { bound } => i.preemptions < bound,
            Strategy::Random { .. } => true,
        };
        if !me_ok || may_preempt {
            let n = i.st.len();
            for k in 1..=n {
                let t = if me == NONE { k - 1 } else { (me + k) % n };
                if t != me && i.st[t] == Ts::Runnable {
                    opts.push(t);
                }
            }
        }
        if opts.is_empty() {
            return NONE;
        }
        let c = Self::choose(i, opts.len() as u32) as usize;
        if me_ok && c != 0 {
            i.preemptions += 1;
        }
        opts[c]
    }

    fn finish(&self, i: &mut Inner, stuck: bool) {
        i.done = true;
        i.stuck |= stuck;
        self.done.notify_all();
    }

    /// Hand over the baton; returns when `me` has it again.
    fn switch<'a>(&'a self, mut i: MutexGuard<'a, Inner>, me: usize) {
        if i.done {
            // Execution was abandoned: stay here for ever.
            drop(i);
            park_forever();
        }
        if i.steps > self.max_steps {
            self.finish(&mut i, true);
            drop(i);
            park_forever();
        }
        let next = self.pick(&mut i, me);
        self.give(i, me, next);
    }

    /// Give the baton to `next`.
    fn give<'a>(&'a self, mut i: MutexGuard<'a, Inner>, me: usize, next: usize) {
        if next == me {
            i.cur = me;
            return;
        }
        i.cur = next;
        if next == NONE {
            if i.st.iter().all(|s| *s == Ts::Finished) {
                self.finish(&mut i, false);
                return;
            }
            if !i.st.iter().any(|s| *s == Ts::Native) {
                self.finish(&mut i, true);
            }
        }
        else {
            self.cvs[next].notify_one();
        }
        if me != NONE && i.st[me] != Ts::Finished {
            while i.cur != me {
                i = self.cvs[me].wait(i).unwrap_or_else(|e| e.into_inner());
                if i.done && i.stuck {
                    drop(i);
                    park_forever();
                }
            }
        }
    }

    /// A thread the watchdog gave up on came back to us: wait for our turn.
    fn rejoin<'a>(&'a self, mut i: MutexGuard<'a, Inner>, me: usize) -> MutexGuard<'a, Inner> {
        if i.st[me] == Ts::Native {
            i.st[me] = Ts::Runnable;
            i.progress += 1;
            if i.cur == NONE {
                i.cur = me;
            }
            while i.cur != me {
                i = self.cvs[me].wait(i).unwrap_or_else(|e| e.into_inner());
                if i.done && i.stuck {
                    drop(i);
                    park_forever();
                }
            }
        }
        i
    }
}

fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

fn ctx() -> Option<(Arc<Exec>, usize)> {
    CTX.try_with(|c| c.borrow().clone()).unwrap_or(None)
}

/// True on a thread under the control of the scheduler.
pub fn active() -> bool {
    QUIET.with(|q| q.get()) == 0 && CTX.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

pub fn me() -> Option<usize> {
    CTX.with(|c| c.borrow().as_ref().map(|x| x.1))
}

/// A point where the scheduler may run another thread.
pub fn yield_now() {
    if !active() {
        return;
    }
    if let Some((e, me)) = ctx() {
        let i = e.lock();
        let i = e.rejoin(i, me);
        e.switch(i, me);
    }
}

/// A `try_*` operation failed: the caller may be about to spin, so prefer running somebody else.
pub fn spin() {
    if !active() {
        return;
    }
    if let Some((e, me)) = ctx() {
        let i = e.lock();
        let mut i = e.rejoin(i, me);
        if i.done || i.steps > e.max_steps {
            e.switch(i, me);
            return;
        }
        i.steps += 1;
        i.progress += 1;
        let n = i.st.len();
        let mut opts: Vec<usize> = (1..n).map(|k| (me + k) % n).filter(|t| i.st[*t] == Ts::Runnable).collect();
        opts.push(me);
        let c = Exec::choose(&mut i, opts.len() as u32) as usize;
        e.give(i, me, opts[c]);
    }
}

/// Block until `wake_addr(addr)`. The caller re-checks its condition afterwards.
pub fn block_on_addr(addr: usize) {
    match ctx() {
        Some((e, me)) => {
            let i = e.lock();
            let mut i = e.rejoin(i, me);
            i.st[me] = Ts::Blocked(addr);
            e.switch(i, me);
        }
        None => panic!("sched: would block outside of an execution"),
    }
}

pub fn wake_addr(addr: usize) {
    if let Some((e, _)) = ctx() {
        let mut i = e.lock();
        for s in i.st.iter_mut() {
            if *s == Ts::Blocked(addr) {
                *s = Ts::Runnable;
            }
        }
    }
}

/// Park address of a thread (for wakers).
pub fn thread_addr(t: usize) -> usize {
    usize::MAX - 1 - t
}

/// A nondeterministic choice made by the environment; part of the explored schedule.
pub fn choice(n: u32) -> u32 {
    match ctx() {
        Some((e, me)) => {
            let i = e.lock();
            let mut i = e.rejoin(i, me);
            Exec::choose(&mut i, n)
        }
        None => 0,
    }
}

pub fn log(kind: &'static str, a: [i64; 6]) {
    if let Some((e, me)) = ctx() {
        let i = e.lock();
        let mut i = e.rejoin(i, me);
        i.log.push((kind, a));
    }
}

/// Called by lock shims when the current thread is about to block.
pub fn log_blocked() {
    if let Some(t) = me() {
        log("blk", [t as i64, 0, 0, 0, 0, 0]);
    }
}

type Job = Box<dyn FnOnce() + Send + 'static>;

/// Pool of reusable OS threads.
pub struct Pool {
    workers: Vec<std::sync::mpsc::Sender<Job>>,
}

impl Pool {
    pub fn new() -> Self {
        Pool { workers: vec![] }
    }

    fn get(&mut self, i: usize) -> &std::sync::mpsc::Sender<Job> {
        while self.workers.len() <= i {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    while let Ok(j) = rx.recv() {
                        j();
                    }
                })
                .unwrap();
            self.workers.push(tx);
        }
        &self.workers[i]
    }

    /// Run the bodies as logical threads 0..n under the given strategy.
    pub fn run(
        &mut self,
        bodies: Vec<Box<dyn FnOnce() + Send + 'static>>,
        strategy: Strategy,
        prefix: Vec<u32>,
        max_steps: u64,
    ) -> Outcome {
        let n = bodies.len();
        let exec = Exec::new(n, strategy, prefix, max_steps);
        for (t, body) in bodies.into_iter().enumerate() {
            let e = exec.clone();
            let job: Job = Box::new(move || {
                CTX.with(|c| *c.borrow_mut() = Some((e.clone(), t)));
                {
                    let mut i = e.lock();
                    while i.cur != t {
                        i = e.cvs[t].wait(i).unwrap_or_else(|x| x.into_inner());
                        if i.done && i.stuck {
                            drop(i);
                            park_forever();
                        }
                    }
                }
                body();
                let i = e.lock();
                let mut i = e.rejoin(i, t);
                i.st[t] = Ts::Finished;
                CTX.with(|c| *c.borrow_mut() = None);
                e.switch(i, t);
            });
            self.get(t).send(job).expect("worker died");
        }
        {
            let i = exec.lock();
            exec.switch(i, NONE);
        }
        let mut i = exec.lock();
        let mut last = u64::MAX;
        let mut idle = 0u32;
        while !i.done {
            let (g, to) = exec
                .done
                .wait_timeout(i, exec.tick)
                .unwrap_or_else(|e| e.into_inner());
            i = g;
            if to.timed_out() && !i.done {
                if i.progress == last {
                    idle += 1;
                    if idle >= 4 && i.cur != NONE {
                        let c = i.cur;
                        i.st[c] = Ts::Native;
                        let next = exec.pick(&mut i, c);
                        i.cur = next;
                        if next != NONE {
                            exec.cvs[next].notify_one();
                        }
                        idle = 0;
                    }
                    else if idle >= if native() { 300 } else { 12 } {
                        exec.finish(&mut i, true);
                    }
                }
                else {
                    last = i.progress;
                    idle = 0;
                }
            }
        }
        let stuck = i.stuck;
        let log = std::mem::take(&mut i.log);
        let taken = std::mem::take(&mut i.taken);
        let steps = i.steps;
        drop(i);
        if stuck {
            // The threads of this execution stay blocked for ever; don't reuse them.
            for cv in exec.cvs.iter() {
                cv.notify_all();
            }
            self.workers.clear();
        }
        Outcome { log, taken, stuck, steps }
    }
}

/// Next DFS prefix after an execution took `taken`, or None if the tree is exhausted.
pub fn next_prefix(taken: &[(u32, u32)]) -> Option<Vec<u32>> {
    let mut k = taken.len();
    while k > 0 {
        let (c, n) = taken[k - 1];
        if c + 1 < n {
            let mut p: Vec<u32> = taken[..k - 1].iter().map(|x| x.0).collect();
            p.push(c + 1);
            return Some(p);
        }
        k -= 1;
    }
    None
}

pub mod rt {
    //! A minimal executor: a logical thread polling one future.
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll, Wake, Waker};

    struct W(Arc<Exec>, usize);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.wake_by_ref()
        }

        fn wake_by_ref(self: &Arc<Self>) {
            let mut i = self.0.lock();
            let t = self.1;
            if i.st[t] == Ts::Blocked(thread_addr(t)) {
                i.st[t] = Ts::Runnable;
            }
            else {
                i.woken[t] = true;
            }
        }
    }

    /// Poll to completion, or drop the future after `cancel_after` polls that returned Pending.
    pub fn block_on<F: Future>(fut: F, cancel_after: Option<u32>, before_drop: impl FnOnce()) -> Option<F::Output> {
        let (e, t) = match ctx() {
            Some(c) => c,
            None => return Some(block_on_plain(fut)),
        };
        let waker: Waker = Arc::new(W(e.clone(), t)).into();
        let mut cx = Context::from_waker(&waker);
        let mut fut = Box::pin(fut);
        let mut pend = 0;
        loop {
            e.lock().woken[t] = false;
            match fut.as_mut().poll(&mut cx) {
                Poll::Ready(v) => return Some(v),
                Poll::Pending => {
                    pend += 1;
                    if cancel_after.map_or(false, |c| pend >= c) {
                        before_drop();
                        yield_now();
                        drop(fut);
                        return None;
                    }
                    let woken = e.lock().woken[t];
                    if woken {
                        yield_now();
                    }
                    else {
                        block_on_addr(thread_addr(t));
                    }
                }
            }
        }
    }

    pub fn block_on_plain<F: Future>(fut: F) -> F::Output {
        let waker = Waker::noop();
        let mut cx = Context::from_waker(waker);
        let mut fut = Box::pin(fut);
        for _ in 0..1000 {
            if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
                return v;
            }
        }
        panic!("sched: future would block outside of an execution")
    }

    /// Suspends once.
    pub struct Pause(bool);
    pub fn pause() -> Pause {
        Pause(false)
    }
    impl Future for Pause {
        type Output = ();

        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                Poll::Ready(())
            }
            else {
                self.0 = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
