//! Drop-in stand-in for `parking_lot`: same types, same blocking rules (writer bit with pending writers, upgradable
//! bit, recursive readers), but every operation is a scheduling point of `sched`.
pub use ::lock_api;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[cfg(not(feature = "send_guard"))]
type GuardMarker = lock_api::GuardNoSend;
#[cfg(feature = "send_guard")]
type GuardMarker = lock_api::GuardSend;

const WRITER: usize = 1;
const UPGR: usize = 2;
const READER: usize = 4;

/// The state word has the meaning of parking_lot's: WRITER is set by a writer that owns the lock *or* waits for the
/// remaining readers to leave, UPGR by the owner of an upgradable lock (which also counts as a reader).
pub struct RawRwLock {
    state: AtomicUsize,
}

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }

    fn wait_until(&self, what: &str, mut f: impl FnMut(usize) -> Option<usize>) {
        let mut logged = false;
        loop {
            let s = self.state.load(SeqCst);
            if let Some(n) = f(s) {
                self.state.store(n, SeqCst);
                return;
            }
            if !sched::active() {
                panic!("lock shim: {what} would block outside of an execution");
            }
            if !logged {
                sched::log_blocked();
                logged = true;
            }
            sched::block_on_addr(self.addr());
        }
    }

    fn wait_readers(&self) {
        self.wait_until("wait for readers", |s| if s / READER == 0 { Some(s) } else { None });
    }

    fn released(&self) {
        sched::wake_addr(self.addr());
        sched::yield_now();
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    type GuardMarker = GuardMarker;

    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { state: AtomicUsize::new(0) };

    fn lock_shared(&self) {
        sched::yield_now();
        self.wait_until("shared lock", |s| if s & WRITER == 0 { Some(s + READER) } else { None });
    }

    fn try_lock_shared(&self) -> bool {
        sched::yield_now();
        let s = self.state.load(SeqCst);
        if s & WRITER == 0 {
            self.state.store(s + READER, SeqCst);
            true
        }
        else {
            failed();
            false
        }
    }

    unsafe fn unlock_shared(&self) {
        self.state.fetch_sub(READER, SeqCst);
        self.released();
    }

    fn lock_exclusive(&self) {
        sched::yield_now();
        self.wait_until("exclusive lock", |s| {
            if s & (WRITER | UPGR) == 0 {
                Some(s | WRITER)
            }
            else {
                None
            }
        });
        self.wait_readers();
    }

    fn try_lock_exclusive(&self) -> bool {
        sched::yield_now();
        let ok = self.state.compare_exchange(0, WRITER, SeqCst, SeqCst).is_ok();
        if !ok {
            failed();
        }
        ok
    }

    unsafe fn unlock_exclusive(&self) {
        self.state.fetch_and(!WRITER, SeqCst);
        self.released();
    }

    fn is_locked(&self) -> bool {
        self.state.load(SeqCst) != 0
    }

    fn is_locked_exclusive(&self) -> bool {
        self.state.load(SeqCst) & WRITER != 0
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }

    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        let s = self.state.load(SeqCst);
        self.state.store((s & !WRITER) + READER, SeqCst);
        self.released();
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        sched::yield_now();
        self.wait_until("recursive shared lock", |s| {
            if s & WRITER == 0 || s / READER > 0 {
                Some(s + READER)
            }
            else {
                None
            }
        });
    }

    fn try_lock_shared_recursive(&self) -> bool {
        sched::yield_now();
        let s = self.state.load(SeqCst);
        if s & WRITER == 0 || s / READER > 0 {
            self.state.store(s + READER, SeqCst);
            true
        }
        else {
            failed();
            false
        }
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        sched::yield_now();
        self.wait_until("upgradable lock", |s| {
            if s & (WRITER | UPGR) == 0 {
                Some((s | UPGR) + READER)
            }
            else {
                None
            }
        });
    }

    fn try_lock_upgradable(&self) -> bool {
        sched::yield_now();
        let s = self.state.load(SeqCst);
        if s & (WRITER | UPGR) == 0 {
            self.state.store((s | UPGR) + READER, SeqCst);
            true
        }
        else {
            failed();
            false
        }
    }

    unsafe fn unlock_upgradable(&self) {
        let s = self.state.load(SeqCst);
        self.state.store((s & !UPGR) - READER, SeqCst);
        self.released();
    }

    unsafe fn upgrade(&self) {
        sched::yield_now();
        let s = self.state.load(SeqCst);
        self.state.store(((s & !UPGR) - READER) | WRITER, SeqCst);
        self.wait_readers();
    }

    unsafe fn try_upgrade(&self) -> bool {
        sched::yield_now();
        let s = self.state.load(SeqCst);
        if s / READER == 1 {
            self.state.store(((s & !UPGR) - READER) | WRITER, SeqCst);
            true
        }
        else {
            failed();
            false
        }
    }
}

unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.state.fetch_and(!UPGR, SeqCst);
        self.released();
    }

    unsafe fn downgrade_to_upgradable(&self) {
        let s = self.state.load(SeqCst);
        self.state.store(((s & !WRITER) | UPGR) + READER, SeqCst);
        self.released();
    }
}

/// Timed operations: a waiting thread retries for a while; whether time runs out before the lock is available is a
/// choice of the environment.
fn timed(mut f: impl FnMut() -> bool) -> bool {
    let spin = SPIN.with(|s| s.replace(false));
    let mut ok = false;
    for k in 0..6 {
        ok = f();
        if ok || !sched::active() {
            break;
        }
        if k == 0 {
            sched::log_blocked();
        }
        sched::spin();
        if sched::choice(2) == 1 {
            break;
        }
    }
    SPIN.with(|s| s.set(spin));
    ok
}

thread_local!(static SPIN: std::cell::Cell<bool> = const { std::cell::Cell::new(true) });

/// A `try_*` failed.
fn failed() {
    if SPIN.with(|s| s.get()) {
        sched::spin();
    }
}

unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;

    fn try_lock_shared_for(&self, _: Duration) -> bool {
        timed(|| lock_api::RawRwLock::try_lock_shared(self))
    }

    fn try_lock_shared_until(&self, _: Instant) -> bool {
        timed(|| lock_api::RawRwLock::try_lock_shared(self))
    }

    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        timed(|| lock_api::RawRwLock::try_lock_exclusive(self))
    }

    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        timed(|| lock_api::RawRwLock::try_lock_exclusive(self))
    }
}

unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _: Duration) -> bool {
        timed(|| lock_api::RawRwLockRecursive::try_lock_shared_recursive(self))
    }

    fn try_lock_shared_recursive_until(&self, _: Instant) -> bool {
        timed(|| lock_api::RawRwLockRecursive::try_lock_shared_recursive(self))
    }
}

unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, _: Duration) -> bool {
        timed(|| lock_api::RawRwLockUpgrade::try_lock_upgradable(self))
    }

    fn try_lock_upgradable_until(&self, _: Instant) -> bool {
        timed(|| lock_api::RawRwLockUpgrade::try_lock_upgradable(self))
    }

    unsafe fn try_upgrade_for(&self, _: Duration) -> bool {
        timed(|| lock_api::RawRwLockUpgrade::try_upgrade(self))
    }

    unsafe fn try_upgrade_until(&self, _: Instant) -> bool {
        timed(|| lock_api::RawRwLockUpgrade::try_upgrade(self))
    }
}

unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;

    fn try_lock_for(&self, _: Duration) -> bool {
        timed(|| lock_api::RawMutex::try_lock(self))
    }

    fn try_lock_until(&self, _: Instant) -> bool {
        timed(|| lock_api::RawMutex::try_lock(self))
    }
}

pub struct RawMutex {
    locked: AtomicBool,
}

unsafe impl lock_api::RawMutex for RawMutex {
    type GuardMarker = GuardMarker;

    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { locked: AtomicBool::new(false) };

    fn lock(&self) {
        sched::yield_now();
        let mut logged = false;
        while self.locked.swap(true, SeqCst) {
            if !sched::active() {
                panic!("lock shim: mutex would block outside of an execution");
            }
            if !logged {
                sched::log_blocked();
                logged = true;
            }
            sched::block_on_addr(self as *const _ as usize);
        }
    }

    fn try_lock(&self) -> bool {
        sched::yield_now();
        let ok = !self.locked.swap(true, SeqCst);
        if !ok {
            failed();
        }
        ok
    }

    unsafe fn unlock(&self) {
        self.locked.store(false, SeqCst);
        sched::wake_addr(self as *const _ as usize);
        sched::yield_now();
    }

    fn is_locked(&self) -> bool {
        self.locked.load(SeqCst)
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;

    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;

#[cfg(feature = "arc_lock")]
pub type ArcRwLockReadGuard<T> = lock_api::ArcRwLockReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockWriteGuard<T> = lock_api::ArcRwLockWriteGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockUpgradableReadGuard<T> = lock_api::ArcRwLockUpgradableReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}

pub struct Once {
    lock: Mutex<bool>,
}

impl Once {
    pub const fn new() -> Once {
        Once { lock: const_mutex(false) }
    }

    pub fn state(&self) -> OnceState {
        match self.lock.try_lock() {
            None => OnceState::InProgress,
            Some(g) if *g => OnceState::Done,
            Some(_) => OnceState::New,
        }
    }

    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut g = self.lock.lock();
        if !*g {
            f();
            *g = true;
        }
    }

    pub fn call_once_force<F: FnOnce(OnceState)>(&self, f: F) {
        self.call_once(|| f(OnceState::New))
    }
}

impl Default for Once {
    fn default() -> Self {
        Once::new()
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    seq: AtomicUsize,
}

impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { seq: AtomicUsize::new(0) }
    }

    pub fn notify_one(&self) -> bool {
        self.notify_all() > 0
    }

    pub fn notify_all(&self) -> usize {
        self.seq.fetch_add(1, SeqCst);
        sched::wake_addr(self as *const _ as usize);
        sched::yield_now();
        1
    }

    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let s = self.seq.load(SeqCst);
        lock_api::MutexGuard::unlocked(guard, || {
            while self.seq.load(SeqCst) == s {
                sched::block_on_addr(self as *const _ as usize);
            }
        });
    }

    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, guard: &mut MutexGuard<'_, T>, mut condition: F) {
        while condition(&mut **guard) {
            self.wait(guard);
        }
    }

    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _: Duration) -> WaitTimeoutResult {
        let s = self.seq.load(SeqCst);
        let ok = lock_api::MutexGuard::unlocked(guard, || {
            timed(|| self.seq.load(SeqCst) != s)
        });
        WaitTimeoutResult(!ok)
    }

    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _: Instant) -> WaitTimeoutResult {
        self.wait_for(guard, Duration::ZERO)
    }
}
