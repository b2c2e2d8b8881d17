//! Stand-in for the part of `tokio` that fieldx uses: `sync::RwLock` (FIFO-fair, as tokio's) under `sched`.
pub mod sync {
    use std::cell::UnsafeCell;
    use std::collections::VecDeque;
    use std::fmt;
    use std::future::Future;
    use std::marker::PhantomData;
    use std::mem::ManuallyDrop;
    use std::ops::{Deref, DerefMut};
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::Arc;
    use std::sync::Mutex as StdMutex;
    use std::task::{Context, Poll, Waker};

    struct Waiter {
        id: u64,
        write: bool,
        granted: bool,
        waker: Option<Waker>,
    }

    struct State {
        readers: usize,
        writer: bool,
        next: u64,
        queue: VecDeque<Waiter>,
    }

    impl State {
        const fn new() -> Self {
            State {
                readers: 0,
                writer: false,
                next: 0,
                queue: VecDeque::new(),
            }
        }

        fn fits(&self, write: bool) -> bool {
            if write {
                !self.writer && self.readers == 0
            }
            else {
                !self.writer
            }
        }

        fn take(&mut self, write: bool) {
            if write {
                self.writer = true;
            }
            else {
                self.readers += 1;
            }
        }

        /// Hand the lock to waiters in FIFO order.
        fn grant(&mut self) -> Vec<Waker> {
            let mut out = vec![];
            for k in 0..self.queue.len() {
                if self.queue[k].granted {
                    continue;
                }
                let w = self.queue[k].write;
                if !self.fits(w) {
                    break;
                }
                self.take(w);
                self.queue[k].granted = true;
                if let Some(w) = self.queue[k].waker.take() {
                    out.push(w);
                }
            }
            out
        }
    }

    struct Sem(StdMutex<State>);

    impl Sem {
        fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
            f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
        }

        fn release(&self, write: bool) {
            let wakers = self.with(|s| {
                if write {
                    s.writer = false;
                }
                else {
                    s.readers -= 1;
                }
                s.grant()
            });
            for w in wakers {
                w.wake();
            }
            sched::yield_now();
        }

        fn downgrade(&self) {
            let wakers = self.with(|s| {
                s.writer = false;
                s.readers += 1;
                s.grant()
            });
            for w in wakers {
                w.wake();
            }
            sched::yield_now();
        }

        fn try_acquire(&self, write: bool) -> bool {
            sched::yield_now();
            let ok = self.with(|s| {
                if s.queue.iter().all(|w| w.granted) && s.fits(write) {
                    s.take(write);
                    true
                }
                else {
                    false
                }
            });
            if !ok {
                sched::spin();
            }
            ok
        }
    }

    /// Runtimes may make any resource future return Pending once although it is ready (cooperative budget).
    pub static SPURIOUS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

    struct Acquire<'a> {
        sem: &'a Sem,
        write: bool,
        ticket: Option<u64>,
        polled: bool,
        done: bool,
    }

    impl<'a> Acquire<'a> {
        fn new(sem: &'a Sem, write: bool) -> Self {
            Acquire {
                sem,
                write,
                ticket: None,
                polled: false,
                done: false,
            }
        }
    }

    impl Future for Acquire<'_> {
        type Output = ();

        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let me = &mut *self;
            if !me.polled {
                me.polled = true;
                if sched::active() && SPURIOUS.load(std::sync::atomic::Ordering::SeqCst) {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
            sched::yield_now();
            let write = me.write;
            let ticket = me.ticket;
            let (ready, new_ticket, newly) = me.sem.with(|s| match ticket {
                None => {
                    if s.queue.iter().all(|w| w.granted) && s.fits(write) {
                        s.take(write);
                        (true, None, false)
                    }
                    else {
                        let id = s.next;
                        s.next += 1;
                        s.queue.push_back(Waiter {
                            id,
                            write,
                            granted: false,
                            waker: Some(cx.waker().clone()),
                        });
                        (false, Some(id), true)
                    }
                }
                Some(id) => {
                    let k = s.queue.iter().position(|w| w.id == id).unwrap();
                    if s.queue[k].granted {
                        s.queue.remove(k);
                        (true, None, false)
                    }
                    else {
                        s.queue[k].waker = Some(cx.waker().clone());
                        (false, Some(id), false)
                    }
                }
            });
            me.ticket = new_ticket;
            if ready {
                me.done = true;
                Poll::Ready(())
            }
            else {
                if newly {
                    sched::log_blocked();
                }
                Poll::Pending
            }
        }
    }

    impl Drop for Acquire<'_> {
        fn drop(&mut self) {
            if let Some(id) = self.ticket {
                let wakers = self.sem.with(|s| {
                    if let Some(k) = s.queue.iter().position(|w| w.id == id) {
                        let w = s.queue.remove(k).unwrap();
                        if w.granted {
                            if w.write {
                                s.writer = false;
                            }
                            else {
                                s.readers -= 1;
                            }
                        }
                    }
                    s.grant()
                });
                for w in wakers {
                    w.wake();
                }
            }
        }
    }

    pub struct RwLock<T: ?Sized> {
        sem: Sem,
        v: UnsafeCell<T>,
    }

    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

    #[derive(Debug)]
    pub struct TryLockError(());
    impl fmt::Display for TryLockError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("operation would block")
        }
    }
    impl std::error::Error for TryLockError {}

    pub struct RwLockReadGuard<'a, T: ?Sized> {
        sem: &'a Sem,
        data: *const T,
        _p: PhantomData<&'a T>,
    }
    unsafe impl<T: ?Sized + Sync> Send for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockReadGuard<'_, T> {}

    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        sem: &'a Sem,
        data: *mut T,
        _p: PhantomData<&'a mut T>,
    }
    unsafe impl<T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<'_, T> {}

    pub struct RwLockMappedWriteGuard<'a, T: ?Sized> {
        sem: &'a Sem,
        data: *mut T,
        _p: PhantomData<&'a mut T>,
    }
    unsafe impl<T: ?Sized + Send + Sync> Send for RwLockMappedWriteGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockMappedWriteGuard<'_, T> {}

    impl<T> RwLock<T> {
        pub fn new(v: T) -> Self {
            RwLock {
                sem: Sem(StdMutex::new(State::new())),
                v: UnsafeCell::new(v),
            }
        }

        pub const fn const_new(v: T) -> Self {
            RwLock {
                sem: Sem(StdMutex::new(State::new())),
                v: UnsafeCell::new(v),
            }
        }

        pub fn with_max_readers(v: T, _max: u32) -> Self {
            Self::new(v)
        }

        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
    }

    impl<T: ?Sized> RwLock<T> {
        fn rg(&self) -> RwLockReadGuard<'_, T> {
            RwLockReadGuard {
                sem: &self.sem,
                data: self.v.get(),
                _p: PhantomData,
            }
        }

        fn wg(&self) -> RwLockWriteGuard<'_, T> {
            RwLockWriteGuard {
                sem: &self.sem,
                data: self.v.get(),
                _p: PhantomData,
            }
        }

        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            Acquire::new(&self.sem, false).await;
            self.rg()
        }

        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            Acquire::new(&self.sem, true).await;
            self.wg()
        }

        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            if self.sem.try_acquire(false) {
                Ok(self.rg())
            }
            else {
                Err(TryLockError(()))
            }
        }

        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            if self.sem.try_acquire(true) {
                Ok(self.wg())
            }
            else {
                Err(TryLockError(()))
            }
        }

        pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
            sched::rt::block_on(self.read(), None, || ()).unwrap()
        }

        pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
            sched::rt::block_on(self.write(), None, || ()).unwrap()
        }

        pub fn get_mut(&mut self) -> &mut T {
            self.v.get_mut()
        }
    }

    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(v: T) -> Self {
            RwLock::new(v)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let mut d = f.debug_struct("RwLock");
            match self.try_read() {
                Ok(g) => d.field("data", &&*g),
                Err(_) => d.field("data", &format_args!("<locked>")),
            };
            d.finish()
        }
    }

    impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
        pub fn map<F, U: ?Sized>(this: Self, f: F) -> RwLockReadGuard<'a, U>
        where
            F: FnOnce(&T) -> &U,
        {
            let this = ManuallyDropGuard::new(this);
            let data = f(unsafe { &*this.data }) as *const U;
            let sem = this.sem;
            this.forget();
            RwLockReadGuard {
                sem,
                data,
                _p: PhantomData,
            }
        }

        pub fn try_map<F, U: ?Sized>(this: Self, f: F) -> Result<RwLockReadGuard<'a, U>, Self>
        where
            F: FnOnce(&T) -> Option<&U>,
        {
            let data = match f(unsafe { &*this.data }) {
                Some(d) => d as *const U,
                None => return Err(this),
            };
            let this = ManuallyDrop::new(this);
            Ok(RwLockReadGuard {
                sem: this.sem,
                data,
                _p: PhantomData,
            })
        }
    }

    /// Keeps the guard armed while user closures run.
    struct ManuallyDropGuard<G>(Option<G>);
    impl<G> ManuallyDropGuard<G> {
        fn new(g: G) -> Self {
            ManuallyDropGuard(Some(g))
        }

        fn forget(mut self) {
            std::mem::forget(self.0.take());
        }
    }
    impl<G> Deref for ManuallyDropGuard<G> {
        type Target = G;

        fn deref(&self) -> &G {
            self.0.as_ref().unwrap()
        }
    }

    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn map<F, U: ?Sized>(this: Self, f: F) -> RwLockMappedWriteGuard<'a, U>
        where
            F: FnOnce(&mut T) -> &mut U,
        {
            let this = ManuallyDropGuard::new(this);
            let data = f(unsafe { &mut *this.data }) as *mut U;
            let sem = this.sem;
            this.forget();
            RwLockMappedWriteGuard {
                sem,
                data,
                _p: PhantomData,
            }
        }

        pub fn try_map<F, U: ?Sized>(this: Self, f: F) -> Result<RwLockMappedWriteGuard<'a, U>, Self>
        where
            F: FnOnce(&mut T) -> Option<&mut U>,
        {
            let data = match f(unsafe { &mut *this.data }) {
                Some(d) => d as *mut U,
                None => return Err(this),
            };
            let this = ManuallyDrop::new(this);
            Ok(RwLockMappedWriteGuard {
                sem: this.sem,
                data,
                _p: PhantomData,
            })
        }

        pub fn into_mapped(this: Self) -> RwLockMappedWriteGuard<'a, T> {
            Self::map(this, |x| x)
        }

        pub fn downgrade(this: Self) -> RwLockReadGuard<'a, T> {
            let this = ManuallyDrop::new(this);
            let sem = this.sem;
            let data = this.data as *const T;
            sem.downgrade();
            RwLockReadGuard {
                sem,
                data,
                _p: PhantomData,
            }
        }

        pub fn downgrade_map<F, U: ?Sized>(this: Self, f: F) -> RwLockReadGuard<'a, U>
        where
            F: FnOnce(&T) -> &U,
        {
            RwLockReadGuard::map(Self::downgrade(this), f)
        }
    }

    impl<'a, T: ?Sized> RwLockMappedWriteGuard<'a, T> {
        pub fn map<F, U: ?Sized>(this: Self, f: F) -> RwLockMappedWriteGuard<'a, U>
        where
            F: FnOnce(&mut T) -> &mut U,
        {
            let this = ManuallyDropGuard::new(this);
            let data = f(unsafe { &mut *this.data }) as *mut U;
            let sem = this.sem;
            this.forget();
            RwLockMappedWriteGuard {
                sem,
                data,
                _p: PhantomData,
            }
        }

        pub fn try_map<F, U: ?Sized>(this: Self, f: F) -> Result<RwLockMappedWriteGuard<'a, U>, Self>
        where
            F: FnOnce(&mut T) -> Option<&mut U>,
        {
            let data = match f(unsafe { &mut *this.data }) {
                Some(d) => d as *mut U,
                None => return Err(this),
            };
            let this = ManuallyDrop::new(this);
            Ok(RwLockMappedWriteGuard {
                sem: this.sem,
                data,
                _p: PhantomData,
            })
        }
    }

    macro_rules! guard {
        ($n:ident, $w:expr) => {
            impl<T: ?Sized> Deref for $n<'_, T> {
                type Target = T;

                fn deref(&self) -> &T {
                    unsafe { &*self.data }
                }
            }
            impl<T: ?Sized> Drop for $n<'_, T> {
                fn drop(&mut self) {
                    self.sem.release($w)
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $n<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + fmt::Display> fmt::Display for $n<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    guard!(RwLockReadGuard, false);
    guard!(RwLockWriteGuard, true);
    guard!(RwLockMappedWriteGuard, true);
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.data }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockMappedWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.data }
        }
    }

    /// Owned guards: the lock is kept alive by the guard.
    pub struct OwnedRwLockReadGuard<T: ?Sized, U: ?Sized = T> {
        lock: Arc<RwLock<T>>,
        data: *const U,
    }
    unsafe impl<T: ?Sized + Send + Sync, U: ?Sized + Sync> Send for OwnedRwLockReadGuard<T, U> {}
    unsafe impl<T: ?Sized + Send + Sync, U: ?Sized + Send + Sync> Sync for OwnedRwLockReadGuard<T, U> {}
    impl<T: ?Sized, U: ?Sized> Deref for OwnedRwLockReadGuard<T, U> {
        type Target = U;

        fn deref(&self) -> &U {
            unsafe { &*self.data }
        }
    }
    impl<T: ?Sized, U: ?Sized> Drop for OwnedRwLockReadGuard<T, U> {
        fn drop(&mut self) {
            self.lock.sem.release(false)
        }
    }

    pub struct OwnedRwLockWriteGuard<T: ?Sized> {
        lock: Arc<RwLock<T>>,
        data: *mut T,
    }
    unsafe impl<T: ?Sized + Send + Sync> Send for OwnedRwLockWriteGuard<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for OwnedRwLockWriteGuard<T> {}
    impl<T: ?Sized> Deref for OwnedRwLockWriteGuard<T> {
        type Target = T;

        fn deref(&self) -> &T {
            unsafe { &*self.data }
        }
    }
    impl<T: ?Sized> DerefMut for OwnedRwLockWriteGuard<T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.data }
        }
    }
    impl<T: ?Sized> Drop for OwnedRwLockWriteGuard<T> {
        fn drop(&mut self) {
            self.lock.sem.release(true)
        }
    }

    impl<T: ?Sized> RwLock<T> {
        pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
            Acquire::new(&self.sem, false).await;
            let data = self.v.get() as *const T;
            OwnedRwLockReadGuard { lock: self, data }
        }

        pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
            Acquire::new(&self.sem, true).await;
            let data = self.v.get();
            OwnedRwLockWriteGuard { lock: self, data }
        }

        pub fn try_read_owned(self: Arc<Self>) -> Result<OwnedRwLockReadGuard<T>, TryLockError> {
            if self.sem.try_acquire(false) {
                let data = self.v.get() as *const T;
                Ok(OwnedRwLockReadGuard { lock: self, data })
            }
            else {
                Err(TryLockError(()))
            }
        }

        pub fn try_write_owned(self: Arc<Self>) -> Result<OwnedRwLockWriteGuard<T>, TryLockError> {
            if self.sem.try_acquire(true) {
                let data = self.v.get();
                Ok(OwnedRwLockWriteGuard { lock: self, data })
            }
            else {
                Err(TryLockError(()))
            }
        }
    }

    /// Mutex on top of the same semaphore.
    pub struct Mutex<T: ?Sized>(RwLock<T>);
    pub struct MutexGuard<'a, T: ?Sized>(RwLockWriteGuard<'a, T>);
    pub type MappedMutexGuard<'a, T> = RwLockMappedWriteGuard<'a, T>;
    pub type OwnedMutexGuard<T> = OwnedRwLockWriteGuard<T>;
    impl<T> Mutex<T> {
        pub fn new(v: T) -> Self {
            Mutex(RwLock::new(v))
        }

        pub const fn const_new(v: T) -> Self {
            Mutex(RwLock::const_new(v))
        }

        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            MutexGuard(self.0.write().await)
        }

        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            MutexGuard(self.0.blocking_write())
        }

        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            Ok(MutexGuard(self.0.try_write()?))
        }

        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    impl<'a, T: ?Sized> MutexGuard<'a, T> {
        pub fn map<F, U: ?Sized>(this: Self, f: F) -> MappedMutexGuard<'a, U>
        where
            F: FnOnce(&mut T) -> &mut U,
        {
            RwLockWriteGuard::map(this.0, f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;

        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.0
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(v: T) -> Self {
            Mutex::new(v)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    #[derive(Debug, PartialEq, Eq)]
    pub enum SetError<T> {
        AlreadyInitializedError(T),
        InitializingError(T),
    }

    /// A cell initialized at most once. The value is reachable by `&` once the flag is up.
    pub struct OnceCell<T> {
        init: Mutex<()>,
        up: AtomicBool,
        v: UnsafeCell<Option<T>>,
    }
    unsafe impl<T: Send> Send for OnceCell<T> {}
    unsafe impl<T: Send + Sync> Sync for OnceCell<T> {}
    impl<T> OnceCell<T> {
        pub const fn const_new() -> Self {
            OnceCell {
                init: Mutex::const_new(()),
                up: AtomicBool::new(false),
                v: UnsafeCell::new(None),
            }
        }

        pub fn new() -> Self {
            Self::const_new()
        }

        pub fn new_with(v: Option<T>) -> Self {
            OnceCell {
                init: Mutex::new(()),
                up: AtomicBool::new(v.is_some()),
                v: UnsafeCell::new(v),
            }
        }

        pub fn initialized(&self) -> bool {
            sched::yield_now();
            self.up.load(SeqCst)
        }

        pub fn get(&self) -> Option<&T> {
            if self.initialized() {
                unsafe { (*self.v.get()).as_ref() }
            }
            else {
                None
            }
        }

        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut().as_mut()
        }

        pub fn set(&self, v: T) -> Result<(), SetError<T>> {
            if self.initialized() {
                return Err(SetError::AlreadyInitializedError(v));
            }
            let g = match self.init.try_lock() {
                Ok(g) => g,
                Err(_) => return Err(SetError::InitializingError(v)),
            };
            if self.up.load(SeqCst) {
                return Err(SetError::AlreadyInitializedError(v));
            }
            unsafe { *self.v.get() = Some(v) };
            self.up.store(true, SeqCst);
            drop(g);
            Ok(())
        }

        pub async fn get_or_init<F, Fut>(&self, f: F) -> &T
        where
            F: FnOnce() -> Fut,
            Fut: Future<Output = T>,
        {
            match self.get_or_try_init(|| async { Ok::<T, std::convert::Infallible>(f().await) }).await {
                Ok(v) => v,
                Err(e) => match e {},
            }
        }

        pub async fn get_or_try_init<E, F, Fut>(&self, f: F) -> Result<&T, E>
        where
            F: FnOnce() -> Fut,
            Fut: Future<Output = Result<T, E>>,
        {
            if !self.initialized() {
                let g = self.init.lock().await;
                if !self.up.load(SeqCst) {
                    let v = f().await?;
                    unsafe { *self.v.get() = Some(v) };
                    self.up.store(true, SeqCst);
                }
                drop(g);
            }
            Ok(unsafe { (*self.v.get()).as_ref().unwrap() })
        }

        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }

        pub fn take(&mut self) -> Option<T> {
            self.up.store(false, SeqCst);
            self.v.get_mut().take()
        }
    }
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: Clone> Clone for OnceCell<T> {
        fn clone(&self) -> Self {
            Self::new_with(self.get().cloned())
        }
    }
    impl<T> From<T> for OnceCell<T> {
        fn from(v: T) -> Self {
            Self::new_with(Some(v))
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceCell<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_tuple("OnceCell").field(&self.get()).finish()
        }
    }

    /// Wakes tasks. A permit is stored by `notify_one`.
    #[derive(Default)]
    pub struct Notify {
        s: StdMutex<(bool, u64, Vec<Waker>)>,
    }
    pub struct Notified<'a> {
        n: &'a Notify,
        epoch: u64,
    }
    impl Notify {
        pub fn new() -> Self {
            Self::default()
        }

        pub fn notified(&self) -> Notified<'_> {
            Notified {
                n: self,
                epoch: self.s.lock().unwrap().1,
            }
        }

        pub fn notify_one(&self) {
            let w = {
                let mut s = self.s.lock().unwrap();
                s.0 = true;
                std::mem::take(&mut s.2)
            };
            w.into_iter().for_each(Waker::wake);
            sched::yield_now();
        }

        pub fn notify_waiters(&self) {
            let w = {
                let mut s = self.s.lock().unwrap();
                s.1 += 1;
                std::mem::take(&mut s.2)
            };
            w.into_iter().for_each(Waker::wake);
            sched::yield_now();
        }
    }
    impl Future for Notified<'_> {
        type Output = ();

        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            sched::yield_now();
            let mut s = self.n.s.lock().unwrap();
            if s.1 != self.epoch {
                return Poll::Ready(());
            }
            if s.0 {
                s.0 = false;
                return Poll::Ready(());
            }
            s.2.push(cx.waker().clone());
            Poll::Pending
        }
    }

    #[derive(Debug)]
    pub struct AcquireError(());
    impl fmt::Display for AcquireError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("semaphore closed")
        }
    }
    impl std::error::Error for AcquireError {}
    #[derive(Debug, PartialEq, Eq)]
    pub enum TryAcquireError {
        Closed,
        NoPermits,
    }
    pub struct Semaphore {
        n: Notify,
        permits: StdMutex<usize>,
    }
    pub struct SemaphorePermit<'a> {
        s: &'a Semaphore,
        n: usize,
    }
    impl Semaphore {
        pub fn new(permits: usize) -> Self {
            Semaphore {
                n: Notify::new(),
                permits: StdMutex::new(permits),
            }
        }

        pub fn available_permits(&self) -> usize {
            *self.permits.lock().unwrap()
        }

        pub fn add_permits(&self, n: usize) {
            *self.permits.lock().unwrap() += n;
            self.n.notify_waiters();
        }

        pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
            sched::yield_now();
            {
                let mut p = self.permits.lock().unwrap();
                if *p > 0 {
                    *p -= 1;
                    return Ok(SemaphorePermit { s: self, n: 1 });
                }
            }
            sched::spin();
            Err(TryAcquireError::NoPermits)
        }

        pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
            let mut logged = false;
            loop {
                let w = self.n.notified();
                if let Ok(p) = self.try_acquire() {
                    return Ok(p);
                }
                if !logged {
                    sched::log_blocked();
                    logged = true;
                }
                w.await;
            }
        }
    }
    impl SemaphorePermit<'_> {
        pub fn forget(mut self) {
            self.n = 0;
        }
    }
    impl Drop for SemaphorePermit<'_> {
        fn drop(&mut self) {
            if self.n > 0 {
                self.s.add_permits(self.n);
            }
        }
    }
}
