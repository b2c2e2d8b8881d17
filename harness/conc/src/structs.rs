//! The structs under test: every field kind with every helper, sync and async.
#![allow(dead_code)]
use crate::model::*;
use fieldx::fxstruct;
use std::ops::{Deref, DerefMut};

// ---- guards -------------------------------------------------------------------------------------------------------

struct GV<G>(G);
impl<G: Deref<Target = V>> Grd for GV<G> {
    fn read(&self) -> u32 {
        (*self.0).0
    }
}
struct GVM<G>(G);
impl<G: DerefMut<Target = V>> Grd for GVM<G> {
    fn read(&self) -> u32 {
        (*self.0).0
    }
    fn write(&mut self, v: V) -> u32 {
        std::mem::replace(&mut *self.0, v).0
    }
    fn store(&mut self, v: V) -> u32 {
        std::mem::replace(&mut *self.0, v).0
    }
}
struct GO<G>(G);
impl<G: Deref<Target = Option<V>>> Grd for GO<G> {
    fn read(&self) -> u32 {
        (*self.0).as_ref().map_or(0, |v| v.0)
    }
}
struct GOM<G>(G);
impl<G: DerefMut<Target = Option<V>>> Grd for GOM<G> {
    fn read(&self) -> u32 {
        (*self.0).as_ref().map_or(0, |v| v.0)
    }
    fn write(&mut self, v: V) -> u32 {
        ov(std::mem::replace(&mut *self.0, Some(v)))
    }
    fn store(&mut self, v: V) -> u32 {
        ov((*self.0).replace(v))
    }
    fn clear(&mut self) -> u32 {
        ov((*self.0).take())
    }
}
/// Writer guard of a lazy field.
trait LzW {
    fn st(&mut self, v: V) -> Option<V>;
    fn cl(&mut self) -> Option<V>;
}
struct GW<G>(G);
impl<G: LzW> Grd for GW<G> {
    fn read(&self) -> u32 {
        unreachable!()
    }
    fn store(&mut self, v: V) -> u32 {
        ov(self.0.st(v))
    }
    fn clear(&mut self) -> u32 {
        ov(self.0.cl())
    }
}
macro_rules! lzw {
    ($t:ty) => {
        impl LzW for $t {
            fn st(&mut self, v: V) -> Option<V> {
                self.store(v)
            }
            fn cl(&mut self) -> Option<V> {
                self.clear()
            }
        }
    };
}
use fieldx::{r#async as fa, sync as fs};
lzw!(fs::FXWrLockGuardSync<'_, fs::FXBuilderInfallible<SLz, V>>);
lzw!(fs::FXWrLockGuardSync<'_, fs::FXBuilderFallible<SLf, V, E>>);
lzw!(fa::FXWrLockGuardAsync<'_, fa::FXBuilderInfallible<ALz, V>>);
lzw!(fa::FXWrLockGuardAsync<'_, fa::FXBuilderFallible<ALf, V, E>>);

fn bx<'a, G: Grd + 'a>(g: G) -> R<'a> {
    R::G(Box::new(g))
}

// ---- lazy, infallible ---------------------------------------------------------------------------------------------

fn ok<T>(v: T) -> Result<T, E> {
    Ok(v)
}

macro_rules! builders_sync {
    ($n:ident, infallible) => {
        impl $n {
            fn build_a(&self) -> V {
                unbox(run_builder(&self.env.0, self as *const _ as usize, 0, || Ok(self.c().0)))
            }
            fn build_b(&self) -> V {
                unbox(run_builder(&self.env.0, self as *const _ as usize, 1, || Ok(0)))
            }
            fn build_c(&self) -> V {
                unbox(run_builder(&self.env.0, self as *const _ as usize, 2, || Ok(0)))
            }
        }
    };
    ($n:ident, fallible) => {
        impl $n {
            fn build_a(&self) -> Result<V, E> {
                run_builder(&self.env.0, self as *const _ as usize, 0, || {
                    self.c().map(|v| v.0).map_err(|e| e.0)
                })
            }
            fn build_b(&self) -> Result<V, E> {
                run_builder(&self.env.0, self as *const _ as usize, 1, || Ok(0))
            }
            fn build_c(&self) -> Result<V, E> {
                run_builder(&self.env.0, self as *const _ as usize, 2, || Ok(0))
            }
        }
    };
}
macro_rules! builders_async {
    ($n:ident, infallible) => {
        impl $n {
            async fn build_a(&self) -> V {
                unbox(run_builder_async(&self.env.0, self as *const _ as usize, 0, async { Ok(self.c().await.0) }).await)
            }
            async fn build_b(&self) -> V {
                unbox(run_builder_async(&self.env.0, self as *const _ as usize, 1, async { Ok(0) }).await)
            }
            async fn build_c(&self) -> V {
                unbox(run_builder_async(&self.env.0, self as *const _ as usize, 2, async { Ok(0) }).await)
            }
        }
    };
    ($n:ident, fallible) => {
        impl $n {
            async fn build_a(&self) -> Result<V, E> {
                run_builder_async(&self.env.0, self as *const _ as usize, 0, async {
                    self.c().await.map(|v| v.0).map_err(|e| e.0)
                })
                .await
            }
            async fn build_b(&self) -> Result<V, E> {
                run_builder_async(&self.env.0, self as *const _ as usize, 1, async { Ok(0) }).await
            }
            async fn build_c(&self) -> Result<V, E> {
                run_builder_async(&self.env.0, self as *const _ as usize, 2, async { Ok(0) }).await
            }
        }
    };
}
fn unbox(r: Result<V, E>) -> V {
    match r {
        Ok(v) => v,
        Err(_) => std::panic::resume_unwind(Box::new(Boom)),
    }
}

macro_rules! lazy_struct {
    ($n:ident, [$($mode:tt)*], [$($fall:tt)*], [$($der:tt)*]) => {
        #[fxstruct($($mode)*, builder)]
        #[derive($($der)*)]
        pub struct $n {
            env: EnvRef,
            #[fieldx(lazy, $($fall)* get(clone), reader, get_mut, set(into), clearer, predicate, writer)]
            a: V,
            #[fieldx(lazy, $($fall)* get, get_mut, set, clearer, predicate, writer)]
            b: V,
            #[fieldx(lazy, $($fall)* get(copy), reader, get_mut, set(into), clearer, predicate, writer)]
            c: V,
        }
    };
}
lazy_struct!(SLz, [sync], [], [Clone, PartialEq]);
lazy_struct!(SLf, [sync], [fallible(error(E)),], [Clone, PartialEq]);
lazy_struct!(ALz, [r#async], [], []);
lazy_struct!(ALf, [r#async], [fallible(error(E)),], []);
builders_sync!(SLz, infallible);
builders_sync!(SLf, fallible);
builders_async!(ALz, infallible);
builders_async!(ALf, fallible);

macro_rules! opt_struct {
    ($n:ident, [$($mode:tt)*], [$($kind:tt)*], [$($clr:tt)*], [$($der:tt)*]) => {
        #[fxstruct($($mode)*, builder)]
        #[derive($($der)*)]
        pub struct $n {
            env: EnvRef,
            #[fieldx($($kind)*, get(clone), reader, get_mut, set(into), $($clr)* writer)]
            a: V,
            #[fieldx($($kind)*, get, get_mut, set, $($clr)* writer)]
            b: V,
            #[fieldx($($kind)*, get(copy), reader, get_mut, set(into), $($clr)* writer)]
            c: V,
        }
    };
}
opt_struct!(SOp, [sync], [optional], [clearer, predicate,], [Clone, PartialEq]);
opt_struct!(AOp, [r#async], [optional], [clearer, predicate,], [Clone, PartialEq]);
opt_struct!(SLk, [sync], [lock], [], [Clone, PartialEq]);
opt_struct!(ALk, [r#async], [lock], [], [Clone, PartialEq]);

// ---- dispatch -----------------------------------------------------------------------------------------------------

macro_rules! aw {
    (sync, $e:expr) => {
        $e
    };
    (asynk, $e:expr) => {
        $e.await
    };
}
macro_rules! fal {
    (inf, $e:expr, $f:expr) => {
        $f($e)
    };
    (fal, $e:expr, $f:expr) => {
        match $e {
            Ok(x) => $f(x),
            Err(e) => R::Err(e.0),
        }
    };
}
/// One field of a lazy struct.
macro_rules! lazy_ops {
    ($m:ident, $fl:ident, $wg:ident, $s:expr, $op:expr, $v:expr, $get:ident, $rd:ident, $mut:ident, $set:ident, $clr:ident, $has:ident, $wr:ident) => {
        match $op {
            Op::GetC => fal!($fl, aw!($m, $s.$get()), |x: V| R::Val(x.0)),
            Op::Rd => fal!($fl, aw!($m, $s.$rd()), |x| bx(GV(x))),
            Op::GetM => fal!($fl, aw!($m, $s.$mut()), |x| bx(GVM(x))),
            Op::Set => R::Val(ov(aw!($m, $s.$set(In($v))))),
            Op::Clr => R::Val(ov(aw!($m, $s.$clr()))),
            Op::Has => R::Bool($s.$has()),
            Op::Wr => bx($wg(aw!($m, $s.$wr()))),
            _ => unreachable!(),
        }
    };
}
/// Same for the field whose plain getter gives a guard.
macro_rules! lazy_ops_b {
    ($m:ident, $fl:ident, $wg:ident, $s:expr, $op:expr, $v:expr) => {
        match $op {
            Op::GetC | Op::Rd => fal!($fl, aw!($m, $s.b()), |x| bx(GV(x))),
            Op::GetM => fal!($fl, aw!($m, $s.b_mut()), |x| bx(GVM(x))),
            Op::Set => R::Val(ov(aw!($m, $s.set_b(V($v))))),
            Op::Clr => R::Val(ov(aw!($m, $s.clear_b()))),
            Op::Has => R::Bool($s.has_b()),
            Op::Wr => bx($wg(aw!($m, $s.write_b()))),
            _ => unreachable!(),
        }
    };
}
macro_rules! opt_ops {
    ($m:ident, $s:expr, $op:expr, $v:expr, $get:ident, $rd:ident, $mut:ident, $set:ident, $clr:ident, $has:ident, $wr:ident) => {
        match $op {
            Op::GetC => R::Val(ov(aw!($m, $s.$get()))),
            Op::Rd => bx(GO(aw!($m, $s.$rd()))),
            Op::GetM => bx(GOM(aw!($m, $s.$mut()))),
            Op::Set => R::Val(ov(aw!($m, $s.$set(In($v))))),
            Op::Clr => R::Val(ov(aw!($m, $s.$clr()))),
            Op::Has => R::Bool(aw!($m, $s.$has())),
            Op::Wr => bx(GOM(aw!($m, $s.$wr()))),
            _ => unreachable!(),
        }
    };
}
macro_rules! opt_ops_b {
    ($m:ident, $s:expr, $op:expr, $v:expr) => {
        match $op {
            Op::GetC | Op::Rd => bx(GO(aw!($m, $s.b()))),
            Op::GetM => bx(GOM(aw!($m, $s.b_mut()))),
            Op::Set => R::Val(ov(aw!($m, $s.set_b(V($v))))),
            Op::Clr => R::Val(ov(aw!($m, $s.clear_b()))),
            Op::Has => R::Bool(aw!($m, $s.has_b())),
            Op::Wr => bx(GOM(aw!($m, $s.write_b()))),
            _ => unreachable!(),
        }
    };
}
macro_rules! lk_ops {
    ($m:ident, $s:expr, $op:expr, $v:expr, $get:ident, $rd:ident, $mut:ident, $set:ident, $wr:ident) => {
        match $op {
            Op::GetC => R::Val(aw!($m, $s.$get()).0),
            Op::Rd => bx(GV(aw!($m, $s.$rd()))),
            Op::GetM => bx(GVM(aw!($m, $s.$mut()))),
            Op::Set => R::Val(aw!($m, $s.$set(In($v))).0),
            Op::Wr => bx(GVM(aw!($m, $s.$wr()))),
            _ => unreachable!(),
        }
    };
}
macro_rules! lk_ops_b {
    ($m:ident, $s:expr, $op:expr, $v:expr) => {
        match $op {
            Op::GetC | Op::Rd => bx(GV(aw!($m, $s.b()))),
            Op::GetM => bx(GVM(aw!($m, $s.b_mut()))),
            Op::Set => R::Val(aw!($m, $s.set_b(V($v))).0),
            Op::Wr => bx(GVM(aw!($m, $s.write_b()))),
            _ => unreachable!(),
        }
    };
}

macro_rules! dispatch {
    (lazy, $m:ident, $fl:ident, $wg:ident, $s:expr, $f:expr, $op:expr, $v:expr) => {
        match $f {
            0 => lazy_ops!($m, $fl, $wg, $s, $op, $v, a, read_a, a_mut, set_a, clear_a, has_a, write_a),
            1 => lazy_ops_b!($m, $fl, $wg, $s, $op, $v),
            _ => lazy_ops!($m, $fl, $wg, $s, $op, $v, c, read_c, c_mut, set_c, clear_c, has_c, write_c),
        }
    };
    (opt, $m:ident, $fl:ident, $wg:ident, $s:expr, $f:expr, $op:expr, $v:expr) => {
        match $f {
            0 => opt_ops!($m, $s, $op, $v, a, read_a, a_mut, set_a, clear_a, has_a, write_a),
            1 => opt_ops_b!($m, $s, $op, $v),
            _ => opt_ops!($m, $s, $op, $v, c, read_c, c_mut, set_c, clear_c, has_c, write_c),
        }
    };
    (lk, $m:ident, $fl:ident, $wg:ident, $s:expr, $f:expr, $op:expr, $v:expr) => {
        match $f {
            0 => lk_ops!($m, $s, $op, $v, a, read_a, a_mut, set_a, write_a),
            1 => lk_ops_b!($m, $s, $op, $v),
            _ => lk_ops!($m, $s, $op, $v, c, read_c, c_mut, set_c, write_c),
        }
    };
}

macro_rules! clones {
    ($n:ident) => {
        fn clone_obj(&self) -> (Box<dyn Obj>, usize) {
            let b = Box::new(self.clone());
            let addr = &*b as *const _ as usize;
            (b, addr)
        }
        fn eq_obj(&self, o: &dyn Obj) -> bool {
            *self == *o.any().downcast_ref::<$n>().unwrap()
        }
    };
}
/// Async lazy fields cannot be cloned or compared.
macro_rules! no_clones {
    ($n:ident) => {
        fn clone_obj(&self) -> (Box<dyn Obj>, usize) {
            unreachable!()
        }
        fn eq_obj(&self, _: &dyn Obj) -> bool {
            unreachable!()
        }
    };
}
macro_rules! obj_sync {
    ($n:ident, $k:ident, $fl:ident) => {
        impl Obj for $n {
            fn call<'a>(&'a self, f: usize, op: Op, v: u32) -> R<'a> {
                dispatch!($k, sync, $fl, GW, self, f, op, v)
            }
            fn call_async<'a>(&'a self, _: usize, _: Op, _: u32) -> Fut<'a> {
                unreachable!()
            }
            clones!($n);
            fn any(&self) -> &dyn std::any::Any {
                self
            }
        }
    };
}
macro_rules! obj_async {
    ($n:ident, $k:ident, $fl:ident, $cl:ident) => {
        impl Obj for $n {
            fn call<'a>(&'a self, _: usize, _: Op, _: u32) -> R<'a> {
                unreachable!()
            }
            fn call_async<'a>(&'a self, f: usize, op: Op, v: u32) -> Fut<'a> {
                Box::pin(async move { dispatch!($k, asynk, $fl, GW, self, f, op, v) })
            }
            $cl!($n);
            fn any(&self) -> &dyn std::any::Any {
                self
            }
        }
    };
}
obj_sync!(SLz, lazy, inf);
obj_sync!(SLf, lazy, fal);
obj_sync!(SOp, opt, inf);
obj_sync!(SLk, lk, inf);
obj_async!(ALz, lazy, inf, no_clones);
obj_async!(ALf, lazy, fal, no_clones);
obj_async!(AOp, opt, inf, clones);
obj_async!(ALk, lk, inf, clones);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Lz,
    Lf,
    Op,
    Lk,
}

macro_rules! mk {
    ($n:ident, $env:expr, $init:expr) => {{
        let mut b = $n::builder().env(EnvRef($env.clone()));
        if $init[0] > 0 {
            b = b.a(V($init[0]));
        }
        if $init[1] > 0 {
            b = b.b(V($init[1]));
        }
        if $init[2] > 0 {
            b = b.c(V($init[2]));
        }
        let o = match b.build() {
            Ok(o) => Box::new(o),
            Err(e) => panic!("build: {e}"),
        };
        let addr = &*o as *const _ as usize;
        (o as Box<dyn Obj>, addr)
    }};
}

pub fn make(kind: Kind, is_async: bool, env: &std::sync::Arc<Env>, init: &[u32; 3]) -> (Box<dyn Obj>, usize) {
    match (kind, is_async) {
        (Kind::Lz, false) => mk!(SLz, env, init),
        (Kind::Lf, false) => mk!(SLf, env, init),
        (Kind::Op, false) => mk!(SOp, env, init),
        (Kind::Lk, false) => mk!(SLk, env, init),
        (Kind::Lz, true) => mk!(ALz, env, init),
        (Kind::Lf, true) => mk!(ALf, env, init),
        (Kind::Op, true) => mk!(AOp, env, init),
        (Kind::Lk, true) => mk!(ALk, env, init),
    }
}
