//! A stand-in for rayon-core with the same interface. Nothing runs in parallel: `join` runs its two sides one
//! after the other, and everything rayon leaves to the machine - the number of threads, whether the second side
//! of a join was stolen (`migrated`), which side runs first - is taken from a script, so that an explorer can
//! enumerate all of it. Which memory the sides touch is watched by race.c.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

extern "C" {
    fn mcrace_begin();
    fn mcrace_end();
    fn mcrace_pause() -> i32;
    fn mcrace_resume(o: i32);
    fn mcrace_races() -> u64;
    fn mcrace_accesses() -> u64;
    fn mcrace_report() -> *const std::ffi::c_char;
    fn mcrace_strands() -> u32;
    fn mcrace_fork() -> u32;
    fn mcrace_enter(join: u32, side: i32, sp: usize) -> u32;
    fn mcrace_leave(old: u32);
    fn mcrace_skip(p: *mut u8, n: usize);
}

thread_local! {
    static POOL: Cell<usize> = const { Cell::new(0) };      // threads of the pool we are in; 0: outside
    static INDEX: Cell<usize> = const { Cell::new(0) };
    static GLOBAL: Cell<usize> = const { Cell::new(4) };    // threads of the global pool
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static SCRIPT: RefCell<Script> = const { RefCell::new(Script { given: vec![], pos: 0, taken: vec![], budget: 0, swap: false, joins: 0 }) };
}
struct Script { given: Vec<u8>, pos: usize, taken: Vec<(u8, u8)>, budget: usize, swap: bool, joins: u64 }

/// Control of the scheduler by an explorer.
pub mod mc {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct Seen { pub taken: Vec<(u8, u8)>, pub joins: u64, pub strands: u32, pub accesses: u64, pub race: Option<String> }
    /// Runs `f` with the given script of choices (default choice 0 beyond its end), at most `budget` stolen
    /// sides, and the second side of each join first if `swap`.
    pub fn run<R>(script: &[u8], budget: usize, swap: bool, global: usize, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Seen) {
        SCRIPT.with(|s| *s.borrow_mut() = Script { given: script.to_vec(), pos: 0, taken: Vec::with_capacity(256), budget, swap, joins: 0 });
        GLOBAL.set(global);
        POOL.set(0);
        ACTIVE.set(true);
        unsafe { mcrace_begin() };
        let r = catch_unwind(AssertUnwindSafe(f));
        unsafe { mcrace_end() };
        ACTIVE.set(false);
        POOL.set(0);
        let seen = SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            let race = unsafe { (mcrace_races() > 0).then(|| format!("{} conflicting accesses, the first: {}", mcrace_races(), std::ffi::CStr::from_ptr(mcrace_report()).to_string_lossy())) };
            Seen { taken: std::mem::take(&mut s.taken), joins: s.joins, strands: unsafe { mcrace_strands() }, accesses: unsafe { mcrace_accesses() }, race }
        });
        (r, seen)
    }
    /// memory that is private to each real thread and must not count
    pub fn skip(p: *mut u8, n: usize) { unsafe { mcrace_skip(p, n) } }
    pub fn paused<R>(f: impl FnOnce() -> R) -> R {
        let o = unsafe { mcrace_pause() };
        let r = f();
        unsafe { mcrace_resume(o) };
        r
    }
}

fn choose_migrated() -> bool {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.joins += 1;
        if s.budget == 0 { return false }
        let c = s.given.get(s.pos).copied().unwrap_or(0);
        s.pos += 1;
        s.taken.push((c, 2));
        if c == 1 { s.budget -= 1 }
        c == 1
    })
}

fn max_threads() -> usize { 1 << 16 }
pub fn max_num_threads() -> usize { max_threads() }
pub fn current_num_threads() -> usize { match POOL.get() { 0 => GLOBAL.get(), n => n } }
pub fn current_thread_index() -> Option<usize> { if POOL.get() == 0 { None } else { Some(INDEX.get()) } }
pub fn current_thread_has_pending_tasks() -> Option<bool> { current_thread_index().map(|_| false) }

struct Restore(usize, usize);
impl Drop for Restore { fn drop(&mut self) { POOL.set(self.0); INDEX.set(self.1) } }
/// run inside a pool of n threads; tells whether it had to be injected from outside
fn in_pool<R>(n: usize, f: impl FnOnce(bool) -> R) -> R {
    let injected = POOL.get() != n;
    let _r = Restore(POOL.get(), INDEX.get());
    if injected { POOL.set(n); INDEX.set(0) }
    f(injected)
}

#[derive(Debug)]
pub struct FnContext { migrated: bool, _m: PhantomData<*mut ()> }
impl FnContext { pub fn migrated(&self) -> bool { self.migrated } }
fn ctx(migrated: bool) -> FnContext { FnContext { migrated, _m: PhantomData } }

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    join_context(move |_| a(), move |_| b())
}

#[inline(never)]
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    let o = unsafe { mcrace_pause() };
    let n = current_num_threads();
    let r = in_pool(n, |injected| {
        if !ACTIVE.get() { return (catch_unwind(AssertUnwindSafe(|| a(ctx(injected)))), catch_unwind(AssertUnwindSafe(|| b(ctx(injected))))) }
        let stolen = choose_migrated();
        let swap = SCRIPT.with(|s| s.borrow().swap);
        let (id, idx) = (unsafe { mcrace_fork() }, INDEX.get());
        let mark = 0u8;
        let sp = std::hint::black_box(&mark) as *const u8 as usize;
        let run_a = move || side(id, 0, sp, o, idx, move || a(ctx(injected)));
        let run_b = move || side(id, 1, sp, o, if stolen { (idx + 1) % n.max(1) } else { idx }, move || b(ctx(injected || stolen)));
        if swap { let rb = run_b(); (run_a(), rb) } else { let ra = run_a(); (ra, run_b()) }
    });
    unsafe { mcrace_resume(o) };
    match r {
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        (Ok(ra), Ok(rb)) => (ra, rb),
    }
}
#[inline(never)]
fn side<R>(id: u32, k: i32, sp: usize, o: i32, idx: usize, f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    INDEX.set(idx);
    let old = unsafe { mcrace_enter(id, k, sp) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        unsafe { mcrace_resume(o) };
        let r = f();
        unsafe { mcrace_pause() };
        r
    }));
    unsafe { mcrace_pause(); mcrace_leave(old) };
    r
}

// ---- scopes: a spawned task runs where it is spawned, concurrent with the other tasks of its scope
macro_rules! scopes { ($S:ident, $spawn:ident, $f:ident, $inp:ident) => {
    pub struct $S<'scope> { id: u32, k: Cell<i32>, sp: usize, _m: PhantomData<&'scope mut &'scope ()> }
    unsafe impl Send for $S<'_> {}
    unsafe impl Sync for $S<'_> {}
    impl<'scope> $S<'scope> {
        pub fn $spawn<F>(&self, f: F) where F: FnOnce(&$S<'scope>) + Send + 'scope {
            let o = unsafe { mcrace_pause() };
            self.k.set(self.k.get() + 1);
            let r = side(self.id, self.k.get(), self.sp, o, INDEX.get(), || f(self));
            unsafe { mcrace_resume(o) };
            if let Err(e) = r { resume_unwind(e) }
        }
        pub fn spawn_broadcast<F>(&self, f: F) where F: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope {
            for i in 0..current_num_threads() { f(self, BroadcastContext { i, n: current_num_threads(), _m: PhantomData }) }
        }
    }
    impl fmt::Debug for $S<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($S)) } }
    pub fn $f<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&$S<'scope>) -> R + Send, R: Send { $inp(op) }
    pub fn $inp<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&$S<'scope>) -> R {
        let mark = 0u8;
        let sp = std::hint::black_box(&mark) as *const u8 as usize;
        in_pool(current_num_threads(), |_| op(&$S { id: unsafe { mcrace_fork() }, k: Cell::new(0), sp, _m: PhantomData }))
    }
} }
scopes!(Scope, spawn, scope, in_place_scope);
scopes!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { in_pool(current_num_threads(), |_| f()) }
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) { spawn(f) }
pub struct BroadcastContext<'a> { i: usize, n: usize, _m: PhantomData<&'a ()> }
impl BroadcastContext<'_> { pub fn index(&self) -> usize { self.i } pub fn num_threads(&self) -> usize { self.n } }
impl fmt::Debug for BroadcastContext<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("BroadcastContext") } }
pub fn broadcast<OP, R>(op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send {
    let n = current_num_threads();
    in_pool(n, |_| (0..n).map(|i| op(BroadcastContext { i, n, _m: PhantomData })).collect())
}
pub fn spawn_broadcast<OP>(op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static { broadcast(op); }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { current_thread_index().map(|_| Yield::Idle) }
pub fn yield_local() -> Option<Yield> { yield_now() }

pub struct ThreadPool { n: usize }
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send { in_pool(self.n, |_| op()) }
    pub fn current_num_threads(&self) -> usize { self.n }
    pub fn current_thread_index(&self) -> Option<usize> { if POOL.get() == self.n { current_thread_index() } else { None } }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> { self.current_thread_index().map(|_| false) }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { self.install(|| join(a, b)) }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send { self.install(|| scope(op)) }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&ScopeFifo<'scope>) -> R + Send, R: Send { self.install(|| scope_fifo(op)) }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&Scope<'scope>) -> R { in_place_scope(op) }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R where OP: FnOnce(&ScopeFifo<'scope>) -> R { in_place_scope_fifo(op) }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) { in_pool(self.n, |_| f()) }
    pub fn spawn_fifo<F: FnOnce() + Send + 'static>(&self, f: F) { in_pool(self.n, |_| f()) }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send { in_pool(self.n, |_| broadcast(op)) }
    pub fn spawn_broadcast<OP>(&self, op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static { in_pool(self.n, |_| spawn_broadcast(op)) }
    pub fn yield_now(&self) -> Option<Yield> { yield_now() }
    pub fn yield_local(&self) -> Option<Yield> { yield_local() }
}
impl fmt::Debug for ThreadPool { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("ThreadPool").field("num_threads", &self.n).finish() } }

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl Error for ThreadPoolBuildError {}
impl fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("cannot build the pool") } }

pub struct ThreadBuilder(());
#[derive(Default)]
pub struct ThreadPoolBuilder { n: usize }
impl fmt::Debug for ThreadPoolBuilder { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("ThreadPoolBuilder").field("num_threads", &self.n).finish() } }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool { n: if self.n == 0 { GLOBAL.get() } else { self.n } }) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Err(ThreadPoolBuildError(())) }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn use_current_thread(self) -> Self { self }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
}
