//! P25: scoped changes of the BLAS thread count are undone, under every interleaving of threads and by panics.
//!
//! The real with_num_threads / with_blas_num_threads of the device crates run over stand-ins for the libraries'
//! thread-count functions (fake.c). One thread runs at a time; every library call and every wait or wake of a
//! std lock is a point where another thread may go on. All choices are enumerated depth first.
use fw::{Out, Res};
use rstsr_blas_traits::threading::BlasThreadAPI;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
mod ops;

#[allow(non_upper_case_globals)]
extern "C" {
    static mut mc_script: [i32; 4096];
    static mut mc_nscript: i32;
    static mc_taken: [i32; 4096];
    static mc_width: [i32; 4096];
    static mc_free: [i32; 4096];
    static mc_pos: i32;
    static mut mc_omp: i32;
    fn mc_begin(n: i32);
    fn mc_join(id: i32);
    fn mc_leave();
    fn mc_yield();
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lib { OpenBlasThread, OpenBlasOmp, Blis, Mkl, Aocl, Kml, Default }
use Lib::*;

/// one step of a program
#[derive(Clone, Debug)]
enum P { Scope(usize, Vec<P>), Look, Panic, Set(usize) }
use P::*;

static ONE: Mutex<()> = Mutex::new(());
static TOY: Mutex<usize> = Mutex::new(8);
struct Toy;
impl BlasThreadAPI for Toy {
    fn set_blas_num_threads(&self, n: usize) { *TOY.lock().unwrap() = n }
    fn get_blas_num_threads(&self) -> usize { *TOY.lock().unwrap() }
}

struct Dev { with: Box<dyn Fn(usize, &mut dyn FnMut() -> usize) -> usize + Send + Sync>, get: Box<dyn Fn() -> usize + Send + Sync>, set: Box<dyn Fn(usize) + Send + Sync> }
macro_rules! dev {
    ($c:ident, $api:expr) => {{
        if $api {
            let (a, b, c) = ($c::DeviceBLAS::default(), $c::DeviceBLAS::default(), $c::DeviceBLAS::default());
            Dev { with: Box::new(move |n, f| a.with_blas_num_threads(n, || f())), get: Box::new(move || b.get_blas_num_threads()), set: Box::new(move |n| c.set_blas_num_threads(n)) }
        } else {
            Dev { with: Box::new(|n, f| $c::with_num_threads(n, || f())), get: Box::new($c::get_num_threads), set: Box::new($c::set_num_threads) }
        }
    }};
}
mod ob { pub use rstsr_openblas::DeviceOpenBLAS as DeviceBLAS; pub use rstsr_openblas::threading::*; }
mod bl { pub use rstsr_blis::DeviceBLIS as DeviceBLAS; pub use rstsr_blis::threading::*; }
mod mk { pub use rstsr_mkl::DeviceMKL as DeviceBLAS; pub use rstsr_mkl::threading::*; }
mod ao { pub use rstsr_aocl::DeviceAOCL as DeviceBLAS; pub use rstsr_aocl::threading::*; }
mod km { pub use rstsr_kml::DeviceKML as DeviceBLAS; pub use rstsr_kml::threading::*; }
fn dev(l: Lib, api: bool) -> Dev {
    unsafe { mc_omp = (l == OpenBlasOmp) as i32 }
    match l {
        OpenBlasThread | OpenBlasOmp => dev!(ob, api),
        Blis => dev!(bl, api),
        Mkl => dev!(mk, api),
        Aocl => dev!(ao, api),
        Kml => dev!(km, api),
        Default => Dev { with: Box::new(|n, f| Toy.with_blas_num_threads(n, || f())), get: Box::new(|| Toy.get_blas_num_threads()), set: Box::new(|n| Toy.set_blas_num_threads(n)) },
    }
}
/// is the count one per process (or one per thread)?
fn shared(l: Lib) -> bool { !matches!(l, OpenBlasOmp | Mkl) }

struct Run { dev: Dev, lib: Lib, alone: bool, sets: bool, open: Mutex<Vec<(usize, usize)>>, bad: Mutex<Option<String>> }
impl Run {
    fn bad(&self, s: String) { self.bad.lock().unwrap().get_or_insert(s); }
    fn go(&self, me: usize, prog: &[P], now: &mut usize) {
        for p in prog {
            match p {
                Look => {
                    unsafe { mc_yield() }
                    let open: Vec<usize> = self.open.lock().unwrap().iter().map(|x| x.1).collect();
                    let got = (self.dev.get)();
                    if self.alone || !shared(self.lib) {
                        if got != *now { self.bad(format!("thread {me}: the count is {got}, expected {now}")) }
                    } else if !self.sets && open.len() > 0 && !open.contains(&got) && open == self.open.lock().unwrap().iter().map(|x| x.1).collect::<Vec<_>>() {
                        self.bad(format!("thread {me}: the count is {got} while scopes with {open:?} are open"))
                    }
                },
                Set(n) => { (self.dev.set)(*n); *now = *n }
                Panic => resume_unwind(Box::new("planned")),
                Scope(n, body) => {
                    let before = *now;
                    self.open.lock().unwrap().push((me, *n));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        (self.dev.with)(*n, &mut || {
                            let mut inner = *n;
                            self.go(me, body, &mut inner);
                            n * 10 + 1
                        })
                    }));
                    let mut o = self.open.lock().unwrap();
                    let k = o.iter().rposition(|x| *x == (me, *n)).unwrap();
                    o.remove(k);
                    drop(o);
                    *now = before;
                    match r {
                        Ok(v) => if v != n * 10 + 1 { self.bad(format!("thread {me}: the scope returns {v}")) },
                        Err(e) => {
                            if e.downcast_ref::<&str>() != Some(&"planned") { self.bad(format!("thread {me}: another panic")) }
                            // half of the panics are caught here, the others further out
                            if n % 2 == 0 { resume_unwind(e) }
                        },
                    }
                },
            }
        }
    }
}

/// all schedules of one case in this process: "ok SCHEDULES POINTS" or "bad: ..."
fn child(lib: Lib, api: bool, progs: &[Vec<P>], preemptions: i32) -> String {
    std::panic::set_hook(Box::new(|_| {}));
    let d = dev(lib, api);
    let run = Arc::new(Run { dev: d, lib, alone: progs.len() == 1, sets: format!("{progs:?}").contains("Set"), open: Mutex::new(vec![]), bad: Mutex::new(None) });
    (run.dev.set)(5);
    let (mut script, mut runs, mut points): (Vec<i32>, usize, usize) = (vec![], 0, 0);
    loop {
        unsafe {
            for (k, s) in script.iter().enumerate() { mc_script[k] = *s }
            mc_nscript = script.len() as i32;
            mc_begin(progs.len() as i32);
        }
        let h: Vec<_> = progs.iter().cloned().enumerate().map(|(i, p)| {
            let run = run.clone();
            std::thread::spawn(move || {
                // a per-thread count starts at what the thread sets
                if !shared(run.lib) { (run.dev.set)(5) }
                unsafe { mc_join(i as i32) }
                let mut now = 5;
                let r = catch_unwind(AssertUnwindSafe(|| run.go(i, &p, &mut now)));
                if let Err(e) = r { if e.downcast_ref::<&str>() != Some(&"planned") { run.bad(format!("thread {i} panics")) } }
                if !shared(run.lib) && (run.dev.get)() != now { run.bad(format!("thread {i}: the count is {} afterwards", (run.dev.get)())) }
                unsafe { mc_leave() }
            })
        }).collect();
        for h in h { h.join().unwrap() }
        runs += 1;
        let n = unsafe { mc_pos } as usize;
        points += n;
        let (taken, width, free): (Vec<i32>, Vec<i32>, Vec<i32>) = unsafe { (mc_taken[..n].to_vec(), mc_width[..n].to_vec(), mc_free[..n].to_vec()) };
        let after = (run.dev.get)();
        if after != 5 { run.bad(format!("the count is {after} when all scopes have ended, 5 before")) }
        if let Some(b) = run.bad.lock().unwrap().take() { return format!("bad: {b}; schedule {taken:?}") }
        if run.open.lock().unwrap().len() > 0 { return "bad: scopes left open".into() }
        // next schedule: the last point with another choice left within the bound on preemptions
        let mut used = vec![0];
        for k in 0..n { used.push(used[k] + (free[k] == 0 && taken[k] > 0) as i32) }
        let next = (0..n).rev().find(|k| taken[*k] + 1 < width[*k] && (free[*k] == 1 || taken[*k] > 0 || used[*k] < preemptions));
        match next {
            Some(k) => { script = taken[..k].to_vec(); script.push(taken[k] + 1) },
            None => return format!("ok {runs} {points}"),
        }
    }
}

/// programs by number: the child process makes them again
fn programs(n: usize) -> Vec<Vec<P>> {
    let looks = |v: Vec<P>| { let mut w = vec![Look]; for p in v { w.push(p); w.push(Look) } w };
    let base: Vec<Vec<P>> = vec![
        vec![Scope(1, vec![Look])],
        vec![Scope(3, vec![Look])],
        vec![Scope(1, vec![]), Scope(3, vec![])],
        vec![Scope(1, vec![Scope(3, vec![])])],
        vec![Scope(3, vec![Panic])],
        vec![Scope(4, vec![Panic])],
        vec![Scope(1, vec![Scope(4, vec![Panic])])],
        vec![Scope(1, vec![Scope(3, vec![Panic]), Look])],
        vec![Scope(1, vec![Set(7)])],
        // the rest: one thread only
        looks(vec![Scope(1, looks(vec![Scope(3, looks(vec![Scope(2, vec![Look])]))])), Scope(6, vec![Look])]),
        looks(vec![Scope(1, looks(vec![Scope(3, looks(vec![Scope(4, vec![Look, Panic])])), Scope(9, vec![Look])])), Scope(6, vec![Look])]),
        looks(vec![Set(5), Scope(1, looks(vec![Set(7), Scope(2, vec![Set(9), Look])])), Scope(1, vec![Set(3), Look, Panic]), Scope(5, vec![Look])]),
    ];
    if n == usize::MAX { return base }
    vec![base[n].clone()]
}
const MULTI: usize = 9;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--child") {
        let lib = [OpenBlasThread, OpenBlasOmp, Blis, Mkl, Aocl, Kml, Default][a[2].parse::<usize>().unwrap()];
        let progs: Vec<Vec<P>> = a[5].split(',').map(|k| programs(k.parse().unwrap()).remove(0)).collect();
        println!("{}", child(lib, a[3] == "1", &progs, a[4].parse().unwrap()));
        return;
    }
    fw::main("P25", |r| {
        let p2: i32 = r.pick(4, 6);
        let p3: i32 = r.pick(2, 3);
        r.bound(&format!("2 threads: every pair of {MULTI} programs (scopes in sequence, nested, with panics caught inside or outside, with explicit changes inside), all interleavings of library calls and lock operations with up to {p2} preemptions; 3 threads: triples of simple programs with up to {p3} preemptions; 1 thread: all programs, nested to depth 3"));
        r.bound("OpenBLAS (pthreads and OpenMP builds), BLIS, MKL, each as function and as device method; AOCL, KML and the default method of the trait: one thread only");
        r.assume("the libraries' thread counts behave as documented: one per process for OpenBLAS with pthreads and for BLIS, one per thread for OpenMP and for MKL's local setting; stand-ins with this behaviour take the place of the libraries");
        r.assume("points where threads can be exchanged: calls into the library, waits and wakes of std locks, and the body of the scope; plain atomics in between are not split");
        let all = [OpenBlasThread, OpenBlasOmp, Blis, Mkl, Aocl, Kml, Default];
        let mut items: Vec<(usize, bool, i32, Vec<usize>)> = vec![];
        let np = programs(usize::MAX).len();
        for (k, l) in all.iter().enumerate() {
            for api in [false, true] {
                for p in 0..np { items.push((k, api, 0, vec![p])) }
                if matches!(l, Aocl | Kml | Default) { continue }
                for a in 0..MULTI { for b in a..MULTI { if !api || (a < 3 && b < 5) { items.push((k, api, p2, vec![a, b])) } } }
                if api { continue }
                for a in [0, 1, 4] { for b in [0, 1, 5] { for c in [0, 1, 3] { if a <= b && b <= c || r.thorough() { items.push((k, api, p3, vec![a, b, c])) } } } }
            }
        }
        let exe = std::env::current_exe().unwrap();
        let total = std::sync::atomic::AtomicUsize::new(0);
        r.par("interleavings", &items, |cx, (k, api, pre, ps)| {
            cx.state(&(k, api, ps));
            cx.case(format_args!("{:?}|{}|{ps:?}|preemptions<={pre}", all[*k], if *api { "method" } else { "function" }), || -> Res {
                let list: Vec<String> = ps.iter().map(|p| p.to_string()).collect();
                let o = std::process::Command::new(&exe).args(["--child", &k.to_string(), if *api { "1" } else { "0" }, &pre.to_string(), &list.join(",")]).output().map_err(|e| e.to_string())?;
                let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
                match s.strip_prefix("ok ") {
                    Some(v) => {
                        let v: Vec<usize> = v.split(' ').map(|x| x.parse().unwrap()).collect();
                        total.fetch_add(v[0], std::sync::atomic::Ordering::Relaxed);
                        Ok(Out::Val)
                    },
                    None if s.is_empty() => Err(format!("the process ends with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())),
                    None => Err(s),
                }
            });
        });
        ops::explore(r);
        // einsum sets the count for itself; here every call fails before it computes anything
        use rstsr_core::prelude::*;
        let subs = ["ij,jk->ik", "ij,jk,kl->il", "ij->ijk", "->", "ij,jk->zz", "i j", ",", "ij,,jk->i", "ii,jj->q", "é,jk->k"];
        let cases: Vec<(&str, usize, bool)> = subs.iter().flat_map(|s| (0..4).flat_map(move |k| [(*s, k, true), (*s, k, false)])).filter(|c| c.1 > 0).collect();
        r.par("einsum that fails", &cases, |cx, (s, n, out)| {
            cx.state(&(s, n, out));
            let _one_at_a_time = ONE.lock().unwrap_or_else(|e| e.into_inner());
            cx.case(format_args!("einsum|{s}|{n} operands|output={out}"), || -> Res {
                let d = DeviceFaer::new(2);
                let ok = matches!((*s, *n), ("ij,jk->ik", 2) | ("ij,jk,kl->il", 3) | ("->", 0));
                if ok { return Ok(Out::Skip) }
                let a: Vec<Tensor<f64, DeviceFaer>> = (0..*n).map(|_| rstsr_core::prelude::rt::zeros(([2, 2], &d)).into_dyn()).collect();
                let v: Vec<_> = a.iter().map(|t| t.view()).collect();
                let mut o: Tensor<f64, DeviceFaer> = rstsr_core::prelude::rt::zeros(([2, 2], &d)).into_dyn();
                let before = tblis::threading::tblis_get_num_threads();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if *out { rstsr_tblis::einsum_impl::einsum_with_output_f(s, v, true, true, o.view_mut()).is_ok() } else { rstsr_tblis::einsum_impl::einsum_f(s, v, true, true).is_ok() }
                }));
                let after = tblis::threading::tblis_get_num_threads();
                if before != after { return Err(format!("the count is {after} afterwards, {before} before")) }
                Ok(if matches!(r, Ok(true)) { Out::Val } else { Out::Rej })
            });
        });
        r.extra("schedules", &total.load(std::sync::atomic::Ordering::Relaxed).to_string());
    });
}
