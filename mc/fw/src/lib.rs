//! Bounded exhaustive explorer: enumerates every case of a finite space, runs each on the real code,
//! compares with a reference model, and records what was covered.

pub mod lay;
pub mod nd;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// How a case that did not violate anything ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    /// the whole observable result was compared with the model
    Val,
    /// the model says the call must be rejected, and it was
    Rej,
    /// nothing to compare (outside the property)
    Skip,
}
pub type Res = Result<Out, String>;

const NOTE: usize = 4096;
const MAXW: usize = 64;

struct Slot {
    /// 0 idle, otherwise milliseconds since start at which the running case began (+1)
    begun: AtomicU64,
    len: AtomicUsize,
    buf: std::cell::UnsafeCell<[u8; NOTE]>,
}
unsafe impl Sync for Slot {}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot { begun: AtomicU64::new(0), len: AtomicUsize::new(0), buf: std::cell::UnsafeCell::new([0; NOTE]) };
static SLOTS: [Slot; MAXW] = [SLOT0; MAXW];
static mut PROP: [u8; 16] = [0; 16];
static mut PROP_LEN: usize = 0;
static mut CRASH_PATH: [u8; 512] = [0; 512];
static CRASHED: AtomicBool = AtomicBool::new(false);

thread_local! {
    static MYSLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Viol {
    pub key: String,
    pub msg: String,
}

pub struct Runner {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub dir: String,
    pub replay: Option<String>,
    start: Instant,
    deadline: Option<Instant>,
    capped: Mutex<Vec<String>>,
    transitions: AtomicU64,
    validated: AtomicU64,
    rejected: AtomicU64,
    skipped: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicU64,
    max_viol: usize,
    known_hits: Mutex<BTreeMap<usize, u64>>,
    known: Vec<(String, String)>,
    samples: Mutex<Vec<String>>,
    families: Mutex<Vec<(String, u64, u64)>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    extra: Mutex<BTreeMap<String, String>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    #[derive(Default)]
    struct Fx(u64);
    impl Hasher for Fx {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 32;
            x = x.wrapping_mul(0x9E3779B97F4A7C15);
            x ^ (x >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut v = 0u64;
                for (i, x) in c.iter().enumerate() {
                    v |= (*x as u64) << (8 * i);
                }
                self.0 = (self.0.rotate_left(5) ^ v ^ c.len() as u64).wrapping_mul(0x517cc1b727220a95);
            }
        }
    }
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

extern "C" fn on_signal(sig: libc::c_int) {
    unsafe {
        if CRASHED.swap(true, SeqCst) {
            loop {
                libc::sleep(1);
            }
        }
        let slot = MYSLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
        // a crash on a helper thread (a thread pool of the code under test) belongs to some running case
        let mut pick = slot;
        if pick >= MAXW || SLOTS[pick].begun.load(SeqCst) == 0 {
            pick = usize::MAX;
            for (i, s) in SLOTS.iter().enumerate() {
                if s.begun.load(SeqCst) != 0 {
                    pick = i;
                    break;
                }
            }
        }
        if pick >= MAXW {
            let m = b"fatal signal outside any case: engine error\n";
            libc::write(2, m.as_ptr().cast(), m.len());
            libc::_exit(70);
        }
        write_crash(pick, b"the process received a fatal signal (invalid memory access or abort) while this case ran: signal ", sig as u32);
        libc::_exit(1);
    }
}

unsafe fn write_crash(pick: usize, why: &[u8], num: u32) {
    let key = &(&*SLOTS[pick].buf.get())[..SLOTS[pick].len.load(SeqCst)];
    let path = &*std::ptr::addr_of!(CRASH_PATH);
    let fd = libc::open(path.as_ptr().cast(), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
    let w = |fd: libc::c_int, b: &[u8]| {
        libc::write(fd, b.as_ptr().cast(), b.len());
    };
    let mut digits = [0u8; 10];
    let mut n = num;
    let mut k = 10;
    loop {
        k -= 1;
        digits[k] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    if fd >= 0 {
        w(fd, b"case: ");
        w(fd, key);
        w(fd, b"\nwhat: ");
        w(fd, why);
        w(fd, &digits[k..]);
        w(fd, b"\n");
    }
    w(1, b"# case: ");
    w(1, key);
    w(1, b"\n# what: ");
    w(1, why);
    w(1, &digits[k..]);
    w(1, b"\nVIOLATION property=");
    w(1, &(&*std::ptr::addr_of!(PROP))[..PROP_LEN]);
    w(1, b" replay=");
    let n = path.iter().position(|c| *c == 0).unwrap_or(0);
    w(1, &path[..n]);
    w(1, b"\n");
}

fn install(id: &str, dir: &str) {
    unsafe {
        let b = id.as_bytes();
        (&mut (*std::ptr::addr_of_mut!(PROP)))[..b.len()].copy_from_slice(b);
        PROP_LEN = b.len();
        let p = format!("{dir}/replays/{id}-crash.txt");
        (&mut (*std::ptr::addr_of_mut!(CRASH_PATH)))[..p.len()].copy_from_slice(p.as_bytes());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let idle = MYSLOT.with(|s| s.get() >= MAXW || SLOTS[s.get()].begun.load(Relaxed) == 0);
        if idle {
            eprintln!("panic outside a case: {m}{loc}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}

/// Run a call of the code under test; a panic becomes Err(message).
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC_MSG.with(|p| p.borrow().clone());
        let mut m: String = m.chars().take(400).collect();
        if m.is_empty() {
            m = "panic".into();
        }
        format!("panicked: {m}")
    })
}

pub struct Cx<'a> {
    pub r: &'a Runner,
    transitions: u64,
    validated: u64,
    rejected: u64,
    skipped: u64,
    states: HashSet<u64>,
    outcomes: BTreeMap<&'static str, u64>,
    slot: usize,
    buf: String,
    family: &'a str,
    nsamp: usize,
}

impl<'a> Cx<'a> {
    /// One case: `key` names it completely (it is the replay handle), `f` runs it on the real code and
    /// compares with the model.
    pub fn case(&mut self, key: std::fmt::Arguments<'_>, f: impl FnOnce() -> Res) {
        if self.r.stop.load(Relaxed) {
            return;
        }
        self.buf.clear();
        let _ = write!(self.buf, "{}|{}", self.family, key);
        if let Some(want) = &self.r.replay {
            if *want != self.buf {
                return;
            }
        }
        let s = &SLOTS[self.slot];
        let n = self.buf.len().min(NOTE);
        unsafe { (&mut (*s.buf.get()))[..n].copy_from_slice(&self.buf.as_bytes()[..n]) };
        s.len.store(n, Relaxed);
        s.begun.store(self.r.start.elapsed().as_millis() as u64 + 1, Release);
        self.transitions += 1;
        let res = match call(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        s.begun.store(0, Release);
        if self.r.replay.is_some() {
            println!("replayed: {}\nresult: {:?}", self.buf, res);
        }
        match res {
            Ok(Out::Val) => self.validated += 1,
            Ok(Out::Rej) => self.rejected += 1,
            Ok(Out::Skip) => self.skipped += 1,
            Err(m) => self.r.violation(self.buf.clone(), m),
        }
        if self.nsamp < 1 {
            self.nsamp += 1;
            let mut v = self.r.samples.lock().unwrap();
            if v.len() < 40 && v.iter().filter(|x| x.split('|').next() == Some(self.family)).count() < 3 {
                v.push(self.buf.clone());
            }
        }
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        self.states.insert(hash_of(t))
    }
    pub fn outcome(&mut self, name: &'static str) {
        *self.outcomes.entry(name).or_default() += 1;
    }
    fn merge(self) {
        let r = self.r;
        r.transitions.fetch_add(self.transitions, Relaxed);
        r.validated.fetch_add(self.validated, Relaxed);
        r.rejected.fetch_add(self.rejected, Relaxed);
        r.skipped.fetch_add(self.skipped, Relaxed);
        for h in self.states {
            r.states[(h as usize) % r.states.len()].lock().unwrap().insert(h);
        }
        let mut o = r.outcomes.lock().unwrap();
        for (k, v) in self.outcomes {
            *o.entry(k.to_string()).or_default() += v;
        }
    }
}

impl Runner {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// pick a bound by tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn extra(&self, k: &str, v: impl std::fmt::Display) {
        self.extra.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn threads(&self) -> usize {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    }

    fn violation(&self, key: String, msg: String) {
        for (i, (pat, _)) in self.known.iter().enumerate() {
            if *pat == key {
                *self.known_hits.lock().unwrap().entry(i).or_default() += 1;
                return;
            }
        }
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.viols.lock().unwrap();
        v.push(Viol { key, msg });
        if v.len() >= self.max_viol {
            self.stop.store(true, Relaxed);
        }
    }

    /// Explore one family: `items` are distributed over worker threads, `f` enumerates the cases of an item.
    pub fn par<I: Sync>(&self, family: &str, items: &[I], f: impl Fn(&mut Cx, &I) + Sync) {
        self.par_n(family, items, self.threads(), f)
    }

    pub fn par_n<I: Sync>(&self, family: &str, items: &[I], nthreads: usize, f: impl Fn(&mut Cx, &I) + Sync) {
        if self.stop.load(Relaxed) {
            return;
        }
        if let Some(w) = &self.replay {
            if w.split('|').next() != Some(family) {
                return;
            }
        }
        let t0 = Instant::now();
        let (tr0, v0) = (self.transitions.load(Relaxed), self.validated.load(Relaxed));
        let next = AtomicUsize::new(0);
        let capped = AtomicBool::new(false);
        std::thread::scope(|s| {
            for w in 0..nthreads.min(items.len().max(1)).min(MAXW) {
                let (f, next, capped) = (&f, &next, &capped);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        MYSLOT.with(|m| m.set(w));
                        let mut cx = self.cx(family, w);
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stop.load(Relaxed) {
                                break;
                            }
                            if self.deadline.is_some_and(|d| Instant::now() > d) {
                                capped.store(true, Relaxed);
                                break;
                            }
                            cx.nsamp = 0;
                            f(&mut cx, &items[i]);
                        }
                        MYSLOT.with(|m| m.set(usize::MAX));
                        cx.merge();
                    })
                    .unwrap();
            }
        });
        if capped.load(Relaxed) {
            self.capped.lock().unwrap().push(format!("family {family}: wall-time cap hit after {} of {} items", next.load(Relaxed).min(items.len()), items.len()));
        }
        let tr = self.transitions.load(Relaxed) - tr0;
        self.families.lock().unwrap().push((family.to_string(), tr, self.validated.load(Relaxed) - v0));
        println!("# {family}: {tr} transitions in {:.1}s", t0.elapsed().as_secs_f64());
    }

    fn cx<'a>(&'a self, family: &'a str, slot: usize) -> Cx<'a> {
        Cx {
            r: self,
            transitions: 0,
            validated: 0,
            rejected: 0,
            skipped: 0,
            states: HashSet::new(),
            outcomes: BTreeMap::new(),
            slot,
            buf: String::new(),
            family,
            nsamp: 0,
        }
    }

    fn finish(self) -> i32 {
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let mut viols = self.viols.into_inner().unwrap();
        viols.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
        let capped = self.capped.into_inner().unwrap();
        let (tr, va, rj, sk) =
            (self.transitions.load(SeqCst), self.validated.load(SeqCst), self.rejected.load(SeqCst), self.skipped.load(SeqCst));
        if self.replay.is_some() {
            println!("replay: {} case(s) matched, {} violation(s)", tr, viols.len());
            for v in &viols {
                println!("{}\n  {}", v.key, v.msg);
            }
            if viols.is_empty() {
                return 0;
            }
            return 1;
        }
        let mut j = String::new();
        let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
        let _ = write!(
            j,
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states}, \"transitions\": {tr}, \"traces_validated_against_impl\": {va},\n  \"calls_rejected_as_required\": {rj}, \"calls_without_verdict\": {sk}, \"exhaustive\": {},\n",
            jstr(&self.id), jstr(&self.tier), self.seed, capped.is_empty() && viols.is_empty()
        );
        let _ = writeln!(j, "  \"bounds\": [{}],", list(&self.bounds.into_inner().unwrap()));
        let _ = writeln!(j, "  \"caps_hit\": [{}],", list(&capped));
        let fam = self.families.into_inner().unwrap();
        let _ = writeln!(
            j,
            "  \"families\": {{{}}},",
            fam.iter().map(|(n, t, v)| format!("{}: {{\"transitions\": {t}, \"validated\": {v}}}", jstr(n))).collect::<Vec<_>>().join(", ")
        );
        let oc = self.outcomes.into_inner().unwrap();
        let _ = writeln!(j, "  \"outcomes\": {{{}}},", oc.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
        for (k, v) in self.extra.into_inner().unwrap() {
            let _ = writeln!(j, "  {}: {},", jstr(&k), if v.parse::<f64>().is_ok() { v } else { jstr(&v) });
        }
        let _ = writeln!(j, "  \"samples\": [{}]\n }},", list(&self.samples.into_inner().unwrap()));
        let _ = writeln!(j, " \"assumptions\": [{}],", list(&self.assumptions.into_inner().unwrap()));
        let wall = self.start.elapsed().as_secs_f64();
        let _ = writeln!(j, " \"wall_s\": {wall:.2}, \"violations\": {}\n}}", viols.len());
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.dir));
        let ev = format!("{}/evidence/{}.json", self.dir, self.id);
        if let Err(e) = std::fs::write(&ev, j) {
            eprintln!("cannot write {ev}: {e}");
            return 71;
        }
        println!("# {} {}: states={states} transitions={tr} validated={va} rejected={rj} wall={wall:.1}s", self.id, self.tier);
        for c in &capped {
            println!("# CAP {c}");
        }
        for (i, n) in self.known_hits.into_inner().unwrap() {
            println!("KNOWN-FINDING: property={} {} ({n} case(s))", self.id, self.known[i].1);
        }
        if viols.is_empty() && (tr == 0 || states == 0) {
            eprintln!("nothing was explored: engine error");
            return 72;
        }
        if viols.is_empty() {
            return 0;
        }
        let dir = format!("{}/replays", self.dir);
        let _ = std::fs::create_dir_all(&dir);
        for (n, v) in viols.iter().take(if self.max_viol > 400 { usize::MAX } else { 5 }).enumerate() {
            let path = format!("{dir}/{}-{n}.txt", self.id);
            let bin = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
            let _ = std::fs::write(
                &path,
                format!("case: {}\nwhat: {}\nrerun: bash /verif/run.sh {} {} --replay {path}   ({bin})\n", v.key, v.msg, self.id, self.tier),
            );
            println!("# case: {}\n# what: {}", v.key, v.msg);
            println!("VIOLATION property={} replay={path}", self.id);
        }
        println!("# {} violating case(s) in total", self.nviol.load(SeqCst));
        1
    }
}

pub fn main(id: &str, f: impl FnOnce(&Runner)) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let mut tier = env("VERIF_TIER").unwrap_or_else(|| "quick".into());
    let mut replay = None;
    let mut it = args.iter().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "quick" | "thorough" => tier = a.clone(),
            "--replay" => {
                let p = it.next().expect("--replay FILE");
                let t = std::fs::read_to_string(p).expect("replay file");
                let l = t.lines().find_map(|l| l.strip_prefix("case: ")).expect("case line");
                replay = Some(l.to_string());
            },
            _ => {},
        }
    }
    let dir = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    install(id, &dir);
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    // known findings: lines  "finding: property=ID key=<exact case key> ## <what fails>"
    let mut known = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&format!("finding: property={id} key=")) {
                if let Some((k, w)) = rest.split_once(" ## ") {
                    known.push((k.to_string(), w.to_string()));
                }
            }
        }
    }
    let start = Instant::now();
    let cap = match tier.as_str() {
        "thorough" => 3 * 3600,
        _ => 420,
    };
    let r = Runner {
        id: id.into(),
        tier,
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        dir,
        replay,
        start,
        deadline: Some(start + Duration::from_secs(cap)),
        capped: Default::default(),
        transitions: AtomicU64::new(0),
        validated: AtomicU64::new(0),
        rejected: AtomicU64::new(0),
        skipped: AtomicU64::new(0),
        states: (0..64).map(|_| Default::default()).collect(),
        viols: Default::default(),
        nviol: AtomicU64::new(0),
        max_viol: std::env::var("FW_MAX_VIOL").ok().and_then(|v| v.parse().ok()).unwrap_or(400),
        known_hits: Default::default(),
        known,
        samples: Default::default(),
        families: Default::default(),
        outcomes: Default::default(),
        extra: Default::default(),
        bounds: Default::default(),
        assumptions: Default::default(),
        stop: AtomicBool::new(false),
    };
    // watchdog: a single bounded case that runs for minutes does not terminate
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = start.elapsed().as_millis() as u64;
        for (i, s) in SLOTS.iter().enumerate() {
            let b = s.begun.load(Acquire);
            if b != 0 && now > b + 150_000 && s.begun.load(Acquire) == b && !CRASHED.swap(true, SeqCst) {
                unsafe {
                    write_crash(i, b"this case did not finish; seconds waited: ", 150);
                    libc::_exit(1);
                }
            }
        }
    });
    f(&r);
    let code = r.finish();
    std::process::exit(code)
}
