//! P13: parallel kernels give the serial result however the work is divided and in whatever order the pieces
//! run, and no two concurrent pieces touch the same memory with one of them writing.
//!
//! The real kernels run on real rayon over a stand-in rayon-core (../rayon-core) whose fork-join scheduler takes
//! every decision rayon leaves to the machine from a script; the explorer enumerates the scripts depth first.
use core_mc::*;
use rayon_core::mc;
use rayon::prelude::*;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type V = Vec<(Vec<usize>, Vec<u64>)>;
trait Bits { fn bits(&self) -> u64; }
impl Bits for i64 { fn bits(&self) -> u64 { *self as u64 } }
impl Bits for i32 { fn bits(&self) -> u64 { *self as u64 } }
impl Bits for usize { fn bits(&self) -> u64 { *self as u64 } }
impl Bits for bool { fn bits(&self) -> u64 { *self as u64 } }
impl Bits for f64 { fn bits(&self) -> u64 { if self.is_nan() { 1 } else { (*self + 0.0).to_bits() } } }
fn nd<T: Bits>(n: Nd<T>) -> (Vec<usize>, Vec<u64>) { (n.shape, n.data.iter().map(|x| x.bits()).collect()) }
fn one<T: Bits>(x: T) -> V { vec![(vec![], vec![x.bits()])] }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add, AddNum, NumSub, Neg, Map, Sqrt, AddAssign, AddAssignNum, AddAssignB, MapInplace, Overwrite,
    Assign, Fill, Contig(bool), Reshape,
    SumAll, MaxAll, ArgAll, AllAny, MeanVarAll,
    SumAxes(usize), MaxAxes(usize), ArgAxes(usize), MeanVarAxes(usize),
    Vecdot(usize), Matmul, MatmulF, MatmulFrom, Syrk,
    Pack, Unpack, Select(usize), SelectBool(usize), Arange, Tri,
    Iter, IterMut, IndexedIter, AxesIter(usize), AxesIterMut(usize), Nested, Inside,
}
use Op::*;

#[derive(Clone)]
struct Job { op: Op, l: Vec<Lay>, row: bool }
type Item = (Job, bool);
impl Debug for Job {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}|row={}|{:?}", self.op, self.row, self.l) }
}

fn val(p: usize) -> i64 { (p as i64 * 7919 + 5) % 1009 - 500 }
fn small(p: usize) -> i64 { (p as i64 * 7919 + 5) % 13 - 6 }
/// the axes named by the bits of a mask
fn axes(m: usize, nd: usize) -> Vec<isize> { (0..nd).filter(|i| m >> i & 1 == 1).map(|i| i as isize).collect() }

macro_rules! ops {
    ($fname:ident, $dev:ty) => {
        fn $fname(j: &Job, d: &$dev) -> Result<V, String> {
            fn er<E: Debug>(e: E) -> String { let s = format!("rejected: {e:?}"); s.chars().take(300).collect() }
            fn out<R: DataAPI<Data = Vec<T>>, T: Bits + Clone, D: rstsr_common::prelude_dev::DimAPI>(t: TensorAny<R, T, $dev, D>) -> Result<V, String> { mc::paused(|| Ok(vec![nd(logical(&t)?)])) }
            let mk = |k: usize, f: fn(usize) -> i64| mc::paused(|| tensor((0..j.l[k].len).map(|p| f(p + 3 * k)).collect::<Vec<i64>>(), &j.l[k], d));
            let mkf = |k: usize, f: fn(usize) -> i64| mc::paused(|| tensor((0..j.l[k].len).map(|p| f(p + 3 * k) as f64).collect::<Vec<f64>>(), &j.l[k], d));
            let mkb = |k: usize, m: usize| mc::paused(|| tensor((0..j.l[k].len).map(|p| p % m != m - 1).collect::<Vec<bool>>(), &j.l[k], d));
            let n0 = j.l.first().map_or(0, |l| l.ndim());
            match j.op {
                Add => out(rt::add_f(&mk(0, val), &mk(1, val)).map_err(er)?),
                AddNum => out(rt::add_f(&mk(0, val), 7).map_err(er)?),
                NumSub => out(rt::sub_f(7, &mk(0, val)).map_err(er)?),
                Neg => out(rt::neg_f(&mk(0, val)).map_err(er)?),
                Map => out(mk(0, val).map_f(|x| x * 3 + 1).map_err(er)?),
                Sqrt => out(rt::square_f(&mkf(0, val)).map_err(er)?),
                AddAssign => { let mut a = mk(0, val); a += mk(1, val).view(); whole(&a) },
                AddAssignB => { let mut a = mk(0, val); let b = mk(1, val); rt::mul_assign_f(&mut a, &b).map_err(er)?; whole(&a) },
                AddAssignNum => { let mut a = mk(0, val); a += 5; whole(&a) },
                MapInplace => { let mut a = mk(0, val); a.mapi_f(|x| *x = *x * 3 + 1).map_err(er)?; whole(&a) },
                Overwrite => { let a = mk(0, val); out(-a) },
                Assign => { let mut a = mk(0, val); a.assign_f(&mk(1, val)).map_err(er)?; whole(&a) },
                Fill => { let mut a = mk(0, val); a.fill(5); whole(&a) },
                Contig(c) => out(mk(0, val).to_contig(if c { ROW } else { COL }).into_owned()),
                Reshape => { let a = mk(0, val); let n = j.l[0].size(); let r = a.reshape_f([n]).map_err(er)?; out(r) },
                SumAll => one2(mk(0, val).sum_all_f().map_err(er)?),
                MaxAll => { let a = mk(0, val); Ok([one(a.max_all_f().map_err(er)?), one(a.min_all_f().map_err(er)?), one(a.count_nonzero_all_f().map_err(er)?)].concat()) },
                ArgAll => { let a = mk(0, small); Ok([one(a.argmax_all_f().map_err(er)?), one(a.argmin_all_f().map_err(er)?)].concat()) },
                AllAny => { let a = mkb(0, 3001); Ok([one(a.all_all_f().map_err(er)?), one(a.any_all_f().map_err(er)?)].concat()) },
                MeanVarAll => { let a = mkf(0, small); Ok([one((a.mean_all() * 1e6).round()), one((a.var_all() * 1e6).round())].concat()) },
                SumAxes(m) => out(mk(0, val).sum_axes_f(axes(m, n0)).map_err(er)?),
                MaxAxes(m) => { let a = mk(0, val); Ok([out(a.max_axes_f(axes(m, n0)).map_err(er)?)?, out(a.count_nonzero_axes_f(axes(m, n0)).map_err(er)?)?].concat()) },
                ArgAxes(m) => { let a = mk(0, small); Ok([out(a.argmax_axes_f(axes(m, n0)).map_err(er)?)?, out(a.argmin_axes_f(axes(m, n0)).map_err(er)?)?].concat()) },
                MeanVarAxes(m) => { let a = mkf(0, small); out(a.var_axes_f(axes(m, n0)).map_err(er)?.map(|x| (x * 1e6).round())) },
                Vecdot(k) => out(rt::vecdot_f(&mk(0, small), &mk(1, small), k as isize).map_err(er)?),
                Matmul => out(rt::matmul_f(&mk(0, small), &mk(1, small)).map_err(er)?),
                MatmulF => out(rt::matmul_f(&mkf(0, small), &mkf(1, small)).map_err(er)?),
                // a matrix by its own transpose: computed as one triangle, then mirrored
                Syrk => { let a = mkf(0, small); out(rt::matmul_f(&a, a.t()).map_err(er)?) },
                MatmulFrom => { let mut c = mk(2, small); c.matmul_from_f(&mk(0, small), &mk(1, small), 2, 3).map_err(er)?; whole(&c) },
                Pack => { let a = mk(0, val); Ok([out(a.pack_tril_f().map_err(er)?)?, out(a.pack_triu_f().map_err(er)?)?].concat()) },
                Unpack => { let a = mkf(0, val); let mut v = vec![]; for s in [FlagSymm::Sy, FlagSymm::Ay, FlagSymm::N] { v.extend(out(a.unpack_tril_f(s).map_err(er)?)?); v.extend(out(a.unpack_triu_f(s).map_err(er)?)?) } Ok(v) },
                Select(k) => { let n = j.l[0].shape[k]; let ix: Vec<isize> = (0..n as isize + 3).map(|i| (i * 5 + 2) % n as isize).collect(); out(mk(0, val).index_select_f(k as isize, &ix).map_err(er)?) },
                SelectBool(k) => { let n = j.l[0].shape[k]; let ix: Vec<bool> = (0..n).map(|i| i % 3 != 1).collect(); out(mk(0, val).bool_select_f(k as isize, &ix).map_err(er)?) },
                Arange => { let n = 5003i64; Ok([out(rt::arange_f((3i64, 3 + 2 * n, 2i64, d)).map_err(er)?)?, out(rt::linspace_f((0.0, 1024.0, 4097, d)).map_err(er)?)?].concat()) },
                Tri => { let a = mk(0, val); Ok([out(rt::tril(&a))?, out(rt::triu(&a))?].concat()) },
                Iter => { let a = mk(0, val); Ok(vec![(vec![], a.iter().into_par_iter().map(|x| x.bits()).collect())]) },
                IndexedIter => { let a = mk(0, val); Ok(vec![(vec![], a.indexed_iter().into_par_iter().map(|(i, x)| i.iter().fold(0u64, |h, k| h * 131 + *k as u64) * 10007 + x.bits() % 10007).collect())]) },
                IterMut => { let mut a = mk(0, val); a.iter_mut().into_par_iter().for_each(|x| *x = *x * 2 + 1); whole(&a) },
                AxesIter(m) => { let a = mk(0, val); Ok(vec![(vec![], a.axes_iter_with_order(axes(m, n0), TensorIterOrder::C).into_par_iter().map(|v| v.sum_all() as u64).collect())]) },
                AxesIterMut(m) => { let mut a = mk(0, val); a.axes_iter_mut(axes(m, n0)).into_par_iter().for_each(|mut v| { v += 5; v *= 3 }); whole(&a) },
                // operations of the library inside a parallel loop of the user
                Nested => { let a = mk(0, val); let v: Vec<V> = (0..3i64).into_par_iter().map(|k| -> Result<V, String> { let t = rt::add_f(&a, k).map_err(er)?; Ok([out(t.view())?, one(t.sum_all_f().map_err(er)?)].concat()) }).collect::<Result<_, _>>()?; Ok(v.concat()) },
                // ... and inside the pool itself
                Inside => { let a = mk(0, val); let b = mk(0, small); let f = || -> Result<V, String> { let t = rt::add_f(&a, &b).map_err(er)?; let s = t.sum_axes_f(0).map_err(er)?; Ok([out(t)?, out(s)?].concat()) }; inside(f) },
            }
        }
    };
}
fn one2<T: Bits>(x: T) -> Result<V, String> { Ok(one(x)) }
/// the whole buffer, so that writes outside the array show as well
fn whole<B: DeviceAPI<i64, Raw = Vec<i64>> + DeviceRawAPI<i64, Raw = Vec<i64>>>(t: &Tensor<i64, B, IxD>) -> Result<V, String> {
    mc::paused(|| Ok(vec![(vec![], t.raw().iter().map(|x| x.bits()).collect())]))
}
fn inside<R: Send>(f: impl FnOnce() -> R + Send) -> R { rayon::join(f, || ()).0 }
ops!(run_s, DeviceCpuSerial);
ops!(run_f, DeviceFaer);

static SCHED: AtomicU64 = AtomicU64::new(0);
static JOINS: AtomicU64 = AtomicU64::new(0);
static STRANDS: AtomicU64 = AtomicU64::new(0);
static ACCESSES: AtomicU64 = AtomicU64::new(0);
static PARALLEL: AtomicU64 = AtomicU64::new(0);

/// All schedules of one job: thread counts, stolen sides (up to a budget that depends on the number of joins),
/// either side of every join first.
fn explore(cx: &mut Cx, j: &Job, steal: bool, nmax: usize, deep: usize, nojoin_ok: bool) {
    let want = match call(|| run_s(j, &serial(j.row))) { Ok(r) => r, Err(e) => Err(e) };
    for n in 1..=nmax {
        cx.case(format_args!("n={n}|{j:?}"), || {
            let want = match &want { Ok(w) => w, Err(e) => return Err(format!("serial reference: {e}")) };
            let mut d = faer(j.row, n);
            d.set_default_order(if j.row { ROW } else { COL });
            // one run under one script; its joins and the choices it asked for
            let once = |script: &[u8], budget: usize, swap: bool| -> Result<mc::Seen, String> {
                let (r, seen) = mc::run(script, budget, swap, n, || run_f(j, &d));
                SCHED.fetch_add(1, Relaxed);
                JOINS.fetch_add(seen.joins, Relaxed);
                STRANDS.fetch_add(seen.strands as u64, Relaxed);
                ACCESSES.fetch_add(seen.accesses, Relaxed);
                let at = || format!("threads={n} stolen={:?} {}", seen.taken.iter().enumerate().filter(|(_, t)| t.0 == 1).map(|(i, _)| i).collect::<Vec<_>>(), if swap { "second sides first" } else { "first sides first" });
                if let Some(r) = &seen.race { return Err(format!("data race: {r} ({})", at())) }
                let got = match r { Ok(r) => r.map_err(|e| format!("{e} ({})", at()))?, Err(p) => return Err(format!("panicked ({}): {}", at(), p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
                if got != *want {
                    let k = (0..got.len().min(want.len())).find(|&k| got[k] != want[k]).unwrap_or(0);
                    let (g, w) = (&got[k], &want[k]);
                    let i = g.1.iter().zip(&w.1).position(|(a, b)| a != b);
                    return Err(format!("differs from the serial result ({}): part {k}, shape {:?} against {:?}, first different element {i:?}: {:?} against {:?}", at(), g.0, w.0, i.map(|i| g.1[i] as i64), i.map(|i| w.1[i] as i64)));
                }
                Ok(seen)
            };
            for swap in [false, true] {
                let seen = once(&[], 0, swap)?;
                if !swap { if seen.joins > 0 { PARALLEL.fetch_add(1, Relaxed); } else if n > 1 && !nojoin_ok { return Err("this input was meant to reach the parallel code".into()) } }
                // no join: nothing to reorder
                if seen.joins == 0 { break }
                // with one thread nothing is stolen
                let budget = match seen.joins { _ if n == 1 || !steal => 0, 1..=8 => 2 + deep, 9..=40 => 1 + deep, 41..=400 => deep.min(1), _ => 0 };
                if budget == 0 { continue }
                let mut script: Vec<u8> = vec![];
                loop {
                    let seen = once(&script, budget, swap)?;
                    script = seen.taken.iter().map(|x| x.0).collect();
                    while script.last() == Some(&1) { script.pop(); }
                    match script.last_mut() { Some(c) => *c = 1, None => break }
                }
            }
            Ok(Out::Val)
        });
    }
}

fn main() {
    fw::main("P13", |r| {
        r.bound("1..=4 threads (thorough: 1..=6); for each, every placement of up to 2 (3 to 8 joins), 1 (9 to 40 joins) or 0 stolen sides (thorough: one more, and one up to 400 joins), which is what decides how rayon splits; either side of every join first; element-wise, in-place, assignment, fill, conversion, reshape, reduction, arg-reduction, vecdot, matmul, pack/unpack, select, creation and iteration over arrays just above the thresholds of the parallel kernels, all layouts within the stated deviations, both conventions");
        r.assume("data races are judged on the loads and stores of rstsr, rayon and generic code instantiated in them (sanitizer coverage instrumentation), byte by byte over heap, statics and the stack above the join; accesses by faer's kernels and by precompiled std are not seen; atomics are not synchronisation between pieces (the kernels use none for that)");
        r.assume("by the SP theorem for fork-join programs (Feng and Leiserson) an execution without a determinacy race decides all interleavings of the same fork-join tree, so only trees and, redundantly, two orders per tree are enumerated");
        let nmax = r.pick(4, 6);
        let deep = r.pick(0, 1);
        let t = r.thorough();
        let mut jobs: Vec<Job> = vec![];
        let all = [PLAIN, FLIP, STEP, BCAST, PAD];
        let nob = [PLAIN, FLIP, STEP, PAD];
        let dv = |s: &[usize], kinds: &[Axis], k: usize| layouts_dev(s, kinds, k);
        // ---- element-wise: above 4096
        for s in [vec![4160], vec![65, 66], vec![9, 21, 23], vec![3, 2, 5, 7, 21]] {
            let k = if s.len() > 3 { if t { 1 } else { 0 } } else if t { 2 } else { 1 };
            let las = dv(&s, &all, k);
            for la in &las {
                for row in [true, false] {
                    if !row && !t && s.len() != 2 { continue }
                    for op in [AddNum, NumSub, Neg, Map, Sqrt, Iter] { jobs.push(Job { op, l: vec![la.clone()], row }) }
                    if row && s.len() > 1 { jobs.push(Job { op: IndexedIter, l: vec![la.clone()], row }); jobs.push(Job { op: Nested, l: vec![la.clone()], row }); jobs.push(Job { op: Inside, l: vec![la.clone()], row }) }
                    if !la.has_bcast() { for op in [AddAssignNum, MapInplace, IterMut, Overwrite] { jobs.push(Job { op, l: vec![la.clone()], row }) } }
                }
            }
            let lbs = dv(&s, &all, 1);
            for (x, la) in las.iter().enumerate() {
                for (y, lb) in lbs.iter().enumerate() {
                    if x > 4 && y > 4 && (x + y) % if t { 3 } else { 9 } != 0 { continue }
                    jobs.push(Job { op: Add, l: vec![la.clone(), lb.clone()], row: true });
                    if !la.has_bcast() {
                        jobs.push(Job { op: AddAssign, l: vec![la.clone(), lb.clone()], row: true });
                        jobs.push(Job { op: AddAssignB, l: vec![la.clone(), lb.clone()], row: true });
                    }
                }
            }
        }
        for (a, b) in [(vec![65, 66], vec![66]), (vec![65, 1], vec![1, 66]), (vec![9, 21, 23], vec![21, 1]), (vec![9, 21, 23], vec![1, 1, 23]), (vec![1, 23], vec![9, 21, 1])] {
            for la in dv(&a, &nob, 1) { for lb in dv(&b, &nob, 1) { for row in [true, false] {
                let (mut la, mut lb) = (la.clone(), lb.clone());
                if !row { for l in [&mut la, &mut lb] { l.shape.reverse(); l.stride.reverse() } }
                jobs.push(Job { op: Add, l: vec![la.clone(), lb.clone()], row });
                if a.len() == 3 || b.len() == 1 { jobs.push(Job { op: AddAssign, l: vec![la, lb], row }) }
            } } }
        }
        let cut = jobs.len();
        // ---- assignment, fill, conversion: above 16384
        for s in [vec![16400], vec![130, 127], vec![23, 26, 29], vec![3, 5, 7, 8, 21]] {
            let k = if s.len() > 3 { 0 } else if t { 2 } else { 1 };
            let mut las = dv(&s, &all, k);
            las.push(f_contig(&s));
            for la in &las {
                jobs.push(Job { op: Contig(true), l: vec![la.clone()], row: true });
                jobs.push(Job { op: Contig(false), l: vec![la.clone()], row: true });
                jobs.push(Job { op: Reshape, l: vec![la.clone()], row: true });
                jobs.push(Job { op: Reshape, l: vec![la.clone()], row: false });
                if !la.has_bcast() {
                    jobs.push(Job { op: Fill, l: vec![la.clone()], row: true });
                    for lb in &las { jobs.push(Job { op: Assign, l: vec![la.clone(), lb.clone()], row: true }) }
                }
            }
        }
        let cut2 = jobs.len();
        // ---- reductions: above 1024
        for s in [vec![1100], vec![34, 35], vec![70, 2, 9], vec![9, 11, 13], vec![3, 4, 5, 24]] {
            let k = if t { 2 } else if s.len() > 3 { 1 } else { 2 };
            for la in dv(&s, &all, k) {
                for op in [SumAll, MaxAll, ArgAll, AllAny, MeanVarAll] { jobs.push(Job { op, l: vec![la.clone()], row: true }) }
                for m in 0..1usize << s.len() {
                    jobs.push(Job { op: SumAxes(m), l: vec![la.clone()], row: true });
                    if m.count_ones() == 1 || t { for op in [MaxAxes(m), MeanVarAxes(m)] { jobs.push(Job { op, l: vec![la.clone()], row: true }) } }
                    if m != 0 && (s.len() < 4 || t) { for row in [true, false] { jobs.push(Job { op: ArgAxes(m), l: vec![la.clone()], row }) } }
                }
            }
        }
        // arg reductions run parallel within parallel only for long inner axes
        for s in [vec![2, 1030], vec![1030, 3]] { for la in dv(&s, &all, 1) { for m in [1, 2] { for row in [true, false] { jobs.push(Job { op: ArgAxes(m), l: vec![la.clone()], row }); jobs.push(Job { op: SumAxes(m), l: vec![la.clone()], row }) } } } }
        let cut3 = jobs.len();
        // ---- products
        for (a, b, k) in [(vec![600], vec![600], 0), (vec![40, 30], vec![40, 30], 0), (vec![40, 30], vec![40, 30], 1), (vec![5, 12, 11], vec![5, 12, 11], 1), (vec![130, 9], vec![130, 9], 0), (vec![5, 12, 11], vec![1, 12, 1], 1), (vec![9, 130], vec![9, 1], 0)] {
            for la in dv(&a, &all, 1) { for lb in dv(&b, &all, if t { 1 } else { 0 }).into_iter().chain([f_contig(&b)]) { for row in [true, false] { jobs.push(Job { op: Vecdot(k), l: vec![la.clone(), lb.clone()], row }) } } }
        }
        for (a, b) in [(vec![7], vec![7]), (vec![5, 4], vec![4, 3]), (vec![4], vec![4, 5]), (vec![5, 4], vec![4]), (vec![3, 2, 4], vec![4, 3]), (vec![3, 2, 4], vec![3, 4, 2]), (vec![2, 2, 2, 3], vec![2, 3, 2]), (vec![2, 3], vec![3, 3, 2])] {
            for la in dv(&a, &all, 1) { for lb in dv(&b, &all, 1) { for row in [true, false] {
                if !row && (a.len() > 2 || b.len() > 2) { continue }
                for op in [Matmul, MatmulF] {
                    // large products are split inside faer, which is not watched
                    jobs.push(Job { op, l: vec![la.clone(), lb.clone()], row })
                }
                if a.len() + b.len() > 2 && a.len() > 1 && b.len() > 1 {
                    let mut c: Vec<usize> = if a.len() > b.len() { a[..a.len() - 2].to_vec() } else { b[..b.len() - 2].to_vec() };
                    c.extend([a[a.len() - 2], b[b.len() - 1]]);
                    for lc in dv(&c, &[PLAIN, FLIP, STEP], 1) { if row { jobs.push(Job { op: MatmulFrom, l: vec![la.clone(), lb.clone(), lc], row }) } }
                }
            } } }
        }
        for s in [vec![66, 3], vec![65, 1], vec![3, 66]] { for la in dv(&s, &all, 1) { for row in [true, false] { jobs.push(Job { op: Syrk, l: vec![la.clone()], row }) } } }
        let cut4 = jobs.len();
        // ---- packing, selecting, creating, iterating by axes
        for s in [vec![5, 4, 4], vec![3, 2, 3, 3], vec![9, 2, 2], vec![3, 3]] { for la in dv(&s, &all, if t { 2 } else { 1 }) { jobs.push(Job { op: Pack, l: vec![la.clone()], row: true }) } }
        for s in [vec![5, 10], vec![3, 2, 6], vec![9, 3], vec![6]] { for la in dv(&s, &all, if t { 2 } else { 1 }) { jobs.push(Job { op: Unpack, l: vec![la.clone()], row: true }) } }
        for s in [vec![9, 5], vec![4, 3, 5], vec![130, 127]] { for la in dv(&s, &all, if t { 2 } else { 1 }) { for k in 0..s.len() { for row in [true, false] { jobs.push(Job { op: Select(k), l: vec![la.clone()], row }); jobs.push(Job { op: SelectBool(k), l: vec![la.clone()], row }) } } } }
        for row in [true, false] { jobs.push(Job { op: Arange, l: vec![], row }) }
        for s in [vec![130, 127], vec![3, 70, 79]] { for la in dv(&s, &all, 1) { jobs.push(Job { op: Tri, l: vec![la], row: true }) } }
        for s in [vec![6, 7], vec![3, 4, 5], vec![2, 3, 2, 3]] { for la in dv(&s, &all, 1) { for m in 0..1usize << s.len() {
            jobs.push(Job { op: AxesIter(m), l: vec![la.clone()], row: true });
            if !la.has_bcast() { jobs.push(Job { op: AxesIterMut(m), l: vec![la.clone()], row: true }) }
        } } }
        // stolen sides are explored for the first, the middle and the last layout of each operation and shape (how
        // the work splits does not depend on the strides), in the thorough check for all of them
        let mut groups: std::collections::HashMap<String, Vec<usize>> = Default::default();
        for (i, j) in jobs.iter().enumerate() { groups.entry(format!("{:?}{}{:?}", j.op, j.row, j.l.iter().map(|l| &l.shape).collect::<Vec<_>>())).or_default().push(i) }
        let mut jobs: Vec<Item> = jobs.into_iter().map(|j| (j, t)).collect();
        for g in groups.values() { for i in [g[0], g[g.len() / 2], g[g.len() - 1]] { jobs[i].1 = true } }
        for (name, range, must) in [("element-wise", 0..cut, true), ("assignment", cut..cut2, false), ("reduction", cut2..cut3, false), ("products", cut3..cut4, false), ("others", cut4..jobs.len(), false)] {
            let s0 = SCHED.load(Relaxed);
            r.par(name, &jobs[range], |cx, (j, steal)| {
                cx.state(&format!("{j:?}"));
                explore(cx, j, *steal, nmax, deep, !must);
            });
            r.extra(&format!("schedules, {name}"), SCHED.load(Relaxed) - s0);
        }
        r.extra("schedules", SCHED.load(Relaxed));
        r.extra("joins executed", JOINS.load(Relaxed));
        r.extra("pieces executed", STRANDS.load(Relaxed));
        r.extra("memory accesses checked", ACCESSES.load(Relaxed));
        r.extra("(input, thread count) pairs that reached parallel code", PARALLEL.load(Relaxed));
    });
}
