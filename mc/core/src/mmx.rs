//! Matrix multiplication: reference product, cases, and the runner shared by the checks of the plain, faer
//! and BLAS devices.
use crate::*;
use std::fmt::Debug;

pub trait Num: Clone + PartialEq + Debug + Send + Sync + 'static {
    fn of(v: i64) -> Self;
    fn val(p: usize) -> Self;
    fn madd(acc: &Self, a: &Self, b: &Self) -> Self;
    fn junk() -> Self;
}
impl Num for i64 {
    fn of(v: i64) -> i64 { v }
    fn val(p: usize) -> i64 { (p as i64 * 7919 + 5) % 23 - 11 }
    fn madd(acc: &i64, a: &i64, b: &i64) -> i64 { acc + a * b }
    fn junk() -> i64 { 77_777 }
}
impl Num for f64 {
    fn of(v: i64) -> f64 { v as f64 }
    fn val(p: usize) -> f64 { i64::val(p) as f64 }
    fn madd(acc: &f64, a: &f64, b: &f64) -> f64 { acc + a * b }
    fn junk() -> f64 { f64::NAN }
}
impl Num for f32 {
    fn of(v: i64) -> f32 { v as f32 }
    fn val(p: usize) -> f32 { i64::val(p) as f32 }
    fn madd(acc: &f32, a: &f32, b: &f32) -> f32 { acc + a * b }
    fn junk() -> f32 { f32::NAN }
}
impl Num for Complex<f64> {
    fn of(v: i64) -> Self { Complex::new(v as f64, 0.0) }
    fn val(p: usize) -> Self { Complex::new(f64::val(p), f64::val(p * 3 + 1)) }
    fn madd(acc: &Self, a: &Self, b: &Self) -> Self { *acc + *a * *b }
    fn junk() -> Self { Complex::new(f64::NAN, f64::NAN) }
}
impl Num for Complex<f32> {
    fn of(v: i64) -> Self { Complex::new(v as f32, 0.0) }
    fn val(p: usize) -> Self { Complex::new(f32::val(p), f32::val(p * 3 + 1)) }
    fn madd(acc: &Self, a: &Self, b: &Self) -> Self { *acc + *a * *b }
    fn junk() -> Self { Complex::new(f32::NAN, f32::NAN) }
}

/// The shapes of batch and matrix parts, row-major rule. None: must be rejected.
fn mm_row<T: Num>(a: &Nd<T>, b: &Nd<T>) -> Option<Nd<T>> {
    if a.ndim() == 0 || b.ndim() == 0 { return None }
    let a2 = if a.ndim() == 1 { a.reshape(&[1, a.shape[0]], true) } else { a.clone() };
    let b2 = if b.ndim() == 1 { b.reshape(&[b.shape[0], 1], true) } else { b.clone() };
    let (na, nb) = (a2.ndim(), b2.ndim());
    let (m, k, n) = (a2.shape[na - 2], a2.shape[na - 1], b2.shape[nb - 1]);
    if k != b2.shape[nb - 2] { return None }
    let batch = bshape(&a2.shape[..na - 2], &b2.shape[..nb - 2], true)?;
    let sh = |v: &[usize], tail: [usize; 2]| { let mut s = v.to_vec(); s.extend(tail); s };
    let ab = a2.broadcast(&sh(&batch, [m, k]), true)?;
    let bb = b2.broadcast(&sh(&batch, [k, n]), true)?;
    let nb: usize = batch.iter().product();
    let mut data = Vec::with_capacity(nb * m * n);
    for t in 0..nb {
        let (x, y) = (&ab.data[t * m * k..(t + 1) * m * k], &bb.data[t * k * n..(t + 1) * k * n]);
        for i in 0..m {
            for j in 0..n { data.push((0..k).fold(T::of(0), |acc, p| T::madd(&acc, &x[i * k + p], &y[p * n + j]))) }
        }
    }
    let mut c = Nd::new(&sh(&batch, [m, n]), data);
    let mut s = batch.clone();
    if a.ndim() > 1 { s.push(m) }
    if b.ndim() > 1 { s.push(n) }
    c = c.reshape(&s, true);
    Some(c)
}
pub fn mm<T: Num>(a: &Nd<T>, b: &Nd<T>, row: bool) -> Option<Nd<T>> {
    if row { mm_row(a, b) } else { Some(mm_row(&b.t(), &a.t())?.t()) }
}

/// `own`: the product into a new array; otherwise into an output of layout `lc` with scale factors.
pub struct Job { pub la: Lay, pub lb: Lay, pub lc: Option<Lay>, pub share: bool }
impl Debug for Job {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "a={:?} b={:?} c={:?}{}", self.la, self.lb, self.lc, if self.share { " shared" } else { "" })
    }
}

#[macro_export]
macro_rules! matmul {
    ($fname:ident, $t:ty, $dev:ty) => {
        fn $fname(cx: &mut Cx, name: &str, row: bool, j: &Job, d: $dev) {
            type T = $t;
            cx.case(format_args!("{name}|{}|row={row}|{j:?}", stringify!($t)), || {
                let ra: Vec<T> = (0..j.la.len).map(T::val).collect();
                let rb: Vec<T> = if j.share { ra.clone() } else { (0..j.lb.len).map(|p| T::val(p * 5 + 2)).collect() };
                let (ma, mb) = (j.la.nd(&ra), j.lb.nd(&rb));
                let want = mm(&ma, &mb, row);
                let ta = tensor(ra, &j.la, &d);
                let tb_own = tensor(rb, &j.lb, &d);
                // the second operand may be a view of the first one's storage
                let tb = if j.share { unsafe { TensorView::new_unchecked(ta.view().into_raw_parts().0, layout(&j.lb)) } } else { tb_own.view() };
                let Some(lc) = &j.lc else {
                    return match (rt::matmul_f(&ta, &tb), want) {
                        (Ok(t), Some(w)) => {
                            check_t(&t, &w)?;
                            check_t(&(&ta % &tb), &w)?;
                            Ok(Out::Val)
                        },
                        (Err(_), None) => Ok(Out::Rej),
                        (Ok(t), None) => Err(format!("accepted, giving shape {:?}", t.shape())),
                        (Err(e), Some(w)) => Err(format!("rejected with {e:?}, expected {w:?}")),
                    };
                };
                let rest: std::collections::HashSet<usize> = lc.positions().into_iter().collect();
                let mut out = Out::Val;
                for (al, be) in [(1i64, 0i64), (2, 0), (0, 0), (1, 1), (3, -2), (0, 2), (-1, 1), (1, 9)] {
                    // what the output held matters only if it is scaled by something other than zero
                    let with_output = be == 9;
                    let be = if with_output { 0 } else { be };
                    let rc: Vec<T> = (0..lc.len).map(|p| if be == 0 { T::junk() } else { T::val(p * 11 + 4) }).collect();
                    let mut tc = tensor(rc.clone(), lc, &d);
                    let r = if with_output { rt::matmul_with_output_f(&ta, &tb, &mut tc) } else { rt::matmul_from_f(&mut tc, &ta, &tb, T::of(al), T::of(be)) };
                    let w = want.as_ref().filter(|w| w.shape == lc.shape);
                    match (r, w) {
                        (Ok(()), Some(w)) => {
                            let exp = Nd::from_fn(&w.shape, |i| {
                                let s = T::madd(&T::of(0), &T::of(al), w.at(i));
                                if be == 0 { s } else { T::madd(&s, &T::of(be), &rc[lc.at(i)]) }
                            });
                            check_t(&tc, &exp).map_err(|e| format!("alpha={al} beta={be}: {e}"))?;
                            for (p, (x, y)) in tc.raw().iter().zip(&rc).enumerate() {
                                if !rest.contains(&p) && format!("{x:?}") != format!("{y:?}") { return Err(format!("alpha={al} beta={be}: position {p} outside the output was changed to {x:?}")) }
                            }
                        },
                        (Err(_), None) => out = Out::Rej,
                        (Err(e), Some(_)) => return Err(format!("alpha={al} beta={be}: rejected: {e:?}")),
                        // an output with a larger batch than the product: filled with copies of it, or rejected
                        (Ok(()), None) => {
                            let fits = want.as_ref().and_then(|w| if row { w.broadcast(&lc.shape, true) } else { w.broadcast(&lc.shape, false) });
                            let batch_only = |n: usize, w: &Nd<T>| { let (s, t) = (&lc.shape, &w.shape); let k = n.min(t.len()); t.len() <= s.len() && if row { s[s.len() - k..] == t[t.len() - k..] } else { s[..k] == t[..k] } };
                            let mdim = (ma.ndim().min(2) + mb.ndim().min(2)) - 2;
                            match (fits, &want) {
                                (Some(f), Some(w)) if batch_only(mdim, w) => {
                                    let exp = Nd::from_fn(&f.shape, |i| {
                                        let s = T::madd(&T::of(0), &T::of(al), f.at(i));
                                        if be == 0 { s } else { T::madd(&s, &T::of(be), &rc[lc.at(i)]) }
                                    });
                                    check_t(&tc, &exp).map_err(|e| format!("wider output, alpha={al} beta={be}: {e}"))?;
                                },
                                _ => return Err(format!("accepted an output of shape {:?} for a product of shape {:?}", lc.shape, want.as_ref().map(|w| &w.shape))),
                            }
                        },
                    }
                }
                Ok(out)
            });
        }
    };
}
/// element type and number of threads a case is to run with; the check says on which device
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Run { SerialI, SerialF, ParI(usize), ParF(usize), ParG(usize), ParZ(usize) }
use Run::*;

fn plain(s: &[usize], row: bool) -> Lay { if row { c_contig(s) } else { f_contig(s) } }

/// shapes in the row-major rule; reversed and swapped for the column-major one
fn jobs(sa: &[usize], sb: &[usize], row: bool, k: usize, full: bool) -> Vec<Job> {
    let rev = |s: &[usize]| { let mut s = s.to_vec(); if !row { s.reverse() } s };
    let (sa, sb) = if row { (sa.to_vec(), sb.to_vec()) } else { (rev(sb), rev(sa)) };
    let z = |s: &[usize]| Nd::from_fn(s, |_| 0i64);
    let sc = mm(&z(&sa), &z(&sb), row).map(|c| c.shape);
    let la = layouts_dev(&sa, &ALL_KINDS, k);
    let lb = layouts_dev(&sb, &ALL_KINDS, k);
    let (pa, pb) = (plain(&sa, row), plain(&sb, row));
    let mut v = vec![];
    let Some(sc) = sc else { return vec![Job { la: pa, lb: pb, lc: None, share: false }] };
    let pc = plain(&sc, row);
    if full {
        for x in &la { for y in &lb { v.push(Job { la: x.clone(), lb: y.clone(), lc: None, share: false }); v.push(Job { la: x.clone(), lb: y.clone(), lc: Some(pc.clone()), share: false }) } }
    } else {
        for x in &la { v.push(Job { la: x.clone(), lb: pb.clone(), lc: None, share: false }) }
        for y in &lb { v.push(Job { la: pa.clone(), lb: y.clone(), lc: None, share: false }) }
        for (x, y) in la.iter().zip(lb.iter().rev()) { v.push(Job { la: x.clone(), lb: y.clone(), lc: Some(pc.clone()), share: false }) }
    }
    for c in layouts_dev(&sc, &NOB_KINDS, k) { v.push(Job { la: pa.clone(), lb: pb.clone(), lc: Some(c), share: false }) }
    v
}

pub fn suite(r: &Runner, run: &(dyn Fn(&mut Cx, Run, bool, &Job) + Sync)) {
    {
        let mut shp: Vec<(Vec<usize>, Vec<usize>, bool, usize)> = vec![];
        let e = [0usize, 1, 2, 3];
        for &k in &e { shp.push((vec![k], vec![k], true, 2)); for &m in &e { shp.push((vec![m, k], vec![k], true, 1)); shp.push((vec![k], vec![k, m], true, 1)); for &n in &e { shp.push((vec![m, k], vec![k, n], true, 1)); } } }
        for (m, k, n) in [(2, 3, 4), (3, 2, 3), (1, 3, 2)] { shp.push((vec![m, k], vec![k, n], true, r.pick(1, 2))); shp.push((vec![m, k], vec![k, n], false, 2)); }
        let batches: Vec<Vec<usize>> = vec![vec![2], vec![3], vec![1], vec![0], vec![2, 3], vec![1, 3], vec![2, 1]];
        let none: Vec<usize> = vec![];
        let cat = |a: &[usize], t: &[usize]| { let mut v = a.to_vec(); v.extend(t); v };
        for (m, k, n) in [(2usize, 2usize, 2usize), (2, 3, 1), (1, 2, 3), (2, 0, 2), (0, 2, 1)] {
            for b in &batches {
                let kk = r.pick(1, 2);
                shp.push((cat(&none, &[k]), cat(b, &[k, n]), false, kk));
                shp.push((cat(b, &[m, k]), cat(&none, &[k]), false, kk));
                shp.push((cat(&none, &[m, k]), cat(b, &[k, n]), false, kk));
                shp.push((cat(b, &[m, k]), cat(&none, &[k, n]), false, kk));
                for b2 in &batches { shp.push((cat(b, &[m, k]), cat(b2, &[k, n]), false, 1)); }
            }
        }
        // rejected shapes
        for (a, b) in [(vec![2usize], vec![3usize]), (vec![2, 3], vec![2, 3]), (vec![2, 3], vec![2]), (vec![3], vec![2, 3]), (vec![2, 2, 3], vec![2, 2, 3]), (vec![2, 2, 3], vec![2, 3]), (vec![2, 3], vec![2, 2, 3]), (vec![], vec![2]), (vec![2], vec![]), (vec![], vec![]), (vec![1], vec![2]), (vec![2, 1], vec![3, 2])] { shp.push((a, b, false, 0)); }
        let items: Vec<_> = shp.iter().flat_map(|s| [(s, true), (s, false)]).collect();
        r.par("rules", &items, |cx, ((sa, sb, full, k), row)| {
            for j in jobs(sa, sb, *row, *k, *full) {
                cx.state(&(&j.la, &j.lb, &j.lc));
                run(cx, SerialI, *row, &j);
                run(cx, ParF(2), *row, &j);
                if j.lc.is_some() || *full { run(cx, SerialF, *row, &j); run(cx, ParI(2), *row, &j); }
                if !*full { run(cx, ParZ(1), *row, &j); }
            }
        });
        // outputs of the wrong shape
        let mut wrong = vec![];
        for (sa, sb) in [(vec![2usize], vec![2usize]), (vec![2, 3], vec![3]), (vec![3], vec![3, 2]), (vec![2, 3], vec![3, 2]), (vec![3], vec![2, 3, 2]), (vec![2, 2, 3], vec![3]), (vec![2, 3], vec![2, 3, 2]), (vec![3, 2, 3], vec![3, 2]), (vec![2, 2, 3], vec![2, 3, 2]), (vec![1, 2, 3], vec![2, 3, 2]), (vec![1, 2, 3], vec![1, 3, 2]), (vec![2, 3], vec![1, 3, 2]), (vec![2, 1, 2, 3], vec![3, 3, 2])] {
            for sc in shapes(0, 3, &[1, 2, 3]).into_iter().chain([vec![2, 3, 2, 2], vec![1, 2, 2, 2], vec![2, 1, 2, 2], vec![2, 3, 3, 2], vec![3, 2, 2, 2]]) { for row in [true, false] { wrong.push((sa.clone(), sb.clone(), sc.clone(), row)) } }
        }
        r.par("output shapes", &wrong, |cx, (sa, sb, sc, row)| {
            let rev = |s: &[usize]| { let mut s = s.to_vec(); if !*row { s.reverse() } s };
            let (sa, sb) = if *row { (sa.clone(), sb.clone()) } else { (rev(sb), rev(sa)) };
            let j = Job { la: plain(&sa, *row), lb: plain(&sb, *row), lc: Some(plain(&rev(sc), *row)), share: false };
            run(cx, SerialI, *row, &j);
            run(cx, ParI(1), *row, &j);
            run(cx, ParF(2), *row, &j);
        });
        // second operand in the first one's storage
        let mut shared = vec![];
        for s in shapes(2, 2, &[0, 1, 2, 3]).into_iter().chain([vec![5, 4], vec![17, 5]]).chain(shapes(3, 3, &[1, 2, 3])) {
            for la in layouts_dev(&s, &ALL_KINDS, if s.len() > 2 { r.pick(1, 2) } else { 2 }) {
                let nd = s.len();
                for perm in permutations(nd) {
                    let lb = Lay { shape: perm.iter().map(|&i| la.shape[i]).collect(), stride: perm.iter().map(|&i| la.stride[i]).collect(), ..la.clone() };
                    // the same, seen from the other end of each axis
                    for m in 0..1usize << nd {
                        let mut l2 = lb.clone();
                        if l2.size() == 0 && m != 0 { continue }
                        let mut off = l2.offset as isize;
                        for k in 0..nd { if m >> k & 1 == 1 { off += l2.stride[k] * (l2.shape[k] as isize - 1); l2.stride[k] = -l2.stride[k]; } }
                        l2.offset = off as usize;
                        for row in [true, false] {
                            if nd > 2 && m > 1 { continue }
                            shared.push((Job { la: la.clone(), lb: l2.clone(), lc: None, share: true }, row));
                            let z = |s: &[usize]| Nd::from_fn(s, |_| 0i64);
                            if let Some(c) = mm(&z(&la.shape), &z(&l2.shape), row) {
                                for lc in layouts_dev(&c.shape, &NOB_KINDS, usize::from(m == 0)) { shared.push((Job { la: la.clone(), lb: l2.clone(), lc: Some(lc), share: true }, row)); }
                            }
                        }
                    }
                }
            }
        }
        r.par("shared storage", &shared, |cx, (j, row)| {
            cx.state(&(&j.la, &j.lb, &j.lc));
            run(cx, ParF(2), *row, j);
            run(cx, ParZ(1), *row, j);
            if j.la.len < 8 { run(cx, SerialI, *row, j); run(cx, ParI(2), *row, j); run(cx, ParG(2), *row, j); }
        });
        // across the parallel switches
        let mut big = vec![];
        for (sa, sb) in [(vec![63usize, 5], vec![5usize, 63]), (vec![64, 5], vec![5, 64]), (vec![65, 130], vec![130, 67]), (vec![70, 33], vec![33]), (vec![2000], vec![2000]), (vec![9, 3, 2], vec![9, 2, 3]), (vec![9, 3, 2], vec![2, 3]), (vec![3, 2], vec![9, 2, 3]), (vec![4, 3, 3, 2], vec![3, 2, 3]), (vec![4, 1, 3, 2], vec![3, 2, 3]), (vec![2], vec![9, 2, 3]), (vec![9, 3, 2], vec![2]), (vec![12, 70, 4], vec![12, 4, 70]), (vec![3, 70, 4], vec![4, 70])] {
            for row in [true, false] {
                for j in jobs(&sa, &sb, row, 1, false) { big.push((j, row)) }
                if sa.len() == 2 && sb.len() == 2 {
                    for la in layouts_dev(&sa, &ALL_KINDS, 2) {
                        let lb = Lay { shape: vec![la.shape[1], la.shape[0]], stride: vec![la.stride[1], la.stride[0]], ..la.clone() };
                        for lc in layouts_dev(&[sa[0], sa[0]], &NOB_KINDS, 1) { big.push((Job { la: la.clone(), lb: lb.clone(), lc: Some(lc), share: true }, row)) }
                        big.push((Job { la, lb, lc: None, share: true }, row));
                    }
                }
            }
        }
        r.par("parallel", &big, |cx, (j, row)| {
            cx.state(&(&j.la, &j.lb, &j.lc));
            run(cx, ParF(2), *row, j);
            run(cx, ParI(2), *row, j);
            if j.lc.is_none() || r.thorough() { run(cx, ParZ(2), *row, j); run(cx, ParF(1), *row, j); run(cx, ParF(3), *row, j); }
        });
    }
}
