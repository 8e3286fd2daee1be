//! P11: vecdot contracts the named axes with the first operand conjugated and broadcasts the rest.
use core_mc::*;
use rstsr_common::prelude_dev::AxesPairIndex;
use std::fmt::Debug;

trait Num: Clone + PartialEq + Debug + Send + Sync + 'static {
    fn zero() -> Self;
    fn val(p: usize) -> Self;
    fn step(acc: &Self, a: &Self, b: &Self) -> Self;
    fn junk() -> Self;
}
impl Num for i64 {
    fn zero() -> i64 { 0 }
    fn val(p: usize) -> i64 { (p as i64 * 7919 + 5) % 23 - 11 }
    fn step(acc: &i64, a: &i64, b: &i64) -> i64 { acc + a * b }
    fn junk() -> i64 { 55_555 }
}
impl Num for f64 {
    fn zero() -> f64 { 0.0 }
    fn val(p: usize) -> f64 { i64::val(p) as f64 }
    fn step(acc: &f64, a: &f64, b: &f64) -> f64 { acc + a * b }
    fn junk() -> f64 { f64::NAN }
}
impl Num for Complex<f64> {
    fn zero() -> Self { Complex::new(0.0, 0.0) }
    fn val(p: usize) -> Self { Complex::new(f64::val(p), f64::val(p * 3 + 1)) }
    fn step(acc: &Self, a: &Self, b: &Self) -> Self { acc + a.conj() * b }
    fn junk() -> Self { Complex::new(f64::NAN, f64::NAN) }
}

#[derive(Clone, Debug, PartialEq)]
enum Ax { None, Val(isize), Pair(Vec<isize>, Vec<isize>) }

fn norm(axes: &[isize], nd: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    for &a in axes {
        let a = if a < 0 { a + nd as isize } else { a };
        if a < 0 || a >= nd as isize || v.contains(&(a as usize)) { return None }
        v.push(a as usize);
    }
    Some(v)
}

/// None: must be rejected.
fn model<T: Num>(a: &Nd<T>, b: &Nd<T>, ax: &Ax, row: bool) -> Option<Nd<T>> {
    let (xa, xb) = match ax {
        Ax::None => (norm(&[-1], a.ndim())?, norm(&[-1], b.ndim())?),
        Ax::Val(v) => (norm(&[*v], a.ndim())?, norm(&[*v], b.ndim())?),
        Ax::Pair(x, y) => (norm(x, a.ndim())?, norm(y, b.ndim())?),
    };
    if xa.len() != xb.len() || xa.iter().zip(&xb).any(|(&i, &j)| a.shape[i] != b.shape[j]) { return None }
    let rest = |n: usize, x: &[usize]| (0..n).filter(|i| !x.contains(i)).collect::<Vec<_>>();
    let (ra, rb) = (rest(a.ndim(), &xa), rest(b.ndim(), &xb));
    let sum: Vec<usize> = xa.iter().map(|&i| a.shape[i]).collect();
    let pack = |m: &Nd<T>, r: &[usize], x: &[usize]| {
        Nd::from_fn(&r.iter().map(|&i| m.shape[i]).collect::<Vec<_>>(), |i| {
            let mut v = vec![];
            each_index(&sum, |s| {
                let mut full = vec![0; m.ndim()];
                for (k, &q) in r.iter().enumerate() { full[q] = i[k] }
                for (k, &q) in x.iter().enumerate() { full[q] = s[k] }
                v.push(m.at(&full).clone());
            });
            v
        })
    };
    zip_b(&pack(a, &ra, &xa), &pack(b, &rb, &xb), row, |p, q| p.iter().zip(q).fold(T::zero(), |acc, (x, y)| T::step(&acc, x, y)))
}

fn arg(ax: &Ax) -> AxesPairIndex<isize> {
    match ax {
        Ax::None => AxesPairIndex::None,
        Ax::Val(v) => AxesPairIndex::Val(*v),
        Ax::Pair(x, y) => AxesPairIndex::Pair(AxesIndex::Vec(x.clone()), AxesIndex::Vec(y.clone())),
    }
}

macro_rules! vecdot {
    ($fname:ident, $t:ty, $dev:ty) => {
        fn $fname(cx: &mut Cx, name: &str, row: bool, la: &Lay, lb: &Lay, lc: Option<&Lay>, ax: &Ax, d: $dev) {
            type T = $t;
            cx.case(format_args!("{name}|{}|row={row}|a={la:?} b={lb:?} c={lc:?}|{ax:?}", stringify!($t)), || {
                let ra: Vec<T> = (0..la.len).map(T::val).collect();
                let rb: Vec<T> = (0..lb.len).map(|p| T::val(p * 5 + 2)).collect();
                let want = model(&la.nd(&ra), &lb.nd(&rb), ax, row);
                let (ta, tb) = (tensor(ra, la, &d), tensor(rb, lb, &d));
                let Some(lc) = lc else { return expect(rt::vecdot_f(&ta, &tb, arg(ax)), want.as_ref()) };
                let rc = vec![T::junk(); lc.len];
                let mut tc = tensor(rc, lc, &d);
                let res = rt::vecdot_from_f(&mut tc, &ta, &tb, arg(ax));
                match (res, want.filter(|w| w.shape == lc.shape)) {
                    (Ok(()), Some(w)) => {
                        check_t(&tc, &w)?;
                        let rest: std::collections::HashSet<usize> = lc.positions().into_iter().collect();
                        for (p, x) in tc.raw().iter().enumerate() {
                            if !rest.contains(&p) && format!("{x:?}") != format!("{:?}", T::junk()) { return Err(format!("position {p} outside the output was changed to {x:?}")) }
                        }
                        Ok(Out::Val)
                    },
                    (Err(_), None) => Ok(Out::Rej),
                    (Ok(()), None) => Err(format!("accepted an output of shape {:?}", lc.shape)),
                    (Err(e), Some(w)) => Err(format!("rejected with {e:?}, expected {w:?}")),
                }
            });
        }
    };
}
vecdot!(s_i, i64, DeviceCpuSerial);
vecdot!(s_z, Complex<f64>, DeviceCpuSerial);
vecdot!(f_i, i64, DeviceFaer);
vecdot!(f_f, f64, DeviceFaer);
vecdot!(f_z, Complex<f64>, DeviceFaer);

/// every pairing of equally many axes whose extents agree, plus None / Val and rejected ones
fn axes(sa: &[usize], sb: &[usize], bad: bool) -> Vec<Ax> {
    let (na, nb) = (sa.len(), sb.len());
    let mut v = vec![Ax::None];
    let lim = na.max(nb) as isize;
    for x in -lim - 1..=lim { v.push(Ax::Val(x)) }
    for s in subsets(na) {
        for t in subsets(nb) {
            if s.len() != t.len() { if bad && s.len() + t.len() < 4 { v.push(Ax::Pair(s.iter().map(|&i| i as isize).collect(), t.iter().map(|&i| i as isize).collect())) } continue }
            for p in permutations(t.len()) {
                let tp: Vec<usize> = p.iter().map(|&i| t[i]).collect();
                let fits = s.iter().zip(&tp).all(|(&i, &j)| sa[i] == sb[j]);
                if fits || (bad && s.len() < 2) {
                    v.push(Ax::Pair(s.iter().map(|&i| i as isize).collect(), tp.iter().map(|&i| i as isize - nb as isize).collect()));
                    if s.len() > 1 { let mut a: Vec<isize> = s.iter().map(|&i| i as isize - na as isize).collect(); let mut b: Vec<isize> = tp.iter().map(|&i| i as isize).collect(); a.reverse(); b.reverse(); v.push(Ax::Pair(a, b)); }
                }
            }
        }
    }
    if bad { v.push(Ax::Pair(vec![0, 0], vec![0, 0])); v.push(Ax::Pair(vec![na as isize], vec![0])); v.push(Ax::Pair(vec![0], vec![-(nb as isize) - 1])); }
    v
}

fn main() {
    fw::main("P11", |r| {
        r.bound("operands of every pair of shapes of rank 0..=2 with extents 0..=3 and listed shapes of rank 3 and 4; axis arguments: none, every single axis from below -N to N, every pairing of equally many axes with matching extents in both orders (and mismatching, repeated and out-of-range ones); every layout of each operand and of the output within the stated deviations of contiguous; new arrays and given outputs filled with junk; i64, f64 and Complex<f64>; serial and rayon device, row- and column-major, sizes across the parallel switch (512) and the chunk of 64");
        r.assume("values are small integers, so that every summation order gives the same exact result; a positive axis counts in each operand by itself");
        let mut items = vec![];
        let small = shapes(0, 2, &[0, 1, 2, 3]);
        for a in &small { for b in &small { items.push((a.clone(), b.clone(), true)) } }
        for (a, b) in [(vec![2usize, 3, 2], vec![2usize, 3, 2]), (vec![2, 3, 2], vec![3]), (vec![2, 3, 2], vec![2]), (vec![3], vec![3, 2, 3]), (vec![2, 3, 4], vec![3, 4]), (vec![2, 3, 4], vec![4, 3, 2]), (vec![3, 4], vec![2, 3, 4]), (vec![2, 1, 3], vec![1, 2, 3]), (vec![3, 2, 2], vec![3, 1, 1]), (vec![2, 2, 2], vec![2, 2, 2]), (vec![1, 2, 3], vec![3, 2, 1]), (vec![2, 0, 3], vec![2, 0, 3]), (vec![2, 2, 3, 2], vec![3, 2]), (vec![2, 3, 2, 2], vec![2, 3, 2, 2])] { items.push((a, b, false)); }
        let rows: Vec<_> = items.into_iter().flat_map(|i| [(i.clone(), true), (i, false)]).collect();
        r.par("small", &rows, |cx, ((sa, sb, bad), row)| {
            let row = *row;
            for ax in axes(sa, sb, *bad) {
                let z = |s: &[usize]| Nd::from_fn(s, |_| 0i64);
                let w = model(&z(sa), &z(sb), &ax, row);
                let k = if w.is_none() { 0 } else if sa.len() > 3 || sb.len() > 3 { 1 } else { r.pick(if sa.len() + sb.len() < 5 { 2 } else { 1 }, 2) };
                let (las, lbs) = (layouts_dev(sa, &ALL_KINDS, k), layouts_dev(sb, &ALL_KINDS, k));
                let (pa, pb) = (c_contig(sa), c_contig(sb));
                let mut jobs: Vec<(Lay, Lay, Option<Lay>)> = vec![];
                for la in &las { jobs.push((la.clone(), pb.clone(), None)) }
                for lb in &lbs { jobs.push((pa.clone(), lb.clone(), None)) }
                jobs.push((f_contig(sa), f_contig(sb), None));
                if sa.len() + sb.len() < 4 { for la in &layouts_dev(sa, &ALL_KINDS, 1) { for lb in &layouts_dev(sb, &ALL_KINDS, 1) { jobs.push((la.clone(), lb.clone(), None)) } } }
                else { for (la, lb) in las.iter().zip(lbs.iter().rev()) { jobs.push((la.clone(), lb.clone(), None)) } for (la, lb) in las.iter().zip(lbs.iter()) { jobs.push((la.clone(), lb.clone(), None)) } }
                if let Some(w) = &w {
                    for lc in layouts_dev(&w.shape, &NOB_KINDS, 2) { jobs.push((pa.clone(), pb.clone(), Some(lc.clone()))); jobs.push((f_contig(sa), f_contig(sb), Some(lc))); }
                    for (la, lb) in las.iter().zip(lbs.iter().rev()) { jobs.push((la.clone(), lb.clone(), Some(f_contig(&w.shape)))); }
                    // wrong outputs
                    for s in [vec![], vec![1], vec![2], vec![3], vec![1, 1], vec![2, 1], vec![1, 3]] { if s != w.shape { jobs.push((pa.clone(), pb.clone(), Some(c_contig(&s)))) } }
                }
                for (la, lb, lc) in &jobs {
                    cx.state(&(la, lb, lc));
                    s_i(cx, "serial", row, la, lb, lc.as_ref(), &ax, serial(row));
                    if lc.is_some() || k < 2 { s_z(cx, "serial", row, la, lb, lc.as_ref(), &ax, serial(row)); }
                    if lc.is_none() && k < 2 { f_i(cx, "faer", row, la, lb, None, &ax, faer(row, 1)); }
                }
            }
        });
        let mut big = vec![];
        for (a, b) in [(vec![511usize], vec![511usize]), (vec![512], vec![512]), (vec![600], vec![600]), (vec![3, 200], vec![3, 200]), (vec![3, 200], vec![200]), (vec![200, 3], vec![200, 3]), (vec![200, 3], vec![3]), (vec![3], vec![200, 3]), (vec![130, 5], vec![1, 5]), (vec![8, 8, 9], vec![8, 8, 9]), (vec![8, 8, 9], vec![8, 9]), (vec![9, 8, 8], vec![8, 9, 8]), (vec![70, 2, 4], vec![70, 2, 4]), (vec![2, 70, 4], vec![4]), (vec![5, 1, 130], vec![5, 2, 130]), (vec![4, 4, 4, 9], vec![4, 9])] {
            for row in [true, false] { big.push((a.clone(), b.clone(), row)) }
        }
        let mut jobs = vec![];
        for (sa, sb, row) in &big {
            for ax in axes(sa, sb, false) {
                let z = |s: &[usize]| Nd::from_fn(s, |_| 0i64);
                let Some(w) = model(&z(sa), &z(sb), &ax, *row) else { continue };
                if w.size() > 6000 { continue }
                let k = if sa.len() + sb.len() < 4 { 2 } else { r.pick(1, 2) };
                let (las, lbs) = (layouts_dev(sa, &ALL_KINDS, k), layouts_dev(sb, &ALL_KINDS, k));
                let (pa, pb) = (c_contig(sa), c_contig(sb));
                for la in &las { jobs.push((la.clone(), pb.clone(), None, ax.clone(), *row)) }
                for lb in &lbs { jobs.push((pa.clone(), lb.clone(), None, ax.clone(), *row)) }
                for (la, lb) in las.iter().zip(&lbs) { jobs.push((la.clone(), lb.clone(), None, ax.clone(), *row)) }
                jobs.push((f_contig(sa), f_contig(sb), None, ax.clone(), *row));
                for lc in layouts_dev(&w.shape, &NOB_KINDS, 1) { jobs.push((pa.clone(), pb.clone(), Some(lc.clone()), ax.clone(), *row)); jobs.push((f_contig(sa), f_contig(sb), Some(lc), ax.clone(), *row)); }
            }
        }
        r.par("parallel", &jobs, |cx, (la, lb, lc, ax, row)| {
            cx.state(&(la, lb, lc));
            f_i(cx, "faer", *row, la, lb, lc.as_ref(), ax, faer(*row, 3));
            f_z(cx, "faer", *row, la, lb, lc.as_ref(), ax, faer(*row, 2));
            if lc.is_some() { f_f(cx, "faer", *row, la, lb, lc.as_ref(), ax, faer(*row, 2)); }
            s_i(cx, "serial", *row, la, lb, lc.as_ref(), ax, serial(*row));
        });
    });
}
