//! P26: pairwise distances equal the definition of their metric for every layout, order, weight and device.
use core_mc::*;
use num::{Float, FromPrimitive, ToPrimitive};
use rstsr_core::prelude_dev::DimAPI;
use rstsr_sci_traits::prelude::distance::rstsr_funcs::cdist_f;
use rstsr_sci_traits::prelude::distance::rstsr_structs::*;
use rstsr_sci_traits::prelude::distance::rstsr_traits::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;

type C = Complex<f64>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Met {
    Default,
    Euclidean,
    SqEuclidean,
    Minkowski(f64),
    MinkowskiDefault,
    CityBlock,
    Canberra,
    Chebyshev,
    BrayCurtis,
    Hamming,
    Cosine,
    Correlation,
    JensenShannon,
    Jaccard,
    Yule,
    Dice,
    RogersTanimoto,
    RussellRao,
    SokalSneath,
}
use Met::*;

/// The definition; None where it divides nothing by nothing or is not defined.
fn oracle(m: Met, u: &[C], v: &[C], w: Option<&[f64]>) -> Option<f64> {
    let k = u.len();
    let wt = |i: usize| w.map_or(1.0, |w| w[i]);
    let sum = |f: &dyn Fn(usize) -> f64| (0..k).map(f).sum::<f64>();
    let d = |i: usize| (u[i] - v[i]).norm();
    let t = |z: C| z.re != 0.0;
    let ws = sum(&wt);
    let ntt = sum(&|i| if t(u[i]) && t(v[i]) { wt(i) } else { 0.0 });
    let nff = sum(&|i| if !t(u[i]) && !t(v[i]) { wt(i) } else { 0.0 });
    let ntf = sum(&|i| if t(u[i]) && !t(v[i]) { wt(i) } else { 0.0 });
    let nft = sum(&|i| if !t(u[i]) && t(v[i]) { wt(i) } else { 0.0 });
    let r = ntf + nft;
    let div = |a: f64, b: f64| if b.abs() < 1e-14 { None } else { Some(a / b) };
    match m {
        Default | Euclidean => Some(sum(&|i| wt(i) * d(i) * d(i)).sqrt()),
        SqEuclidean => Some(sum(&|i| wt(i) * d(i) * d(i))),
        Minkowski(p) => Some(sum(&|i| wt(i) * d(i).powf(p)).powf(1.0 / p)),
        MinkowskiDefault => Some(sum(&|i| wt(i) * d(i).powf(2.0)).sqrt()),
        CityBlock => Some(sum(&|i| wt(i) * d(i))),
        Canberra => Some(sum(&|i| {
            let q = u[i].norm() + v[i].norm();
            if q == 0.0 { 0.0 } else { wt(i) * d(i) / q }
        })),
        Chebyshev => Some((0..k).filter(|i| wt(*i) != 0.0).map(d).fold(0.0, f64::max)),
        BrayCurtis => div(sum(&|i| wt(i) * d(i)), sum(&|i| wt(i) * (u[i] + v[i]).norm())),
        Hamming => div(sum(&|i| if u[i] != v[i] { wt(i) } else { 0.0 }), ws),
        Cosine | Correlation => {
            let c = m == Correlation;
            if c && ws == 0.0 { return None }
            let mean = |x: &[C]| if c { sum(&|i| wt(i) * x[i].re) / ws } else { 0.0 };
            let (mu, mv) = (mean(u), mean(v));
            let uv = sum(&|i| wt(i) * (u[i].re - mu) * (v[i].re - mv));
            let uu = sum(&|i| wt(i) * (u[i].re - mu).powi(2));
            let vv = sum(&|i| wt(i) * (v[i].re - mv).powi(2));
            if uu < 1e-12 || vv < 1e-12 { return None }
            Some(1.0 - uv / (uu * vv).sqrt())
        },
        JensenShannon => {
            let (su, sv) = (sum(&|i| u[i].re), sum(&|i| v[i].re));
            if su <= 0.0 || sv <= 0.0 || u.iter().chain(v).any(|x| x.re < 0.0) { return None }
            let e = |p: f64, m: f64| if p > 0.0 { p * (p / m).ln() } else { 0.0 };
            Some((sum(&|i| {
                let (p, q) = (u[i].re / su, v[i].re / sv);
                (e(p, (p + q) / 2.0) + e(q, (p + q) / 2.0)) / 2.0
            })).max(0.0).sqrt())
        },
        Jaccard => div(r, ntt + r),
        Yule => {
            if ntf * nft == 0.0 { Some(0.0) } else { div(2.0 * ntf * nft, ntt * nff + ntf * nft) }
        },
        Dice => div(r, 2.0 * ntt + r),
        RogersTanimoto => div(2.0 * r, ntt + nff + 2.0 * r),
        RussellRao => div(ws - ntt, ws),
        SokalSneath => div(2.0 * r, ntt + 2.0 * r),
    }
}

trait El: Clone + Copy + Send + Sync + 'static {
    fn c(self) -> C;
}
impl El for f64 {
    fn c(self) -> C { C::new(self, 0.0) }
}
impl El for f32 {
    fn c(self) -> C { C::new(self as f64, 0.0) }
}
impl El for i32 {
    fn c(self) -> C { C::new(self as f64, 0.0) }
}
impl El for bool {
    fn c(self) -> C { C::new(self as u8 as f64, 0.0) }
}
impl El for C {
    fn c(self) -> C { self }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Dev {
    /// number of faer threads, 0: the serial device
    n: usize,
    row: bool,
    /// call from inside a rayon worker
    nested: bool,
}

fn fdev(row: bool, n: usize) -> DeviceFaer {
    static D: OnceLock<Vec<[DeviceFaer; 2]>> = OnceLock::new();
    D.get_or_init(|| (0..5).map(|n| [faer(false, n.max(1)), faer(true, n.max(1))]).collect())[n][row as usize].clone()
}
fn worker<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    static P: OnceLock<rayon::ThreadPool> = OnceLock::new();
    P.get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap()).install(f)
}

macro_rules! with_dev {
    ($d:expr, $dev:ident => $e:expr) => {
        if $d.n == 0 {
            let $dev = serial($d.row);
            $e
        } else {
            let $dev = fdev($d.row, $d.n);
            if $d.nested { worker(|| $e) } else { $e }
        }
    };
}

type Buf<'a, T> = (&'a [T], &'a Lay);

fn out<R, T: Clone + ToPrimitive, B, D: DimAPI>(t: TensorAny<R, T, B, D>, ndim: usize) -> Result<Nd<f64>, String>
where
    R: DataAPI<Data = Vec<T>>,
    B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>>,
{
    if t.shape().as_ref().len() != ndim { return Err("dimension".into()) }
    Ok(logical(&t)?.map(|x| x.to_f64().unwrap()))
}

fn plain<T: El, M>(d: Dev, a: Buf<T>, b: Buf<T>, m: M) -> Result<Option<Nd<f64>>, String>
where
    M: MetricDistAPI<Vec<T>> + Send + Sync,
    M::Out: Clone + Send + Sync + ToPrimitive,
{
    with_dev!(d, dev => {
        let (ta, tb) = (tensor(a.0.to_vec(), a.1, &dev), tensor(b.0.to_vec(), b.1, &dev));
        let r = cdist_f((ta.view(), tb.view(), m));
        if ta.raw().iter().zip(a.0).chain(tb.raw().iter().zip(b.0)).any(|(x, y)| x.c() != y.c()) { return Err("changed an input".into()) }
        match r { Ok(t) => out(t, 2).map(Some), Err(_) => Ok(None) }
    })
}
fn weighted<T: El, TW, M>(d: Dev, a: Buf<T>, b: Buf<T>, m: M, w: Buf<f64>) -> Result<Option<Nd<f64>>, String>
where
    TW: Float + FromPrimitive + Send + Sync + 'static,
    M: MetricDistWeightedAPI<Vec<T>, Weight = Vec<TW>, Out = TW> + Send + Sync,
{
    let wr: Vec<TW> = w.0.iter().map(|x| TW::from_f64(*x).unwrap()).collect();
    with_dev!(d, dev => {
        let (ta, tb) = (tensor(a.0.to_vec(), a.1, &dev), tensor(b.0.to_vec(), b.1, &dev));
        let tw = tensor(wr.clone(), w.1, &dev);
        let r = cdist_f((ta.view(), tb.view(), m, tw.view()));
        if tw.raw() != &wr { return Err("changed the weights".into()) }
        match r { Ok(t) => out(t, 2).map(Some), Err(_) => Ok(None) }
    })
}
fn both<T: El, TW, M>(d: Dev, a: Buf<T>, b: Buf<T>, m: M, w: Option<Buf<f64>>) -> Result<Option<Nd<f64>>, String>
where
    TW: Float + FromPrimitive + Send + Sync + 'static,
    M: MetricDistWeightedAPI<Vec<T>, Weight = Vec<TW>, Out = TW> + Send + Sync,
{
    match w {
        None => plain(d, a, b, m),
        Some(w) => weighted(d, a, b, m, w),
    }
}

/// element types and the metrics that exist for them
trait Run: El {
    const METS: &'static [Met];
    const EPS: f64;
    const NAME: &'static str;
    fn alphabet(big: bool) -> Vec<Self>;
    fn fill(i: usize) -> Self;
    fn run(d: Dev, a: Buf<Self>, b: Buf<Self>, m: Met, w: Option<Buf<f64>>) -> Result<Option<Nd<f64>>, String>;
}
macro_rules! run_float {
    ($T:ty, $eps:expr) => {
        impl Run for $T {
            const METS: &'static [Met] = &[Default, Euclidean, SqEuclidean, Minkowski(1.0), Minkowski(3.0), Minkowski(0.5), MinkowskiDefault, CityBlock, Canberra, Chebyshev, BrayCurtis, Hamming, Cosine, Correlation, JensenShannon];
            const EPS: f64 = $eps;
            const NAME: &'static str = stringify!($T);
            fn alphabet(big: bool) -> Vec<Self> {
                if big { vec![-2.0, -0.5, 0.0, 1.0, 3.0] } else { vec![-1.0, 0.0, 2.0] }
            }
            fn fill(i: usize) -> Self { [1.0, 0.0, 2.5, -1.0, 4.0, 0.5, -3.0, 2.0, 6.0, 1.5, -0.5][i * 7 % 11] }
            fn run(d: Dev, a: Buf<Self>, b: Buf<Self>, m: Met, w: Option<Buf<f64>>) -> Result<Option<Nd<f64>>, String> {
                match m {
                    Default => {
                        assert!(w.is_none());
                        with_dev!(d, dev => {
                            let (ta, tb) = (tensor(a.0.to_vec(), a.1, &dev), tensor(b.0.to_vec(), b.1, &dev));
                            let r = match cdist_f((ta.view(), tb.view())) { Ok(t) => out(t, 2).map(Some), Err(_) => Ok(None) };
                            r
                        })
                    },
                    Euclidean => both::<_, $T, _>(d, a, b, MetricEuclidean, w),
                    SqEuclidean => both::<_, $T, _>(d, a, b, MetricSqEuclidean, w),
                    Minkowski(p) => both::<_, $T, _>(d, a, b, MetricMinkowski::<$T>::new(p as $T), w),
                    MinkowskiDefault => both::<_, $T, _>(d, a, b, MetricMinkowski::<$T>::default(), w),
                    CityBlock => both::<_, $T, _>(d, a, b, MetricCityBlock, w),
                    Canberra => both::<_, $T, _>(d, a, b, MetricCanberra, w),
                    Chebyshev => both::<_, $T, _>(d, a, b, MetricChebyshev, w),
                    BrayCurtis => both::<_, $T, _>(d, a, b, MetricBrayCurtis, w),
                    Hamming => both::<_, f64, _>(d, a, b, MetricHamming, w),
                    Cosine => both::<_, $T, _>(d, a, b, MetricCosine::new(), w),
                    Correlation => both::<_, $T, _>(d, a, b, MetricCorrelation::new(), w),
                    JensenShannon => plain(d, a, b, MetricJensenShannon::new()),
                    _ => unreachable!(),
                }
            }
        }
    };
}
run_float!(f64, 1e-12);
run_float!(f32, 2e-5);
impl Run for C {
    const METS: &'static [Met] = &[Minkowski(1.0), Minkowski(3.0), CityBlock, Canberra, Chebyshev, BrayCurtis, Hamming];
    const EPS: f64 = 1e-12;
    const NAME: &'static str = "c64";
    fn alphabet(big: bool) -> Vec<Self> {
        let mut v = vec![C::new(0.0, 0.0), C::new(1.0, -2.0), C::new(-1.0, 2.0)];
        if big { v.push(C::new(0.0, 3.0)) }
        v
    }
    fn fill(i: usize) -> Self { C::new(f64::fill(i), f64::fill(i + 3)) }
    fn run(d: Dev, a: Buf<Self>, b: Buf<Self>, m: Met, w: Option<Buf<f64>>) -> Result<Option<Nd<f64>>, String> {
        match m {
            Minkowski(p) => both::<_, f64, _>(d, a, b, MetricMinkowski::<C>::new(p), w),
            CityBlock => both::<_, f64, _>(d, a, b, MetricCityBlock, w),
            Canberra => both::<_, f64, _>(d, a, b, MetricCanberra, w),
            Chebyshev => both::<_, f64, _>(d, a, b, MetricChebyshev, w),
            BrayCurtis => both::<_, f64, _>(d, a, b, MetricBrayCurtis, w),
            Hamming => both::<_, f64, _>(d, a, b, MetricHamming, w),
            _ => unreachable!(),
        }
    }
}
impl Run for i32 {
    const METS: &'static [Met] = &[Hamming];
    const EPS: f64 = 1e-12;
    const NAME: &'static str = "i32";
    fn alphabet(big: bool) -> Vec<Self> { if big { vec![-1, 0, 1, 7] } else { vec![0, 1, 7] } }
    fn fill(i: usize) -> Self { (i * 5 % 3) as i32 }
    fn run(d: Dev, a: Buf<Self>, b: Buf<Self>, _: Met, w: Option<Buf<f64>>) -> Result<Option<Nd<f64>>, String> {
        both::<_, f64, _>(d, a, b, MetricHamming, w)
    }
}
impl Run for bool {
    const METS: &'static [Met] = &[Hamming, Jaccard, Yule, Dice, RogersTanimoto, RussellRao, SokalSneath];
    const EPS: f64 = 1e-12;
    const NAME: &'static str = "bool";
    fn alphabet(_: bool) -> Vec<Self> { vec![false, true] }
    fn fill(i: usize) -> Self { i * i % 7 > 2 }
    fn run(d: Dev, a: Buf<Self>, b: Buf<Self>, m: Met, w: Option<Buf<f64>>) -> Result<Option<Nd<f64>>, String> {
        match m {
            Hamming => both::<_, f64, _>(d, a, b, MetricHamming, w),
            Jaccard => both::<_, f64, _>(d, a, b, MetricJaccard, w),
            Yule => both::<_, f64, _>(d, a, b, MetricYule, w),
            Dice => both::<_, f64, _>(d, a, b, MetricDice, w),
            RogersTanimoto => both::<_, f64, _>(d, a, b, MetricRogersTanimoto, w),
            RussellRao => both::<_, f64, _>(d, a, b, MetricRussellRao, w),
            SokalSneath => both::<_, f64, _>(d, a, b, MetricSokalSneath, w),
            _ => unreachable!(),
        }
    }
}

static PAIRS: AtomicU64 = AtomicU64::new(0);

fn close(m: Met, eps: f64, got: f64, want: f64) -> bool {
    // a square root of a difference of nearly equal logarithms, or 1 - cos: only absolute accuracy
    let abs = match m {
        JensenShannon => eps.sqrt() * 4.0,
        Cosine | Correlation => eps * 4.0,
        _ => 0.0,
    };
    got == want || (got - want).abs() <= abs + eps * want.abs()
}

fn judge<T: Run>(m: Met, a: Buf<T>, b: Buf<T>, w: Option<Buf<f64>>, r: Result<Option<Nd<f64>>, String>) -> Res {
    let (a, b) = (a.1.nd(a.0).map(|x| x.c()), b.1.nd(b.0).map(|x| x.c()));
    let wv = w.map(|w| w.1.nd(w.0));
    let k = *a.shape.get(1).unwrap_or(&0);
    let ok = a.shape.len() == 2 && b.shape.len() == 2 && k == b.shape[1] && wv.as_ref().is_none_or(|w| w.shape == [k]);
    let got = match r? {
        None if !ok => return Ok(Out::Rej),
        None => return Err("rejected".into()),
        Some(_) if !ok => return Err("accepted".into()),
        Some(g) => g,
    };
    let (p, q) = (a.shape[0], b.shape[0]);
    if got.shape != [p, q] { return Err(format!("shape {:?} for {p} by {q} rows", got.shape)) }
    PAIRS.fetch_add((p * q) as u64, Relaxed);
    let eps = if m == Hamming || T::NAME == "bool" { 1e-12 } else { T::EPS };
    for i in 0..p {
        for j in 0..q {
            let (u, v) = (&a.data[i * k..(i + 1) * k], &b.data[j * k..(j + 1) * k]);
            let g = got.data[i * q + j];
            let Some(e) = oracle(m, u, v, wv.as_ref().map(|w| &w.data[..])) else { continue };
            if !close(m, eps, g, e) { return Err(format!("distance of row {i} {u:?} and row {j} {v:?} is {g:?}, expected {e:?}")) }
        }
    }
    Ok(Out::Val)
}

fn case<T: Run>(cx: &mut Cx, d: Dev, m: Met, a: Buf<T>, b: Buf<T>, w: Option<Buf<f64>>) {
    if w.is_some() && matches!(m, Default | JensenShannon) { return }
    let wk = w.map(|w| (w.0.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), w.1.clone()));
    cx.state(&(T::NAME, format!("{m:?}{d:?}"), a.1, b.1, wk));
    cx.case(format_args!("{} {m:?} {d:?} a={:?} b={:?} w={w:?}", T::NAME, a.1, b.1), || {
        let r = match call(|| T::run(d, a, b, m, w)) {
            Ok(r) => r,
            Err(p) => return Err(format!("panicked: {p}")),
        };
        judge(m, a, b, w, r)
    });
}

/// several ways to store the same matrix
fn forms(n: usize, k: usize, thorough: bool) -> Vec<Lay> {
    let s = [n, k];
    let mut v = vec![c_contig(&s), f_contig(&s)];
    v.push(build(&s, &[1, 0], &[STEP, FLIP], 3, 2));
    v.push(build(&s, &[1, 0], &[FLIP, PAD], 1, 1));
    if thorough {
        v.push(build(&s, &[0, 1], &[FLIPSTEP, PLAIN], 2, 0));
        v.push(build(&s, &[1, 0], &[PLAIN, FLIPSTEP], 0, 2));
    }
    v
}
fn place<T: Clone>(l: &Lay, junk: T, f: impl Fn(&[usize]) -> T) -> Vec<T> {
    let mut r = vec![junk; l.len];
    each_index(&l.shape, |i| r[l.at(i)] = f(i));
    r
}

fn devices(thorough: bool) -> Vec<Dev> {
    let mut v = vec![];
    for row in [true, false] {
        for n in [0, 1, 2, 4] {
            v.push(Dev { n, row, nested: false });
        }
        v.push(Dev { n: 2, row, nested: true });
    }
    if !thorough { v.retain(|d| d.n != 1) }
    v
}

fn values<T: Run>(r: &Runner) {
    let ws: Vec<f64> = r.pick(vec![0.0, 1.0, 2.5], vec![0.0, 0.5, 1.0, 2.5]);
    let kmax = if T::NAME == "bool" { r.pick(5, 6) } else { r.pick(3, 4) };
    let th = r.thorough();
    let mut items = vec![];
    for k in 0..=kmax {
        for m in T::METS {
            items.push((k, *m, None));
            if k <= 4 {
                items.extend(words(&ws, k).into_iter().map(|w| (k, *m, Some(w))));
            } else {
                items.extend((0..k).map(|z| (k, *m, Some((0..k).map(|i| if i == z { 0.0 } else { 1.0 + i as f64 / 2.0 }).collect()))));
            }
        }
    }
    r.par(&format!("values {}", T::NAME), &items, |cx, (k, m, w)| {
        let al = T::alphabet(*k < 4);
        let rows = words(&al, *k);
        for d in devices(th) {
            if *k >= 3 && w.is_some() && d.n > 2 { continue }
            let f = forms(rows.len(), *k, th);
            for (i, la) in f.iter().enumerate() {
                for (j, lb) in f.iter().enumerate() {
                    if *k >= 3 && (i != j && i != 0 || w.is_some() && i > 1) { continue }
                    let junk = al[al.len() - 1];
                    let (ra, rb) = (place(la, junk, |i| rows[i[0]][i[1]]), place(lb, junk, |i| rows[i[0]][i[1]]));
                    let wl = c_contig(&[*k]);
                    case::<T>(cx, d, *m, (&ra, la), (&rb, lb), w.as_ref().map(|w| (&w[..], &wl)));
                }
            }
        }
    });
}

fn weight_layouts(k: usize) -> Vec<Lay> {
    let mut v = layouts_full(&[k], &ALL_KINDS);
    if k > 0 {
        // a contiguous part of a longer buffer
        v.push(Lay { shape: vec![k], stride: vec![1], offset: 2, len: k + 5 });
    }
    v
}

fn layouts<T: Run>(r: &Runner) {
    let sizes = [0, 1, 2, 3];
    let th = r.thorough();
    let mut items = vec![];
    for k in 0..=3 {
        for &m in sizes.iter() {
            for &n in sizes.iter() {
                if m * n <= r.pick(4, 9) { items.push((m, k, n)) }
            }
        }
    }
    r.par(&format!("layouts {}", T::NAME), &items, |cx, &(m, k, n)| {
        let (las, lbs) = (layouts_full(&[m, k], &ALL_KINDS), layouts_full(&[n, k], &ALL_KINDS));
        let wls = weight_layouts(k);
        let simple: [std::collections::HashSet<Lay>; 2] = [m, n].map(|x| layouts_dev(&[x, k], &ALL_KINDS, 1).into_iter().collect());
        let mut c = 0;
        for la in &las {
            let ra: Vec<T> = (0..la.len).map(|p| T::fill(p)).collect();
            for lb in &lbs {
                if !th && !simple[0].contains(la) && !simple[1].contains(lb) { continue }
                let rb: Vec<T> = (0..lb.len).map(|p| T::fill(p * 3 + 5)).collect();
                for met in T::METS {
                    for d in devices(false) {
                        // every pair of layouts meets every metric and every device, one convention and weight layout each
                        c += 1;
                        if d.row == (c % 4 < 2) && !th { continue }
                        let wl = &wls[c / 3 % wls.len()];
                        let w: Vec<f64> = (0..wl.len).map(|p| 0.5 + (p * 3 % 7) as f64).collect();
                        if th || c % 2 == 0 {
                            case::<T>(cx, d, *met, (&ra, la), (&rb, lb), None);
                        }
                        if th || c % 2 == 1 {
                            case::<T>(cx, d, *met, (&ra, la), (&rb, lb), Some((&w, wl)));
                        }
                    }
                }
            }
        }
    });
}

fn wlayouts<T: Run>(r: &Runner) {
    let items: Vec<(usize, usize)> = (0..=4).flat_map(|k| (0..=5).map(move |n| (k, n))).collect();
    r.par(&format!("weights {}", T::NAME), &items, |cx, &(k, n)| {
        for f in forms(2, k, true) {
            let ra: Vec<T> = (0..f.len).map(|p| T::fill(p)).collect();
            let rb: Vec<T> = (0..f.len).map(|p| T::fill(p * 3 + 5)).collect();
            for wl in weight_layouts(n) {
                let w: Vec<f64> = (0..wl.len).map(|p| 0.5 + (p * 3 % 7) as f64).collect();
                for d in devices(false) {
                    for met in T::METS {
                        case::<T>(cx, d, *met, (&ra, &f), (&rb, &f), Some((&w, &wl)));
                    }
                }
            }
        }
    });
}

/// arguments that do not fit: widths, dimensions of rows and weights
fn misfits<T: Run>(r: &Runner) {
    let sh: Vec<Vec<usize>> = shapes(0, 3, &[0, 1, 2, 3]);
    let items: Vec<(Vec<usize>, Vec<usize>)> = sh.iter().flat_map(|a| sh.iter().map(move |b| (a.clone(), b.clone()))).collect();
    r.par(&format!("misfits {}", T::NAME), &items, |cx, (a, b)| {
        let (la, lb) = (c_contig(a), c_contig(b));
        let ra: Vec<T> = (0..la.len).map(|p| T::fill(p)).collect();
        let rb: Vec<T> = (0..lb.len).map(|p| T::fill(p + 4)).collect();
        for d in devices(false).into_iter().filter(|d| d.n % 2 == 0 && !d.nested) {
            for met in T::METS {
                case::<T>(cx, d, *met, (&ra, &la), (&rb, &lb), None);
                for ws in [vec![], vec![0], vec![1], vec![2], vec![3], vec![1, 2], vec![2, 1], vec![3, 3]] {
                    let wl = c_contig(&ws);
                    let w: Vec<f64> = (0..wl.len).map(|p| 0.5 + p as f64).collect();
                    case::<T>(cx, d, *met, (&ra, &la), (&rb, &lb), Some((&w, &wl)));
                }
            }
        }
    });
}

/// numbers of rows and columns around the block sizes (blocks shrink as rows get longer)
fn blocks<T: Run>(r: &Runner) {
    let mut items = vec![];
    let big = [1, 7, 8, 9, 63, 64, 65, 129];
    for k in [1usize, 3] {
        for m in big { for n in big { items.push((m, k, n)) } }
    }
    let long: &[usize] = r.pick(&[255, 257, 1000, 4097][..], &[255, 256, 257, 511, 512, 513, 1000, 2047, 2048, 2049, 4097, 20000][..]);
    for &k in long {
        for m in [1, 7, 8, 9, 17, 33, 64, 65] { for n in [1, 7, 8, 9, 17, 33, 64, 65] {
            if m * n * k <= r.pick(300_000, 3_000_000) { items.push((m, k, n)) }
        } }
    }
    let th = r.thorough();
    r.par(&format!("blocks {}", T::NAME), &items, |cx, &(m, k, n)| {
        let mets: Vec<Met> = T::METS.iter().copied().filter(|x| th || k < 4 || matches!(x, CityBlock | Cosine | Correlation | Hamming | Dice)).collect();
        for f in [0, 2] {
            let (la, lb) = (&forms(m, k, false)[f], &forms(n, k, false)[f]);
            let ra: Vec<T> = (0..la.len).map(|p| T::fill(p + p / 11)).collect();
            let rb: Vec<T> = (0..lb.len).map(|p| T::fill(p * 3 + p / 7)).collect();
            let wl = c_contig(&[k]);
            let w: Vec<f64> = (0..k).map(|p| 0.5 + (p * 3 % 7) as f64).collect();
            for (i, met) in mets.iter().enumerate() {
                for d in devices(th) {
                    let d = Dev { row: d.row, ..d };
                    case::<T>(cx, d, *met, (&ra, la), (&rb, lb), if (i + m + n) % 2 == 0 { None } else { Some((&w, &wl)) });
                }
            }
        }
    });
}

fn main() {
    fw::main("P26", |r| {
        r.bound("values: every pair of rows over 3 to 5 values and up to 3 columns (thorough 4; booleans 5, 6), every weight vector over 3 (thorough 4) values, as one call with all rows, 4 (6) storage forms, serial and faer devices with 1, 2, 4 threads and from inside a rayon worker, both conventions");
        r.bound("layouts: every axis order, step, flip, broadcast and gap of both operands (quick: one of them within one deviation of the plain layout, f64 and booleans), up to 3 columns and 3 rows, weights over all 1-d layouts");
        r.bound("misfits: all shapes of rank 0 to 3 over sizes 0 to 3 for both operands, 8 weight shapes");
        r.bound("blocks: row counts 1 to 129 around the block sizes 8 and 64, up to 4097 columns (thorough 20000)");
        r.assume("a metric that divides zero by zero for the given rows (all-false Jaccard or Dice, zero vectors for the cosine, zero total weight, ...) is undefined and any value is accepted; Jensen-Shannon is checked for non-negative rows with positive sums");
        r.assume("weights are not negative; Minkowski exponents are finite and positive");
        macro_rules! all { ($f:ident) => { $f::<f64>(r); $f::<f32>(r); $f::<C>(r); $f::<i32>(r); $f::<bool>(r); } }
        misfits::<f64>(r);
        misfits::<bool>(r);
        all!(wlayouts);
        if r.thorough() { all!(layouts); } else { layouts::<f64>(r); layouts::<bool>(r) }
        all!(blocks);
        all!(values);
        r.extra("pairs_of_rows_compared", PAIRS.load(Relaxed));
    });
}
