//! Small exact and floating-point matrix oracle for the linear-algebra checks.
pub use core_mc::*;
pub use num::complex::Complex64 as C64;

pub trait Sc: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const REAL: bool;
    const TOL: f64;
    const NAME: &'static str;
    fn mk(x: C64) -> Self;
    fn c(self) -> C64;
}
impl Sc for f64 { const REAL: bool = true; const TOL: f64 = 1e-9; const NAME: &'static str = "f64"; fn mk(x: C64) -> Self { x.re } fn c(self) -> C64 { C64::new(self, 0.) } }
impl Sc for f32 { const REAL: bool = true; const TOL: f64 = 2e-3; const NAME: &'static str = "f32"; fn mk(x: C64) -> Self { x.re as f32 } fn c(self) -> C64 { C64::new(self as f64, 0.) } }
impl Sc for Complex<f64> { const REAL: bool = false; const TOL: f64 = 1e-9; const NAME: &'static str = "c64"; fn mk(x: C64) -> Self { x } fn c(self) -> C64 { self } }
impl Sc for Complex<f32> { const REAL: bool = false; const TOL: f64 = 2e-3; const NAME: &'static str = "c32"; fn mk(x: C64) -> Self { Complex::new(x.re as f32, x.im as f32) } fn c(self) -> C64 { C64::new(self.re as f64, self.im as f64) } }

pub type M = Nd<C64>;
pub fn z(re: i64, im: i64) -> C64 { C64::new(re as f64, im as f64) }
pub fn mat(r: usize, c: usize, v: &[C64]) -> M { Nd::new(&[r, c], v.to_vec()) }
pub fn eye(n: usize) -> M { Nd::from_fn(&[n, n], |i| z((i[0] == i[1]) as i64, 0)) }
pub fn adj(a: &M) -> M { Nd::from_fn(&[a.shape[1], a.shape[0]], |i| a.at(&[i[1], i[0]]).conj()) }
pub fn tr(a: &M) -> M { Nd::from_fn(&[a.shape[1], a.shape[0]], |i| *a.at(&[i[1], i[0]])) }
pub fn mul(a: &M, b: &M) -> M {
    assert!(a.shape[1] == b.shape[0]);
    Nd::from_fn(&[a.shape[0], b.shape[1]], |i| (0..a.shape[1]).map(|k| a.at(&[i[0], k]) * b.at(&[k, i[1]])).sum())
}
/// columns of `v` scaled by `w`
pub fn scale(v: &M, w: &M) -> M { Nd::from_fn(&v.shape, |i| v.at(i) * w.data[i[1]]) }
pub fn fin(a: &M) -> bool { a.data.iter().all(|x| x.re.is_finite() && x.im.is_finite()) }
pub fn dist(a: &M, b: &M) -> f64 {
    if a.shape != b.shape { return f64::INFINITY }
    a.data.iter().zip(&b.data).map(|(x, y)| (x - y).norm()).fold(0., |m, x| if x.is_nan() { f64::INFINITY } else { f64::max(m, x) })
}
pub fn big(a: &M) -> f64 { a.data.iter().map(|x| x.norm()).fold(0., f64::max) }
/// determinant by expansion; exact for small integers
pub fn xdet(a: &M) -> C64 {
    let n = a.shape[0];
    let mut s = z(0, 0);
    for p in permutations(n) {
        let mut inv = 0;
        for i in 0..n { for j in 0..i { if p[j] > p[i] { inv += 1 } } }
        let t: C64 = (0..n).map(|i| *a.at(&[i, p[i]])).product();
        s += if inv % 2 == 0 { t } else { -t };
    }
    s
}
pub fn lead(a: &M, k: usize) -> M { Nd::from_fn(&[k, k], |i| *a.at(i)) }
/// all leading minors of a Hermitian matrix of integers
pub fn minors(a: &M) -> Vec<f64> { (1..=a.shape[0]).map(|k| xdet(&lead(a, k)).re).collect() }
/// the Hermitian (or symmetric) matrix given by one triangle
pub fn from_tri(a: &M, upper: bool, hermi: bool) -> M {
    Nd::from_fn(&a.shape, |i| {
        let own = i[0] == i[1] || (i[0] < i[1]) == upper;
        if own { *a.at(i) } else { let x = *a.at(&[i[1], i[0]]); if hermi { x.conj() } else { x } }
    })
}
pub fn tri_only(a: &M, upper: bool) -> M { Nd::from_fn(&a.shape, |i| if i[0] == i[1] || (i[0] < i[1]) == upper { *a.at(i) } else { z(0, 0) }) }
/// rank of a small integer matrix: largest non-zero minor
pub fn rank(a: &M) -> usize {
    let (m, n) = (a.shape[0], a.shape[1]);
    let mut best = 0;
    for r in subsets(m) { for c in subsets(n) {
        if r.len() != c.len() || r.len() <= best { continue }
        if xdet(&Nd::from_fn(&[r.len(), r.len()], |i| *a.at(&[r[i[0]], c[i[1]]]))).norm() > 0.5 { best = r.len() }
    }}
    best
}
pub fn near(what: &str, got: &M, want: &M, tol: f64) -> Result<(), String> {
    let s = 1. + big(want);
    if dist(got, want) > tol * s { return Err(format!("{what}: {:?} of shape {:?}, expected {:?} of shape {:?}", got.data, got.shape, want.data, want.shape)) }
    Ok(())
}
