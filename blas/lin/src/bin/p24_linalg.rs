//! P24: linear-algebra functions return what satisfies their defining equations.
use lin::*;
use rstsr_common::prelude_dev::FlagUpLo;
use rstsr_linalg_traits::traits_def::*;
use rstsr_openblas::DeviceOpenBLAS;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Chol(Option<FlagUpLo>), Det, SLogDet, Inv,
    Eigh(Option<FlagUpLo>), Eigvalsh(Option<FlagUpLo>),
    GEigh(Option<FlagUpLo>, i32), GVals(Option<FlagUpLo>, i32),
    /// driver, triangle, type of problem, values only
    EArgs(Option<&'static str>, Option<FlagUpLo>, i32, bool),
    /// eigenvalues selected by position or by value
    ESub(bool, bool),
    SolveG, SolveS(Option<bool>, Option<FlagUpLo>), SolveT(Option<FlagUpLo>),
    Svd(Option<bool>), SvdVals, SArgs(Option<&'static str>, Option<bool>),
    Pinv, PinvTol(f64, f64),
}
use Op::*;

struct Outcome<T> { res: Result<Vec<M>, String>, a: Vec<T>, b: Vec<T> }

fn lg<R, T: Sc, B, D>(t: &TensorAny<R, T, B, D>) -> Result<M, String>
where R: DataAPI<Data = Vec<T>>, B: DeviceAPI<T, Raw = Vec<T>>, D: rstsr_common::prelude_dev::DimAPI
{ Ok(logical(t)?.map(|x| x.c())) }
fn es<E: std::fmt::Debug>(e: E) -> String { let mut s = format!("{e:?}"); s.truncate(160); s }

macro_rules! runner {
    ($name:ident, $D:ident, $T:ident, $blas:tt) => {
        fn $name(op: &Op, la: &Lay, lb: Option<&Lay>, a: Vec<$T>, b: Vec<$T>, d: &$D, fa: usize, fb: usize) -> Option<Outcome<$T>> {
            type R = Result<Vec<M>, String>;
            let mut ta = tensor(a, la, d);
            let mut tb = lb.map(|l| tensor(b.clone(), l, d));
            // one input: by reference, view, value, mutable view
            macro_rules! un { ($x:ident => $e:expr, $r:ident => $c:expr, $m:tt) => {{
                let res: R = match fa {
                    0 => { let $x = &ta; match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    1 => { let $x = ta.view(); match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    2 => { let $x = ta.clone(); match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    4 => { let q = ta.view().into_dim_f::<Ix2>(); match q { Ok(q) => { let $x = &q; match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } }, Err(e) => Err(es(e)) } },
                    _ => un!(@mut $m $x => $e, $r => $c),
                };
                res
            }};
            (@mut true $x:ident => $e:expr, $r:ident => $c:expr) => {{ let $x = ta.view_mut(); match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } }};
            (@mut false $x:ident => $e:expr, $r:ident => $c:expr) => {{ return None }};
            }
            macro_rules! two { ($x:ident, $y:ident => $e:expr, $r:ident => $c:expr) => {{
                let tb = tb.as_mut()?;
                macro_rules! inner { ($q:expr) => {{ let $x = $q; match fb {
                    0 => { let $y = &*tb; match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    1 => { let $y = tb.view(); match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    2 => { let $y = tb.clone(); match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    _ => { let $y = tb.view_mut(); match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                }}}; }
                let res: R = match fa { 0 => inner!(&ta), 1 => inner!(ta.view()), 2 => inner!(ta.clone()), 3 => inner!(ta.view_mut()), _ => return None };
                res
            }}; }
            macro_rules! refs { ($x:ident, $y:ident => $e:expr, $r:ident => $c:expr) => {{
                let tb = tb.as_ref()?;
                macro_rules! inner { ($q:expr) => {{ let $x = $q; match fb {
                    0 => { let $y = tb; match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    1 => { let $y = tb.view(); match $e { Ok($r) => (|| -> R { $c })(), Err(e) => Err(es(e)) } },
                    _ => return None,
                }}}; }
                let res: R = match fa { 0 => inner!(&ta), 1 => inner!(ta.view()), _ => return None };
                res
            }}; }
            fn wv<W: Sc, B: DeviceAPI<W, Raw = Vec<W>>, D: rstsr_common::prelude_dev::DimAPI>(w: &Tensor<W, B, D>) -> Result<M, String> { lg(w) }
            let res: R = match op.clone() {
                Chol(None) => un!(x => cholesky_f::<_, $D>(x), r => Ok(vec![lg(&r)?]), $blas),
                Chol(u) => un!(x => cholesky_f::<_, $D>((x, u.unwrap())), r => Ok(vec![lg(&r)?]), $blas),
                Det => un!(x => det_f::<_, $D>(x), r => Ok(vec![Nd::new(&[], vec![r.c()])]), $blas),
                Inv => un!(x => inv_f::<_, $D>(x), r => Ok(vec![lg(&r)?]), $blas),
                Eigh(None) => un!(x => eigh_f::<_, $D>(x), r => Ok(vec![wv(&r.eigenvalues)?, lg(&r.eigenvectors)?]), $blas),
                Eigh(u) => un!(x => eigh_f::<_, $D>((x, u.unwrap())), r => Ok(vec![wv(&r.eigenvalues)?, lg(&r.eigenvectors)?]), $blas),
                Eigvalsh(None) => un!(x => eigvalsh_f::<_, $D>(x), r => Ok(vec![wv(&r)?]), $blas),
                Eigvalsh(u) => un!(x => eigvalsh_f::<_, $D>((x, u.unwrap())), r => Ok(vec![wv(&r)?]), $blas),
                GEigh(None, 1) => refs!(x, y => eigh_f::<_, $D>((x, y)), r => Ok(vec![wv(&r.eigenvalues)?, lg(&r.eigenvectors)?])),
                GEigh(None, _) => return None,
                GEigh(Some(u), 0) => refs!(x, y => eigh_f::<_, $D>((x, y, u)), r => Ok(vec![wv(&r.eigenvalues)?, lg(&r.eigenvectors)?])),
                GEigh(Some(u), k) => refs!(x, y => eigh_f::<_, $D>((x, y, u, k)), r => Ok(vec![wv(&r.eigenvalues)?, lg(&r.eigenvectors)?])),
                SolveG => two!(x, y => solve_general_f::<_, $D>((x, y)), r => Ok(vec![lg(&r)?])),
                SolveT(None) => two!(x, y => solve_triangular_f::<_, $D>((x, y)), r => Ok(vec![lg(&r)?])),
                SolveT(u) => two!(x, y => solve_triangular_f::<_, $D>((x, y, u.unwrap())), r => Ok(vec![lg(&r)?])),
                Svd(None) => un!(x => svd_f::<_, $D>(x), r => Ok(vec![lg(&r.u)?, wv(&r.s)?, lg(&r.vt)?]), false),
                Svd(f) => un!(x => svd_f::<_, $D>((x, f.unwrap())), r => Ok(vec![lg(&r.u)?, wv(&r.s)?, lg(&r.vt)?]), false),
                SvdVals => un!(x => svdvals_f::<_, $D>(x), r => Ok(vec![wv(&r)?]), false),
                Pinv => un!(x => pinv_f::<_, $D>(x), r => Ok(vec![lg(&r.pinv)?, Nd::new(&[], vec![z(r.rank as i64, 0)])]), false),
                PinvTol(p, q) => un!(x => pinv_f::<_, $D>((x, p as _, q as _)), r => Ok(vec![lg(&r.pinv)?, Nd::new(&[], vec![z(r.rank as i64, 0)])]), false),
                _ => runner!(@more $blas op ta tb un two refs wv fa fb $D $T),
            };
            // what the borrowed inputs hold afterwards
            Some(Outcome { res, a: ta.raw().clone(), b: tb.map_or(b, |t| t.raw().clone()) })
        }
    };
    (@more false $op:ident $ta:ident $tb:ident $un:ident $two:ident $refs:ident $wv:ident $fa:ident $fb:ident $D:ident $T:ident) => { return None };
    (@more true $op:ident $ta:ident $tb:ident $un:ident $two:ident $refs:ident $wv:ident $fa:ident $fb:ident $D:ident $T:ident) => {
        match $op.clone() {
            SLogDet => $un!(x => slogdet_f::<_, $D>(x), r => Ok(vec![Nd::new(&[], vec![r.sign.c()]), Nd::new(&[], vec![r.logabsdet.c()])]), true),
            GVals(None, 1) => $refs!(x, y => eigvalsh_f::<_, $D>((x, y)), r => Ok(vec![$wv(&r)?])),
            GVals(Some(u), 0) => $refs!(x, y => eigvalsh_f::<_, $D>((x, y, u)), r => Ok(vec![$wv(&r)?])),
            GVals(Some(u), k) => $refs!(x, y => eigvalsh_f::<_, $D>((x, y, u, k)), r => Ok(vec![$wv(&r)?])),
            SolveS(h, u) => match (h, u) {
                (None, None) => $two!(x, y => solve_symmetric_f::<_, $D>((x, y)), r => Ok(vec![lg(&r)?])),
                (Some(h), None) => $two!(x, y => solve_symmetric_f::<_, $D>((x, y, h)), r => Ok(vec![lg(&r)?])),
                (None, Some(u)) => $two!(x, y => solve_symmetric_f::<_, $D>((x, y, u)), r => Ok(vec![lg(&r)?])),
                (Some(h), Some(u)) => $two!(x, y => solve_symmetric_f::<_, $D>((x, y, h, u)), r => Ok(vec![lg(&r)?])),
            },
            EArgs(drv, u, it, only) => {
                if ($fa != 1 && $fa != 3) || ($tb.is_some() && $fb != 1 && $fb != 3) { return None }
                let mut go = || -> Result<Vec<M>, String> {
                    // the builder takes two-dimensional views, borrowed or to be overwritten
                    let mut e = EighArgs::<$D, $T>::default().uplo(u).eig_type(it).eigvals_only(only); if let Some(d) = drv { e = e.driver(d) }
                    e = if $fa == 1 { e.a($ta.view().into_dim_f::<Ix2>().map_err(es)?) } else { e.a($ta.view_mut().into_dim_f::<Ix2>().map_err(es)?) };
                    if $fb == 1 { if let Some(q) = $tb.as_ref() { e = e.b(q.view().into_dim_f::<Ix2>().map_err(es)?) } }
                    else if let Some(q) = $tb.as_mut() { e = e.b(q.view_mut().into_dim_f::<Ix2>().map_err(es)?) }
                    if only { return Ok(vec![$wv(&eigvalsh_f::<_, $D>(e).map_err(es)?)?]) }
                    let r = eigh_f::<_, $D>(e).map_err(es)?;
                    Ok(vec![$wv(&r.eigenvalues)?, lg(&r.eigenvectors.view())?])
                };
                go()
            },
            ESub(val, only) => {
                if $fa != 1 { return None }
                let go = || -> Result<Vec<M>, String> {
                    let mut e = EighArgs::<$D, $T>::default().eigvals_only(only).a($ta.view().into_dim_f::<Ix2>().map_err(es)?);
                    e = if val { e.subset_by_value((1e6, 2e6)) } else { e.subset_by_index((0usize, 0usize)) };
                    if only { return Ok(vec![$wv(&eigvalsh_f::<_, $D>(e).map_err(es)?)?]) }
                    Ok(vec![$wv(&eigh_f::<_, $D>(e).map_err(es)?.eigenvalues)?])
                };
                go()
            },
            SArgs(drv, full) => {
                if $fa != 1 && $fa != 3 { return None }
                let mut go = || -> Result<Vec<M>, String> {
                    let mut e = SVDArgs::<$D, $T>::default().full_matrices(full); if let Some(d) = drv { e = e.driver(d) }
                    e = if $fa == 1 { e.a($ta.view().into_dim_f::<Ix2>().map_err(es)?) } else { e.a($ta.view_mut().into_dim_f::<Ix2>().map_err(es)?) };
                    if full.is_none() { return Ok(vec![$wv(&svdvals_f::<_, $D>(e).map_err(es)?)?]) }
                    let r = svd_f::<_, $D>(e).map_err(es)?;
                    Ok(vec![lg(&r.u)?, $wv(&r.s)?, lg(&r.vt)?])
                };
                go()
            },
            _ => return None,
        }
    };
}
use FlagUpLo::{L as Lower, U as Upper};
type Z = Complex<f64>;
type Y = Complex<f32>;
runner!(faer_f64, DeviceFaer, f64, false);
runner!(faer_f32, DeviceFaer, f32, false);
runner!(faer_c64, DeviceFaer, Z, false);
runner!(faer_c32, DeviceFaer, Y, false);
runner!(blas_f64, DeviceOpenBLAS, f64, true);
runner!(blas_f32, DeviceOpenBLAS, f32, true);
runner!(blas_c64, DeviceOpenBLAS, Z, true);
runner!(blas_c32, DeviceOpenBLAS, Y, true);

/// a logical matrix laid out over a buffer; `hide` marks entries nobody may read
fn put<T: Sc>(l: &Lay, m: &M, hide: impl Fn(&[usize]) -> bool) -> Vec<T> {
    let mut v = vec![T::mk(z(777, 777)); l.len];
    each_index(&l.shape, |i| v[l.at(i)] = if hide(i) { T::mk(C64::new(f64::NAN, f64::NAN)) } else { T::mk(*m.at(i)) });
    v
}
fn bits<T: Sc>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| { let c = x.c(); (c.re.to_bits(), c.im.to_bits()) }).collect() }

struct Env { row: bool, blas: bool }

/// one call and its verdict; `a`, `b` are the logical inputs
fn case<T: Sc>(run: &dyn Fn(&Op, &Lay, Option<&Lay>, Vec<T>, Vec<T>, usize, usize) -> Option<Outcome<T>>, e: &Env, op: &Op, la: &Lay, a: &M, lb: Option<&Lay>, b: Option<&M>, fa: usize, fb: usize) -> Res {
    let up = |u: &Option<FlagUpLo>| match u { Some(u) => *u == Upper, None => !e.row };
    let n = a.shape.first().copied().unwrap_or(0);
    let square = a.ndim() == 2 && a.shape[0] == a.shape[1];
    // the triangle that must not be read
    let hide: Option<bool> = match op {
        Chol(u) | Eigh(u) | Eigvalsh(u) | GEigh(u, _) | GVals(u, _) | EArgs(_, u, _, _) | SolveS(_, u) | SolveT(u) => Some(up(u)),
        _ => None,
    };
    let hid = |i: &[usize]| hide.is_some_and(|u| i.len() == 2 && i[0] != i[1] && (i[0] < i[1]) != u);
    let va: Vec<T> = put(la, a, hid);
    let gen = matches!(op, GEigh(..) | GVals(..) | EArgs(..));
    let vb: Vec<T> = match (lb, b) { (Some(l), Some(b)) => put(l, b, |i| gen && hid(i)), _ => vec![] };
    let empty = a.size() == 0 || b.is_some_and(|b| b.size() == 0);
    let o = if empty { match fw::call(|| run(op, la, lb, va.clone(), vb.clone(), fa, fb)) { Ok(o) => o, Err(_) => return Ok(Out::Rej) } } else { run(op, la, lb, va.clone(), vb.clone(), fa, fb) };
    let Some(o) = o else { return Ok(Out::Skip) };
    // borrowed inputs are left alone, and nothing but the elements of mutable views is written
    let touched = |what: &str, form: usize, l: &Lay, before: &[T], after: &[T]| -> Result<(), String> {
        let (x, y) = (bits(before), bits(after));
        if x == y { return Ok(()) }
        if form != 3 { return Err(format!("{what} was changed to {after:?}")) }
        let pos = l.positions();
        for p in 0..x.len() { if x[p] != y[p] && !pos.contains(&p) { return Err(format!("{what}: position {p} outside of the view was changed")) } }
        Ok(())
    };
    touched("the first input", fa, la, &va, &o.a)?;
    if let Some(l) = lb { touched("the second input", fb, l, &vb, &o.b)? }
    let tol = T::TOL;
    let bshape_ok = match (op, b) {
        (SolveG | SolveS(..) | SolveT(_), Some(b)) => (1..=2).contains(&b.ndim()) && b.shape[0] == n,
        (_, Some(b)) => b.shape == a.shape,
        _ => true,
    };
    let need_square = !matches!(op, Svd(_) | SvdVals | SArgs(..) | Pinv | PinvTol(..));
    let valid = a.ndim() == 2 && (square || !need_square) && bshape_ok;
    let res = match o.res { Ok(r) => r, Err(m) => {
        if !valid || a.size() == 0 || b.is_some_and(|b| b.size() == 0) { return Ok(Out::Rej) }
        // an error is right only for singular and indefinite input
        let ok = match op {
            Chol(u) => minors(&from_tri(a, up(u), true)).iter().any(|m| *m <= 0.5),
            GEigh(u, _) | GVals(u, _) => minors(&from_tri(b.unwrap(), up(u), true)).iter().any(|m| *m <= 0.5),
            EArgs(_, u, _, _) => b.is_some_and(|b| minors(&from_tri(b, up(u), true)).iter().any(|m| *m <= 0.5)),
            Inv | SolveG => xdet(a).norm() < 0.5,
            SolveS(h, u) => xdet(&from_tri(a, up(u), h.unwrap_or(true))).norm() < 0.5,
            SolveT(_) => (0..n).any(|i| a.at(&[i, i]).norm() < 0.5),
            _ => false,
        };
        if matches!(op, ESub(..)) { return Ok(Out::Rej) }
        return if ok { Ok(Out::Rej) } else { Err(format!("rejected: {m}")) };
    }};
    if let ESub(val, _) = op { return if res[0].size() == if *val { 0 } else { n.min(1) } { Ok(Out::Val) } else { Err(format!("asked for some eigenvalues, got {:?}", res[0].data)) } }
    if !valid { return Err(format!("accepted, giving {:?}", res.iter().map(|r| r.shape.clone()).collect::<Vec<_>>())) }
    let herm = |m: &M, u: &Option<FlagUpLo>| from_tri(m, up(u), true);
    let loose = |r: &M| !fin(r) || big(r) > 1e-2 / tol;
    match op {
        Chol(u) => {
            let h = herm(a, u);
            let m = minors(&h);
            let l = &res[0];
            if m.iter().any(|x| *x < -0.5) { return Err(format!("accepted an indefinite matrix, giving {:?}", l.data)) }
            let upper = up(u);
            if l.shape != [n, n] { return Err(format!("shape {:?}", l.shape)) }
            for i in 0..n { for j in 0..n { if i != j && (i < j) != upper && *l.at(&[i, j]) != z(0, 0) { return Err(format!("entry {i},{j} of the factor is {}", l.at(&[i, j]))) } } }
            for i in 0..n { let x = l.at(&[i, i]); if x.re < 0. || x.im.abs() > tol { return Err(format!("diagonal entry {x}")) } }
            let p = if upper { mul(&adj(l), l) } else { mul(l, &adj(l)) };
            near("product of the factors", &p, &h, tol)?;
            // singular input has to be noticed, unless it is hidden by rounding
            if m.iter().any(|x| x.abs() < 0.5) && (0..n).all(|i| l.at(&[i, i]).norm() > tol.sqrt()) { return Err(format!("accepted a singular matrix, giving {:?}", l.data)) }
        },
        ESub(..) => unreachable!(),
        Det => near("determinant", &res[0], &Nd::new(&[], vec![xdet(a)]), tol)?,
        SLogDet => {
            let d = xdet(a);
            let (s, l) = (res[0].data[0], res[1].data[0].re);
            if d.norm() < 0.5 {
                if !(l < -10. && !s.re.is_nan() && !s.im.is_nan()) { return Err(format!("singular matrix gives sign {s} and logarithm {l}")) }
            } else {
                near("sign", &res[0], &Nd::new(&[], vec![d / d.norm()]), tol)?;
                near("logarithm", &res[1], &Nd::new(&[], vec![C64::new(d.norm().ln(), 0.)]), tol)?;
            }
        },
        Inv => {
            let r = &res[0];
            if r.shape != [n, n] { return Err(format!("shape {:?}", r.shape)) }
            if xdet(a).norm() < 0.5 { return if loose(r) { Ok(Out::Val) } else { Err(format!("inverse {:?} of a singular matrix", r.data)) } }
            near("matrix times inverse", &mul(a, r), &eye(n), 10. * tol)?;
        },
        SolveG | SolveS(..) | SolveT(_) => {
            let full = match op { SolveG => a.clone(), SolveS(h, u) => from_tri(a, up(u), h.unwrap_or(true)), SolveT(u) => tri_only(a, up(u)), _ => unreachable!() };
            let b = b.unwrap();
            let x = &res[0];
            if x.shape != b.shape { return Err(format!("shape {:?}", x.shape)) }
            let k = if b.ndim() == 1 { 1 } else { b.shape[1] };
            let (x2, b2) = (Nd::new(&[n, k], x.data.clone()), Nd::new(&[n, k], b.data.clone()));
            let sing = xdet(&full).norm() < 0.5;
            if sing && loose(x) { return Ok(Out::Val) }
            near(if sing { "matrix times solution (singular)" } else { "matrix times solution" }, &mul(&full, &x2), &b2, 10. * tol)?;
        },
        Eigh(u) | Eigvalsh(u) | GEigh(u, _) | GVals(u, _) | EArgs(_, u, _, _) => {
            let h = herm(a, u);
            let itype = match op { GEigh(_, k) | GVals(_, k) => (*k).max(1), EArgs(_, _, k, _) if b.is_some() => *k, _ => 0 };
            let g = b.map(|b| herm(b, u));
            if let Some(g) = &g {
                let m = minors(g);
                if m.iter().any(|x| *x < -0.5) { return Err("accepted an indefinite second matrix".into()) }
                // rounding may hide a singular one
                if m.iter().any(|x| *x < 0.5) { return Ok(Out::Skip) }
            }
            let w = &res[0];
            if w.shape != [n] { return Err(format!("{:?} eigenvalues", w.shape)) }
            if w.data.windows(2).any(|p| !(p[0].re <= p[1].re + tol)) { return Err(format!("eigenvalues {:?} are not in ascending order", w.data)) }
            // eigenvalues alone: every characteristic determinant must vanish, with the right sum
            let left = |x: C64| -> M {
                let id = eye(n);
                let (p, q) = match itype { 0 => (h.clone(), id), 1 => (h.clone(), g.clone().unwrap()), 2 => (mul(&h, g.as_ref().unwrap()), id), _ => (mul(g.as_ref().unwrap(), &h), id) };
                Nd::from_fn(&[n, n], |i| p.at(i) - x * q.at(i))
            };
            for x in &w.data { let d = xdet(&left(*x)).norm(); let s = (1. + big(&left(z(0, 0))) + x.norm()).powi(n as i32); if !(d <= 100. * tol * s) { return Err(format!("{x} is not an eigenvalue: characteristic determinant {d}; {:?}", w.data)) } }
            // multiplicities: the product and the sum
            let sum: C64 = w.data.iter().sum();
            let prod: C64 = w.data.iter().product();
            let (dh, dg) = (xdet(&h), g.as_ref().map_or(z(1, 0), xdet));
            let want = match itype { 0 => dh, 1 => dh / dg, _ => dh * dg };
            if (prod - want).norm() > 100. * tol * (1. + want.norm()) { return Err(format!("eigenvalues {:?} have product {prod}, expected {want}", w.data)) }
            if itype != 1 { let t: C64 = (0..n).map(|i| *left(z(0, 0)).at(&[i, i])).sum(); if (sum - t).norm() > 10. * tol * (1. + t.norm() + big(w)) { return Err(format!("eigenvalues {:?} have sum {sum}, expected {t}", w.data)) } }
            if res.len() > 1 {
                let v = &res[1];
                if v.shape != [n, n] { return Err(format!("eigenvectors of shape {:?}", v.shape)) }
                let (lhs, rhs, norm) = match itype {
                    0 => (mul(&h, v), scale(v, w), mul(&adj(v), v)),
                    1 => { let g = g.as_ref().unwrap(); (mul(&h, v), mul(g, &scale(v, w)), mul(&adj(v), &mul(g, v))) },
                    2 => { let g = g.as_ref().unwrap(); (mul(&h, &mul(g, v)), scale(v, w), mul(&adj(v), &mul(g, v))) },
                    _ => { let g = g.as_ref().unwrap(); (mul(g, &mul(&h, v)), scale(v, w), eye(n)) },
                };
                near("matrix times eigenvectors", &lhs, &rhs, 100. * tol)?;
                near("norms of the eigenvectors", &norm, &eye(n), 100. * tol)?;
                if itype == 3 {
                    // v^H g^-1 v = 1, that is v v^H = g
                    near("norms of the eigenvectors", &mul(v, &adj(v)), g.as_ref().unwrap(), 100. * tol)?;
                }
            }
        },
        Svd(_) | SvdVals | SArgs(..) => {
            let (m, n) = (a.shape[0], a.shape[1]);
            let k = m.min(n);
            let s = if res.len() == 1 { &res[0] } else { &res[1] };
            if s.shape != [k] { return Err(format!("{:?} singular values", s.shape)) }
            if s.data.iter().any(|x| !(x.re >= 0.)) || s.data.windows(2).any(|p| !(p[0].re >= p[1].re)) { return Err(format!("singular values {:?} are not in descending order", s.data)) }
            let f: f64 = a.data.iter().map(|x| x.norm_sqr()).sum();
            let fs: f64 = s.data.iter().map(|x| x.norm_sqr()).sum();
            if (f - fs).abs() > tol * (1. + f) { return Err(format!("singular values {:?} have square sum {fs}, expected {f}", s.data)) }
            let gram = if m <= n { mul(a, &adj(a)) } else { mul(&adj(a), a) };
            for x in &s.data { let d = xdet(&Nd::from_fn(&[k, k], |i| gram.at(i) - if i[0] == i[1] { x * x } else { z(0, 0) })).norm(); if !(d <= 100. * tol * (1. + big(&gram)).powi(k as i32)) { return Err(format!("{x} is not a singular value of {:?}", a.data)) } }
            if res.len() > 1 {
                let (u, vt) = (&res[0], &res[2]);
                let full = match op { Svd(f) => f.unwrap_or(true), SArgs(_, f) => f.unwrap(), _ => true };
                let (ku, kv) = if full { (m, n) } else { (k, k) };
                if u.shape != [m, ku] || vt.shape != [kv, n] { return Err(format!("factors of shapes {:?} and {:?}", u.shape, vt.shape)) }
                let us = Nd::from_fn(&[m, kv], |i| if i[1] < k { u.at(i) * s.data[i[1]] } else { z(0, 0) });
                near("product of the factors", &mul(&us, vt), a, 10. * tol)?;
                near("orthonormal left vectors", &mul(&adj(u), u), &eye(ku), 10. * tol)?;
                near("orthonormal right vectors", &mul(vt, &adj(vt)), &eye(kv), 10. * tol)?;
            }
        },
        Pinv | PinvTol(..) => {
            let p = &res[0];
            if p.shape != [a.shape[1], a.shape[0]] { return Err(format!("shape {:?}", p.shape)) }
            let want = if matches!(op, PinvTol(t, _) if *t > 50.) { 0 } else { rank(a) };
            if res[1].data[0] != z(want as i64, 0) { return Err(format!("rank {}, expected {want}", res[1].data[0])) }
            if want == 0 { return near("pseudo-inverse", p, &Nd::from_fn(&p.shape, |_| z(0, 0)), tol).map(|_| Out::Val) }
            near("a p a", &mul(a, &mul(p, a)), a, 100. * tol)?;
            near("p a p", &mul(p, &mul(a, p)), p, 100. * tol)?;
            let (ap, pa) = (mul(a, p), mul(p, a));
            near("a p is Hermitian", &adj(&ap), &ap, 100. * tol)?;
            near("p a is Hermitian", &adj(&pa), &pa, 100. * tol)?;
        },
    }
    Ok(Out::Val)
}

fn ops1(blas: bool) -> Vec<Op> {
    let tri = [None, Some(Lower), Some(Upper)];
    let mut v = vec![Det, Inv, SvdVals, Svd(None), Svd(Some(true)), Svd(Some(false)), Pinv, PinvTol(0., 1e-5), PinvTol(100., 0.)];
    for u in tri { v.push(Chol(u)); v.push(Eigh(u)); v.push(Eigvalsh(u)) }
    if blas {
        v.push(SLogDet);
        for x in [false, true] { for o in [false, true] { v.push(ESub(x, o)) } }
        for d in [None, Some("gesvd"), Some("gesdd")] { for f in [None, Some(true), Some(false)] { v.push(SArgs(d, f)) } }
        for d in [None, Some("ev"), Some("evd")] { for u in tri { for o in [false, true] { v.push(EArgs(d, u, 1, o)) } } }
    }
    v
}
fn ops_gen(blas: bool) -> Vec<Op> {
    let tri = [None, Some(Lower), Some(Upper)];
    let mut v = vec![GEigh(None, 1)];
    for u in &tri[1..] { for k in 0..=3 { v.push(GEigh(u.clone(), k)) } }
    if blas {
        v.push(GVals(None, 1));
        for u in &tri[1..] { for k in 0..=3 { v.push(GVals(u.clone(), k)) } }
        for d in [None, Some("gv"), Some("gvd")] { for u in tri { for k in 1..=3 { for o in [false, true] { v.push(EArgs(d, u, k, o)) } } } }
    }
    v
}
fn ops_solve(blas: bool) -> Vec<Op> {
    let tri = [None, Some(Lower), Some(Upper)];
    let mut v = vec![SolveG];
    for u in tri { v.push(SolveT(u)) }
    if blas { for h in [None, Some(true), Some(false)] { for u in tri { v.push(SolveS(h, u)) } } }
    v
}

/// general, Hermitian indefinite and Hermitian positive matrices that tell every entry apart
fn samples(n: usize, real: bool) -> Vec<M> {
    let i = if real { 0 } else { 1 };
    let g = Nd::from_fn(&[n, n], |k| { let (a, b) = (k[0] as i64, k[1] as i64); if a == b { z(4 + a, 0) } else { z(1 + a - 2 * b, i * (a + 2 * b - 1)) } });
    let h = from_tri(&Nd::from_fn(&[n, n], |k| { let (a, b) = (k[0] as i64, k[1] as i64); if a == b { z(a - 1, 0) } else { z(2 + a - b, i * (1 + a)) } }), true, true);
    let p = from_tri(&Nd::from_fn(&[n, n], |k| { let (a, b) = (k[0] as i64, k[1] as i64); if a == b { z(5 + a, 0) } else { z(1 - b, i * (1 + a)) } }), true, true);
    vec![g, h, p]
}
fn rect(m: usize, n: usize, real: bool) -> M { Nd::from_fn(&[m, n], |k| z(1 + 2 * k[0] as i64 - 3 * k[1] as i64 * (k[0] as i64 + 1), if real { 0 } else { k[0] as i64 - k[1] as i64 })) }

fn all<T: Sc>(r: &Runner, name: &str, blas: bool, run: &(dyn Fn(&Op, &Lay, Option<&Lay>, Vec<T>, Vec<T>, bool, usize, usize) -> Option<Outcome<T>> + Sync)) {
    let th = r.thorough();
    let full = th || name.ends_with("64");
    let go = |cx: &mut Cx, row: bool, op: &Op, la: &Lay, a: &M, lb: Option<&Lay>, b: Option<&M>, fa: usize, fb: usize| {
        cx.case(format_args!("{name}|row={row}|{op:?}|{la:?}={}|{}|forms {fa},{fb}", show(a), lb.map_or(String::new(), |l| format!("{l:?}={}", show(b.unwrap())))),
            || case::<T>(&|o, la, lb, a, b, fa, fb| run(o, la, lb, a, b, row, fa, fb), &Env { row, blas }, op, la, a, lb, b, fa, fb));
    };
    // all layouts, forms and conventions for a few matrices
    let mut items: Vec<(Lay, M)> = vec![];
    for n in 1..=3 { for m in samples(n, T::REAL) { for l in if th || full && n == 2 { layouts_full(&[n, n], &NOB_KINDS) } else { layouts_dev(&[n, n], &NOB_KINDS, 1) } { items.push((l, m.clone())) } } }
    for (m, n) in [(1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1)] { for l in if th { layouts_full(&[m, n], &NOB_KINDS) } else { layouts_dev(&[m, n], &NOB_KINDS, 1) } { items.push((l, rect(m, n, T::REAL))) } }
    r.par(&format!("{name}: layouts"), &items, |cx, (l, m)| {
        cx.state(&(name, l, show(m)));
        for row in [true, false] { for op in ops1(blas) { for fa in 0..5 { go(cx, row, &op, l, m, None, None, fa, 0) } } }
    });
    // two inputs
    let mut items: Vec<(Lay, M)> = vec![];
    for n in 1..=3 { for (k, m) in samples(n, T::REAL).into_iter().enumerate() { for l in if th && k < 2 { layouts_full(&[n, n], &NOB_KINDS) } else { layouts_dev(&[n, n], &NOB_KINDS, 1) } { items.push((l, m.clone())) } } }
    r.par(&format!("{name}: solve"), &items, |cx, (l, m)| {
        cx.state(&(name, l, show(m)));
        let n = m.shape[0];
        for bs in [vec![n], vec![n, 2], vec![n, 1], vec![n, 3]].into_iter().take(if th { 4 } else { 2 }) {
            let b = Nd::from_fn(&bs, |k| z(1 + 3 * k[0] as i64 - 2 * *k.get(1).unwrap_or(&0) as i64, if T::REAL { 0 } else { 2 - k[0] as i64 }));
            let plain = *l == c_contig(&l.shape) || *l == f_contig(&l.shape);
            for lb in if plain && full { layouts_full(&bs, &NOB_KINDS) } else { layouts_dev(&bs, &NOB_KINDS, 0) } {
                cx.state(&(name, l, &lb, show(m)));
                for row in [true, false] { for op in ops_solve(blas) { for fa in 0..4 { for fb in 0..4 {
                    if !th && !(plain && (lb == c_contig(&bs) || lb == f_contig(&bs))) && !(fa == 1 && (full || fb == 3)) && !(fa == 3 && fb == 1) { continue }
                    go(cx, row, &op, l, m, Some(&lb), Some(&b), fa, fb)
                }}}}
            }
        }
    });
    let pos: Vec<(Lay, M)> = items.iter().filter(|(l, _)| full || *l == c_contig(&l.shape) || *l == f_contig(&l.shape)).cloned().collect();
    r.par(&format!("{name}: two matrices"), &pos, |cx, (l, m)| {
        cx.state(&(name, l, show(m)));
        let n = m.shape[0];
        let p = samples(n, T::REAL).pop().unwrap();
        for lb in layouts_dev(&[n, n], &NOB_KINDS, if th || *l == c_contig(&l.shape) { 1 } else { 0 }) {
            for row in [true, false] { for op in ops_gen(blas) { for f in 0..4 {
                go(cx, row, &op, l, m, Some(&lb), Some(&p), f, f);
                if f < 2 { go(cx, row, &op, l, m, Some(&lb), Some(&p), f, 1 - f) }
            }}}
        }
        // not positive definite
        let q = samples(n, T::REAL)[1].clone();
        for op in ops_gen(blas) { for f in 0..2 { go(cx, true, &op, l, &p, Some(&c_contig(&[n, n])), Some(&q), f, f) } }
    });
    // all small matrices of integers
    let mut vals: Vec<M> = vec![];
    let alpha2: Vec<C64> = if T::REAL { vec![z(-1, 0), z(0, 0), z(1, 0), z(2, 0)] } else { vec![z(0, 0), z(1, 0), z(0, 1), z(1, -1)] };
    let alpha3: Vec<C64> = if th { if T::REAL { vec![z(-1, 0), z(0, 0), z(1, 0)] } else { vec![z(0, 0), z(0, 1), z(2, -1)] } } else if T::REAL { vec![z(0, 0), z(1, 0)] } else { vec![z(1, 0), z(0, 1)] };
    for x in [-2, -1, 0, 1, 2] { vals.push(mat(1, 1, &[z(x, 0)])) }
    for w in words(&alpha2, 4) { vals.push(mat(2, 2, &w)) }
    if full { for w in words(&alpha3, 9) { vals.push(mat(3, 3, &w)) } }
    for w in words(&alpha2, 2) { vals.push(mat(1, 2, &w)); vals.push(mat(2, 1, &w)) }
    if full { for w in words(&if th { alpha2.clone() } else { alpha3.clone() }, 6) { vals.push(mat(2, 3, &w)); vals.push(mat(3, 2, &w)) } }
    let quick_ops = |op: &Op| !matches!(op, Svd(None) | Eigh(None) | Eigvalsh(None) | Chol(None) | PinvTol(..) | EArgs(None, ..) | SArgs(None, ..));
    r.par(&format!("{name}: values"), &vals, |cx, m| {
        cx.state(&(name, show(m)));
        let sq = m.shape[0] == m.shape[1];
        for (l, row, fa) in [(c_contig(&m.shape), true, 0), (f_contig(&m.shape), false, 2)] {
            for op in ops1(blas) {
                if !th && !quick_ops(&op) { continue }
                let mut a = m.clone();
                if matches!(op, Chol(_) | Eigh(_) | Eigvalsh(_) | EArgs(..)) { for i in 0..m.shape[0].min(m.shape[1]) { let x = a.at(&[i, i]).re; *a.at_mut(&[i, i]) = C64::new(x, 0.) } }
                go(cx, row, &op, &l, &a, None, None, if matches!(op, EArgs(..) | SArgs(..)) { 1 } else { fa }, 0);
            }
            if !sq { continue }
            let n = m.shape[0];
            let b = Nd::from_fn(&[n, 2], |k| z(1 + k[0] as i64 - 3 * k[1] as i64, 0));
            for op in ops_solve(blas) {
                let mut a = m.clone();
                if matches!(op, SolveS(h, _) if h.unwrap_or(true)) { for i in 0..n { let x = a.at(&[i, i]).re; *a.at_mut(&[i, i]) = C64::new(x, 0.) } }
                go(cx, row, &op, &l, &a, Some(&l.clone().with_shape(&[n, 2])), Some(&b), 0, fa);
            }
            if n == 2 || th {
                let h = from_tri(&{ let mut a = m.clone(); for i in 0..n { let x = a.at(&[i, i]).re; *a.at_mut(&[i, i]) = C64::new(x, 0.) } a }, true, true);
                for op in ops_gen(blas) {
                    if !th && !quick_ops(&op) { continue }
                    let f = if matches!(op, EArgs(..)) { 1 } else { fa.min(1) };
                    // each of the two in turn
                    go(cx, row, &op, &l, &h, Some(&l), Some(&samples(n, T::REAL)[2]), f, f);
                    go(cx, row, &op, &l, &samples(n, T::REAL)[1], Some(&l), Some(&h), f, f);
                }
            }
        }
    });
    // shapes that do not fit
    let shapes_: Vec<Vec<usize>> = shapes(0, 3, &[0, 1, 2, 3]).into_iter().filter(|s| s.len() < 3 || s.iter().all(|d| (1..=2).contains(d))).collect();
    r.par(&format!("{name}: shapes"), &shapes_, |cx, s| {
        let a: M = Nd::from_fn(s, |k| z(k.iter().enumerate().map(|(i, x)| (i as i64 + 1) * *x as i64).sum::<i64>() + 1, 0));
        let l = c_contig(s);
        cx.state(&(name, &l));
        for row in [true, false] {
            for op in ops1(blas) { for fa in 0..5 {
                if fa == 4 && s.len() != 2 { continue }
                go(cx, row, &op, &l, &a, None, None, fa, 0)
            }}
            for t in &shapes_ {
                if s.len() == 2 && t.len() == 2 && s[0] == s[1] && t[0] == s[0] && s[0] > 0 && t[1] > 0 { continue }
                let b: M = Nd::from_fn(t, |k| z(k.iter().map(|x| *x as i64).sum::<i64>() + 1, 0));
                let lb = c_contig(t);
                for op in ops_solve(blas).into_iter().chain(ops_gen(blas)) { for f in if th { vec![0, 1, 2, 3] } else if name.ends_with("f64") { vec![1, 3] } else { vec![1] } { go(cx, row, &op, &l, &a, Some(&lb), Some(&b), f, f) } }
            }
        }
    });
}

fn show(m: &M) -> String { m.data.iter().map(|x| if x.im == 0. { format!("{}", x.re) } else { format!("{}{:+}i", x.re, x.im) }).collect::<Vec<_>>().join(",") }
trait WithShape { fn with_shape(self, s: &[usize]) -> Lay; }
impl WithShape for Lay { fn with_shape(self, s: &[usize]) -> Lay { if self.stride.last() == Some(&1) { c_contig(s) } else { f_contig(s) } } }

fn main() {
    fw::main("P24", |r| {
        let th = r.thorough();
        r.bound(format!("matrices of 1-3 rows and columns on the faer and OpenBLAS devices in single and double precision, real and complex: all memory orders, paddings and negative strides for matrices telling every entry apart, with every triangle option, driver, type of generalized problem, ownership form of each input and both conventions; all matrices over small integer alphabets ({} for three rows); all shape combinations of 0-3 axes", if th { "three values" } else { "two values" }));
        r.assume("the solution of a singular system may be an error, not finite, of the order of the reciprocal rounding error, or a solution of the system");
        r.assume("Hermitian input has a real diagonal");
        r.assume("empty matrices may be rejected in any way");
        let one = |row: bool| { let mut d = DeviceOpenBLAS::new(1); d.set_default_order(if row { ROW } else { COL }); d };
        thread_local! { static BLAS: std::cell::RefCell<[Option<DeviceOpenBLAS>; 2]> = Default::default(); }
        let bd = |row: bool| BLAS.with(|d| d.borrow_mut()[row as usize].get_or_insert_with(|| one(row)).clone());
        thread_local! { static FAER: [DeviceFaer; 2] = [faer(false, 1), faer(true, 1)]; }
        let fd = |row: bool| FAER.with(|d| d[row as usize].clone());
        macro_rules! go { ($n:literal, $T:ty, $f:ident, $blas:expr, $d:ident) => {
            all::<$T>(r, $n, $blas, &|o, la, lb, a, b, row, fa, fb| $f(o, la, lb, a, b, &$d(row), fa, fb));
        }; }
        go!("faer f64", f64, faer_f64, false, fd);
        go!("faer c64", Complex<f64>, faer_c64, false, fd);
        go!("openblas f64", f64, blas_f64, true, bd);
        go!("openblas c64", Complex<f64>, blas_c64, true, bd);
        go!("faer f32", f32, faer_f32, false, fd);
        go!("faer c32", Complex<f32>, faer_c32, false, fd);
        go!("openblas f32", f32, blas_f32, true, bd);
        go!("openblas c32", Complex<f32>, blas_c32, true, bd);
    });
}
