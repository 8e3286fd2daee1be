//! P29: matrix-multiplication and triangular-solve drivers compute what their flags say.
use lin::*;
use rstsr_blas_traits::prelude::*;
use rstsr_common::prelude_dev::{FlagDiag, FlagOrder, FlagSide, FlagTrans, FlagUpLo};
use rstsr_openblas::DeviceOpenBLAS;

type Z = Complex<f64>;
type Y = Complex<f32>;

#[derive(Clone, Debug)]
enum Op {
    Gemm(FlagTrans, FlagTrans),
    Mm(bool, FlagSide, FlagUpLo),
    Trsm(FlagSide, Option<FlagUpLo>, FlagTrans, FlagDiag),
}
use Op::*;

#[derive(Clone, Debug)]
struct Case { op: Op, row: bool, order: Option<FlagOrder>, alpha: C64, beta: C64, la: Lay, lb: Lay, lc: Option<Lay>, overwrite: bool }

struct Outcome<T> { res: Result<M, String>, a: Vec<T>, b: Vec<T>, c: Vec<T> }
fn es<E: std::fmt::Debug>(e: E) -> String { let mut s = format!("{e:?}"); s.truncate(160); s }

macro_rules! runner { ($name:ident, $T:ident, $cplx:tt) => {
    fn $name(k: &Case, a: Vec<$T>, b: Vec<$T>, c: Vec<$T>, d: &DeviceOpenBLAS) -> Outcome<$T> {
        let ta = tensor(a, &k.la, d);
        let mut tb = tensor(b, &k.lb, d);
        let mut tc = k.lc.as_ref().map(|l| tensor(c, l, d));
        let (alpha, beta) = (<$T>::mk(k.alpha), <$T>::mk(k.beta));
        let mut go = || -> Result<M, String> {
            let va = ta.view().into_dim_f::<Ix2>().map_err(es)?;
            macro_rules! finish { ($q:expr) => {{
                let mut q = $q;
                if let Some(o) = k.order { q = q.order(o) }
                if let Some(c) = tc.as_mut() { q = q.c(c.view_mut().into_dim_f::<Ix2>().map_err(es)?) }
                let r = q.build().map_err(es)?.run().map_err(es)?;
                let v = r.view();
                Ok(logical(&v)?.map(|x| x.c()))
            }}; }
            match k.op {
                Gemm(ta, tr) => finish!(GEMM::<DeviceOpenBLAS, $T>::default().a(va).b(tb.view().into_dim_f::<Ix2>().map_err(es)?).alpha(alpha).beta(beta).transa(ta).transb(tr)),
                Mm(h, side, uplo) => runner!(@mm $cplx finish tb va h side uplo alpha beta $T),
                Trsm(side, uplo, tr, diag) => {
                    let mut q = TRSM::<DeviceOpenBLAS, $T>::default().a(va).alpha(alpha).side(side).uplo(uplo).transa(tr).diag(diag);
                    q = if k.overwrite { q.b(tb.view_mut().into_dim_f::<Ix2>().map_err(es)?) } else { q.b(tb.view().into_dim_f::<Ix2>().map_err(es)?) };
                    if let Some(o) = k.order { q = q.order(o) }
                    let r = q.build().map_err(es)?.run().map_err(es)?;
                    let v = r.view();
                    Ok(logical(&v)?.map(|x| x.c()))
                },
            }
        };
        let res = go();
        Outcome { res, a: ta.raw().clone(), b: tb.raw().clone(), c: tc.map_or(vec![], |t| t.raw().clone()) }
    }
};
    (@mm false $f:ident $tb:ident $va:ident $h:ident $side:ident $uplo:ident $alpha:ident $beta:ident $T:ident) => {{ let _ = $h;
        $f!(SYHEMM::<DeviceOpenBLAS, $T, false>::default().a($va).b($tb.view().into_dim_f::<Ix2>().map_err(es)?).alpha($alpha).beta($beta).side($side).uplo($uplo))
    }};
    (@mm true $f:ident $tb:ident $va:ident $h:ident $side:ident $uplo:ident $alpha:ident $beta:ident $T:ident) => {
        if $h { $f!(SYHEMM::<DeviceOpenBLAS, $T, true>::default().a($va).b($tb.view().into_dim_f::<Ix2>().map_err(es)?).alpha($alpha).beta($beta).side($side).uplo($uplo)) }
        else { $f!(SYHEMM::<DeviceOpenBLAS, $T, false>::default().a($va).b($tb.view().into_dim_f::<Ix2>().map_err(es)?).alpha($alpha).beta($beta).side($side).uplo($uplo)) }
    };
}
runner!(run_f64, f64, false);
runner!(run_f32, f32, false);
runner!(run_c64, Z, true);
runner!(run_c32, Y, true);

fn put<T: Sc>(l: &Lay, m: &M, hide: impl Fn(&[usize]) -> bool) -> Vec<T> {
    let mut v = vec![T::mk(z(777, 777)); l.len];
    each_index(&l.shape, |i| v[l.at(i)] = if hide(i) { T::mk(C64::new(f64::NAN, f64::NAN)) } else { T::mk(*m.at(i)) });
    v
}
fn get<T: Sc>(l: &Lay, v: &[T]) -> M { Nd::from_fn(&l.shape, |i| v[l.at(i)].c()) }
fn bits<T: Sc>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| { let c = x.c(); (c.re.to_bits(), c.im.to_bits()) }).collect() }
fn outside<T: Sc>(what: &str, l: &Lay, x: &[T], y: &[T]) -> Result<(), String> {
    let (x, y) = (bits(x), bits(y));
    let pos = l.positions();
    for p in 0..x.len() { if x[p] != y[p] && !pos.contains(&p) { return Err(format!("{what}: position {p} outside of the view was changed")) } }
    Ok(())
}
fn op(t: FlagTrans, m: &M) -> M { match t { FlagTrans::N => m.clone(), FlagTrans::T => tr(m), _ => adj(m) } }

fn check<T: Sc>(k: &Case, run: &dyn Fn(&Case, Vec<T>, Vec<T>, Vec<T>) -> Outcome<T>) -> Res {
    let gen = |s: &[usize], p: i64| -> M { Nd::from_fn(s, |i| { let (a, b) = (i[0] as i64, i[1] as i64); z(1 + p + 2 * a - 3 * b * (1 + a), if T::REAL { 0 } else { p - a + 2 * b }) }) };
    let (mut a, b) = (gen(&k.la.shape, 0), gen(&k.lb.shape, 1));
    let c = k.lc.as_ref().map(|l| gen(&l.shape, 2));
    let up = |u: Option<FlagUpLo>| u.map_or(!k.row, |u| u == FlagUpLo::U);
    let hide: Box<dyn Fn(&[usize]) -> bool> = match k.op {
        Gemm(..) => Box::new(|_| false),
        Mm(h, _, u) => {
            if h { for i in 0..a.shape[0].min(a.shape[1]) { let x = a.at(&[i, i]).re; *a.at_mut(&[i, i]) = C64::new(x, 0.) } }
            Box::new(move |i| i[0] != i[1] && (i[0] < i[1]) != up(Some(u)))
        },
        Trsm(_, u, _, d) => {
            for i in 0..a.shape[0].min(a.shape[1]) { *a.at_mut(&[i, i]) = z(2 + i as i64, 0) }
            Box::new(move |i| (i[0] != i[1] && (i[0] < i[1]) != up(u)) || (i[0] == i[1] && d == FlagDiag::U))
        },
    };
    // nothing may be read from a result that is not added to
    let dead = k.beta == z(0, 0);
    let (va, vb) = (put::<T>(&k.la, &a, &*hide), put::<T>(&k.lb, &b, |_| false));
    let vc = match (&k.lc, &c) { (Some(l), Some(c)) => put::<T>(l, c, |_| dead), _ => vec![] };
    let o = run(k, va.clone(), vb.clone(), vc.clone());
    if bits(&o.a) != bits(&va) { return Err(format!("first input was changed to {:?}", o.a)) }
    if k.overwrite { outside("second input", &k.lb, &vb, &o.b)? } else if bits(&o.b) != bits(&vb) { return Err(format!("second input was changed to {:?}", o.b)) }
    if let Some(l) = &k.lc { outside("target", l, &vc, &o.c)? }
    // expected result, none if the shapes do not fit
    let want: Option<M> = match k.op {
        Gemm(x, y) => { let (p, q) = (op(x, &a), op(y, &b)); (p.shape[1] == q.shape[0]).then(|| mul(&p, &q)) },
        Mm(h, s, u) => { let ok = a.shape[0] == a.shape[1] && a.shape[0] == b.shape[if s == FlagSide::L { 0 } else { 1 }]; ok.then(|| { let f = from_tri(&a, up(Some(u)), h); if s == FlagSide::L { mul(&f, &b) } else { mul(&b, &f) } }) },
        Trsm(s, ..) => { let ok = a.shape[0] == a.shape[1] && a.shape[0] == b.shape[if s == FlagSide::L { 0 } else { 1 }]; ok.then(|| b.clone()) },
    };
    let want = want.map(|m| m.map(|x| k.alpha * x));
    let want = match (want, &c) { (Some(w), Some(c)) => if c.shape == w.shape { Some(Nd::from_fn(&w.shape, |i| w.at(i) + k.beta * c.at(i))) } else { None }, (w, _) => w };
    let empty = a.size() == 0 || b.size() == 0 || c.as_ref().is_some_and(|c| c.size() == 0);
    let r = match o.res {
        Ok(r) => r,
        Err(m) => return if want.is_none() || empty {
            if k.lc.is_some() && bits(&o.c) != bits(&vc) { return Err("rejected, but the target was changed".into()) }
            Ok(Out::Rej)
        } else { Err(format!("rejected: {m}")) },
    };
    let Some(want) = want else { return Err(format!("accepted, giving {:?}", r.shape)) };
    let close = |what: &str, x: &M| -> Result<(), String> {
        match k.op {
            Trsm(s, u, t, d) => {
                let mut f = tri_only(&a, up(u));
                if d == FlagDiag::U { for i in 0..f.shape[0] { *f.at_mut(&[i, i]) = z(1, 0) } }
                let f = op(t, &f);
                if x.shape != b.shape { return Err(format!("{what} of shape {:?}", x.shape)) }
                near(&format!("{what}, multiplied back"), &if s == FlagSide::L { mul(&f, x) } else { mul(x, &f) }, &want, T::TOL)
            },
            _ => near(what, x, &want, T::TOL),
        }
    };
    close("result", &r)?;
    if let Some(l) = &k.lc { close("target", &get(l, &o.c))? }
    if k.overwrite { close("overwritten input", &get(&k.lb, &o.b))? }
    Ok(Out::Val)
}

fn all<T: Sc>(r: &Runner, run: &(dyn Fn(&Case, Vec<T>, Vec<T>, Vec<T>) -> Outcome<T> + Sync)) {
    let name = T::NAME;
    let th = r.thorough();
    let full = th || name == "f64" || name == "c64";
    let mut ops = vec![];
    let ts = [FlagTrans::N, FlagTrans::T, FlagTrans::C];
    for x in ts { for y in ts { ops.push(Gemm(x, y)) } }
    for h in if T::REAL { vec![false] } else { vec![false, true] } { for s in [FlagSide::L, FlagSide::R] { for u in [FlagUpLo::L, FlagUpLo::U] { ops.push(Mm(h, s, u)) } } }
    for s in [FlagSide::L, FlagSide::R] { for u in [None, Some(FlagUpLo::L), Some(FlagUpLo::U)] { for t in ts { for d in [FlagDiag::N, FlagDiag::U] { ops.push(Trsm(s, u, t, d)) } } } }
    let orders = [None, Some(FlagOrder::C), Some(FlagOrder::F)];
    let scal = if T::REAL { vec![(z(1, 0), z(0, 0)), (z(-2, 0), z(3, 0)), (z(0, 0), z(1, 0)), (z(1, 0), z(1, 0))] } else { vec![(z(1, 0), z(0, 0)), (z(-2, 1), z(3, -1)), (z(0, 0), z(1, 0)), (z(1, 0), z(0, 1))] };
    let go = |cx: &mut Cx, k: &Case| cx.case(format_args!("{name}|{k:?}"), || check::<T>(k, run));
    // shapes of the operands for a product of m by n (inner size k)
    let operands = |o: &Op, m: usize, n: usize, k: usize| -> Option<[Vec<usize>; 3]> {
        Some(match o {
            Gemm(x, y) => [if *x == FlagTrans::N { vec![m, k] } else { vec![k, m] }, if *y == FlagTrans::N { vec![k, n] } else { vec![n, k] }, vec![m, n]],
            Mm(_, s, _) | Trsm(s, ..) => { if k != if *s == FlagSide::L { m } else { n } { return None } [vec![k, k], vec![m, n], vec![m, n]] },
        })
    };
    let sizes: Vec<usize> = if th { vec![1, 2, 3] } else { vec![1, 2, 3] };
    let mut dims = vec![];
    for &m in &sizes { for &n in &sizes { for &k in &sizes { dims.push((m, n, k)) } } }
    let mut items = vec![];
    for o in &ops { for &(m, n, k) in &dims { if let Some(s) = operands(o, m, n, k) { items.push((o.clone(), s)) } } }
    r.par(&format!("{name}: layouts"), &items, |cx, (o, s)| {
        let l = |s: &[usize], k: usize| if th && full { layouts_full(s, &NOB_KINDS) } else { layouts_dev(s, &NOB_KINDS, k) };
        let one = if full { 1 } else { 0 };
        let (sa, sb, sc) = (l(&s[0], one), l(&s[1], one), layouts_dev(&s[2], &NOB_KINDS, one));
        let plain = |s: &[usize]| layouts_dev(s, &NOB_KINDS, 0);
        let trsm = matches!(o, Trsm(..));
        let scal = if trsm { &scal[..2] } else { &scal[..] };
        let mut case = |la: &Lay, lb: &Lay, lc: Option<&Lay>, ow: bool, sc: &(C64, C64)| {
            for row in [true, false] { for order in orders {
                let k = Case { op: o.clone(), row, order, alpha: sc.0, beta: sc.1, la: la.clone(), lb: lb.clone(), lc: lc.cloned(), overwrite: ow };
                cx.state(&format!("{name}{k:?}"));
                go(cx, &k);
            }}
        };
        // both inputs in every layout, then the target with each of them
        for la in &sa { for lb in &sb { for ow in if trsm { vec![false, true] } else { vec![false] } { case(la, lb, None, ow, &scal[1]) } } }
        for x in scal {
            for la in plain(&s[0]) { for lb in plain(&s[1]) { case(&la, &lb, None, false, x) } }
            if trsm { continue }
            for lc in &sc { for la in plain(&s[0]) { for lb in plain(&s[1]).iter().take(if full { 2 } else { 1 }) { case(&la, lb, Some(lc), false, x) } } }
        }
    });
    // shapes that do not fit
    let sz: Vec<usize> = vec![0, 1, 2, 3];
    let mut sh = vec![];
    for &x in &sz { for &y in &sz { sh.push(vec![x, y]) } }
    let mut items = vec![];
    for o in &ops { for a in &sh { items.push((o.clone(), a.clone())) } }
    r.par(&format!("{name}: shapes"), &items, |cx, (o, a)| {
        for b in &sh { for order in orders {
            let mut one = |lc: Option<Lay>, ow: bool, x: &(C64, C64)| {
                let k = Case { op: o.clone(), row: true, order, alpha: x.0, beta: x.1, la: c_contig(a), lb: c_contig(b), lc, overwrite: ow };
                cx.state(&format!("{name}{k:?}"));
                go(cx, &k);
            };
            one(None, false, &scal[1]);
            if matches!(o, Trsm(..)) { one(None, true, &scal[1]); continue }
            if full { for c in &sh { one(Some(c_contig(c)), false, &scal[1]) } }
        }}
    });
}

fn main() {
    fw::main("P29", |r| {
        r.bound("GEMM, SYMM, HEMM and TRSM builders of the OpenBLAS device in single and double precision, real and complex, with all flags and requested orders, sizes 1-3 (0-3 for shapes that do not fit), two factors of each kind of scaling, every memory order, padding, offset and negative stride of one operand against plain ones and of the target, both conventions".to_string());
        r.assume("empty operands may be rejected");
        r.assume("the diagonal of a Hermitian operand is real");
        let one = |row: bool| { let mut d = DeviceOpenBLAS::new(1); d.set_default_order(if row { ROW } else { COL }); d };
        thread_local! { static BLAS: std::cell::RefCell<[Option<DeviceOpenBLAS>; 2]> = Default::default(); }
        let bd = |row: bool| BLAS.with(|d| d.borrow_mut()[row as usize].get_or_insert_with(|| one(row)).clone());
        all::<f64>(r, &|k, a, b, c| run_f64(k, a, b, c, &bd(k.row)));
        all::<Z>(r, &|k, a, b, c| run_c64(k, a, b, c, &bd(k.row)));
        all::<f32>(r, &|k, a, b, c| run_f32(k, a, b, c, &bd(k.row)));
        all::<Y>(r, &|k, a, b, c| run_c32(k, a, b, c, &bd(k.row)));
    });
}
