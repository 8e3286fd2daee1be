//! P23: the same program gives the same result on every device and with every number of threads.
use core_mc::mmx::{mm, Job, Num, Run::*};
use core_mc::*;
use rstsr_aocl::DeviceAOCL;
use rstsr_blis::DeviceBLIS;
use rstsr_kml::DeviceKML;
use rstsr_mkl::DeviceMKL;
use rstsr_openblas::DeviceOpenBLAS;
use std::fmt::Debug;

macro_rules! devices { ($($m:ident $D:ident $name:literal;)*) => {$(
    mod $m {
        use super::*;
        core_mc::matmul!(i, i64, $D);
        core_mc::matmul!(f, f64, $D);
        core_mc::matmul!(g, f32, $D);
        core_mc::matmul!(z, Complex<f64>, $D);
        core_mc::matmul!(c, Complex<f32>, $D);
        thread_local! { static DEV: std::cell::RefCell<std::collections::HashMap<(bool, usize), $D>> = Default::default(); }
        pub fn dev(row: bool, n: usize) -> $D {
            DEV.with(|d| d.borrow_mut().entry((row, n)).or_insert_with(|| {
                let mut d = $D::new(n);
                d.set_default_order(if row { ROW } else { COL });
                d
            }).clone())
        }
        pub fn run(cx: &mut Cx, run: core_mc::mmx::Run, row: bool, j: &Job) {
            match run {
                SerialI | SerialF => {},
                ParI(n) => i(cx, $name, row, j, dev(row, n)),
                ParF(n) => f(cx, &format!("{} {n}", $name), row, j, dev(row, n)),
                ParG(n) => { g(cx, $name, row, j, dev(row, n)); c(cx, $name, row, j, dev(row, n)) },
                ParZ(n) => z(cx, $name, row, j, dev(row, n)),
            }
        }
        pub fn log(l: &Lay, m: &Lay, row: bool, n: usize, op: &mut dyn FnMut(&str, &mut dyn FnMut() -> Got)) { ops!(l, m, $D, dev(row, n), op) }
    })*};
}

/// shape and elements, or a rejection
type Got = Result<(Vec<usize>, Vec<f64>), String>;
trait Flat { fn flat(&self, out: &mut Vec<f64>); }
macro_rules! flat { ($($t:ty),*) => {$( impl Flat for $t { fn flat(&self, out: &mut Vec<f64>) { out.push(*self as f64) } } )*}; }
flat!(i64, usize, f64, f32, i32);
impl Flat for bool { fn flat(&self, out: &mut Vec<f64>) { out.push(*self as u8 as f64) } }
impl<T: Flat> Flat for Complex<T> { fn flat(&self, out: &mut Vec<f64>) { self.re.flat(out); self.im.flat(out) } }
fn arr<T: Flat>(n: &Nd<T>) -> Got {
    let mut v = vec![];
    n.data.iter().for_each(|x| x.flat(&mut v));
    Ok((n.shape.clone(), v))
}
fn es<E: Debug>(e: E) -> String { let mut s = format!("{e:?}"); s.truncate(100); s }

macro_rules! ops {
    ($l:expr, $m:expr, $D:ty, $dev:expr, $op:expr) => {{
        let (l, m, d, op): (&Lay, &Lay, $D, &mut dyn FnMut(&str, &mut dyn FnMut() -> Got)) = ($l, $m, $dev, $op);
        let ri: Vec<i64> = (0..l.len).map(i64::val).collect();
        let rj: Vec<i64> = (0..m.len).map(|p| i64::val(p * 5 + 2)).collect();
        let f = |v: &[i64]| v.iter().map(|x| *x as f64).collect::<Vec<f64>>();
        let (ta, tb) = (tensor(ri.clone(), l, &d), tensor(rj.clone(), m, &d));
        let (fa, fb) = (tensor(f(&ri), l, &d), tensor(f(&rj), m, &d));
        let za = tensor(ri.iter().map(|x| Complex::new(*x as f64, (*x % 4) as f64)).collect(), l, &d);
        let ba = tensor(ri.iter().map(|x| *x > -9).collect::<Vec<bool>>(), l, &d);
        macro_rules! t { ($name:expr, $e:expr) => { op($name, &mut || match $e { Ok(t) => arr(&logical(&t)?), Err(e) => Err(es(e)) }) }; }
        macro_rules! s { ($name:expr, $e:expr) => { op($name, &mut || match $e { Ok(x) => { let mut v = vec![]; x.flat(&mut v); Ok((vec![], v)) }, Err(e) => Err(es(e)) }) }; }
        // the whole buffer after an in-place operation
        macro_rules! w { ($name:expr, $t:ident, $x:ident => $e:expr) => { op($name, &mut || { let mut $x = $t.clone(); let r = $e; let mut v = vec![]; $x.raw().iter().for_each(|x| x.flat(&mut v)); r.map(|_| (vec![], v)).map_err(es) }) }; }
        // two arrays
        t!("add", rt::add_f(&ta, &tb));
        t!("sub", rt::sub_f(&fa, &fb));
        t!("mul complex", rt::mul_f(&za, &fb));
        t!("div", rt::div_f(&fa, &fb));
        t!("rem", rt::rem_f(&ta, &rt::add_f(&tb, 40i64).map_err(es)?));
        t!("less", rt::less_f(&ta, &tb));
        t!("maximum", rt::maximum_f(&fa, &fb));
        t!("add into", { rt::add_f(ta.clone(), &tb) });
        t!("sub into b", { rt::sub_f(&ta, tb.clone()) });
        t!("scalar", rt::sub_f(3i64, &ta));
        t!("vecdot", rt::vecdot_f(&ta, &tb, None));
        t!("matmul", rt::matmul_f(&fa, &fb));
        t!("matmul t", rt::matmul_f(&fa, &fa.t()));
        t!("matmul int", rt::matmul_f(&ta, &tb.t()));
        if !l.has_bcast() {
            w!("add_assign", ta, x => rt::add_assign_f(&mut x, &tb));
            w!("mul_assign", fa, x => rt::mul_assign_f(&mut x, 2.0));
            w!("assign", fa, x => x.assign_f(&fb));
            w!("fill", ta, x => x.fill_f(5));
            w!("mapi", ta, x => { x.mapvi(|v| v * 2 + 1); Ok::<(), ()>(()) });
        }
        // one array
        t!("neg", rt::neg_f(&ta));
        t!("sin", rt::sin_f(&fa));
        t!("abs", rt::abs_f(&za));
        t!("mapv", Ok::<_, ()>(ta.mapv(|x| x * x - 1)));
        t!("mapvb", Ok::<_, ()>(ta.mapvb(&tb, |x, y| x * 3 - y)));
        t!("contig C", ta.to_contig_f(ROW));
        t!("contig F", za.to_contig_f(COL));
        t!("owned", Ok::<_, ()>(ta.view().into_owned()));
        t!("flat", ta.reshape_f([-1]));
        t!("rows", ta.reshape_f([l.shape.first().copied().unwrap_or(1) as isize, -1]));
        t!("flip", ta.flip_f(0).map(|t| t.to_owned()));
        t!("tril", rt::tril_f(&ta));
        t!("triu", rt::triu_f((&fa, 1)));
        t!("concat", rt::concat_f((vec![ta.view(), ta.view()], 0)));
        t!("stack", rt::stack_f((vec![fa.view(), fa.view()], -1)));
        t!("index_select", ta.index_select_f(0, &[0isize, -1, 0]));
        t!("bool_select", ta.bool_select_f(-1, &(0..l.shape.last().copied().unwrap_or(0)).map(|i| i % 3 == 1).collect::<Vec<bool>>()));
        t!("diag", rt::diag_f((&ta, 0)));
        // reductions
        macro_rules! red { ($t:ident, $name:literal, $all:ident, $ax:ident) => {
            s!(concat!($name, " all"), $t.$all());
            for a in 0..l.ndim() as isize { t!(&format!(concat!($name, " {}"), a), $t.$ax(a)); }
            if l.ndim() > 2 { t!(concat!($name, " 0 -1"), $t.$ax([0, -1])); t!(concat!($name, " 0 1"), $t.$ax([0, 1])); t!(concat!($name, " 1 2"), $t.$ax([1, 2])); }
        }; }
        red!(ta, "sum", sum_all_f, sum_axes_f);
        red!(fa, "sum f", sum_all_f, sum_axes_f);
        red!(za, "sum z", sum_all_f, sum_axes_f);
        red!(ta, "min", min_all_f, min_axes_f);
        red!(fa, "max", max_all_f, max_axes_f);
        red!(fa, "mean", mean_all_f, mean_axes_f);
        red!(fa, "var", var_all_f, var_axes_f);
        red!(za, "std", std_all_f, std_axes_f);
        red!(za, "l2", l2_norm_all_f, l2_norm_axes_f);
        red!(ba, "all", all_all_f, all_axes_f);
        red!(ba, "any", any_all_f, any_axes_f);
        red!(ta, "count", count_nonzero_all_f, count_nonzero_axes_f);
        red!(ta, "argmin", argmin_all_f, argmin_axes_f);
        red!(ta, "argmax", argmax_all_f, argmax_axes_f);
        s!("allclose", rt::allclose_f(&fa, &fb, (1e-8, 3.0)));
        // creation
        let sh = l.shape.clone();
        t!("full", rt::full_f((sh.clone(), 7i64, &d)));
        t!("ones_like", Ok::<_, ()>(rt::ones_like(&fa)));
        t!("zeros", { let r: Result<Tensor<Complex<f32>, $D, IxD>, _> = rt::zeros_f((sh.clone(), &d)); r });
        t!("arange", rt::arange_f((l.size() as f64, &d)));
        t!("eye", { let r: Result<Tensor<f64, $D, _>, _> = rt::eye_f((l.shape.first().copied().unwrap_or(0), &d)); r });
        op("iterated", &mut || { let v: Vec<i64> = ta.iter().copied().collect(); let mut o = vec![]; v.iter().for_each(|x| x.flat(&mut o)); Ok((vec![], o)) });
        op("printed", &mut || { let s = format!("{ta:?}"); let s = s.split("Device").next().unwrap(); Ok((vec![], if l.size() < 100 { s.bytes().map(|b| b as f64).collect() } else { vec![] })) });
    }};
}
devices! {
    faer DeviceFaer "faer"; openblas DeviceOpenBLAS "openblas"; blis DeviceBLIS "blis";
    mkl DeviceMKL "mkl"; aocl DeviceAOCL "aocl"; kml DeviceKML "kml";
}
mod plain {
    use super::*;
    pub fn log(l: &Lay, m: &Lay, row: bool, op: &mut dyn FnMut(&str, &mut dyn FnMut() -> Got)) { ops!(l, m, DeviceCpuSerial, serial(row), op) }
}

fn agree(name: &str, a: &Got, b: &Got) -> Res {
    match (a, b) {
        (Err(_), Err(_)) => Ok(Out::Rej),
        (Ok(x), Err(e)) => Err(format!("rejected: {e}; the serial device gives shape {:?}", x.0)),
        (Err(e), Ok(x)) => Err(format!("gives shape {:?}; the serial device rejects: {e}", x.0)),
        (Ok((s, x)), Ok((t, y))) => {
            if s != t || x.len() != y.len() { return Err(format!("shape {t:?}, on the serial device {s:?}")) }
            // what is rounded may be rounded in another order
            let loose = ["mean", "var", "std", "l2", "sum f", "sum z", "sin", "abs"].iter().any(|n| name.starts_with(n));
            for (k, (p, q)) in x.iter().zip(y).enumerate() {
                let ok = if loose { (p - q).abs() <= 1e-12 * p.abs().max(1.0) || p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan() } else { p == q || p.is_nan() && q.is_nan() };
                if !ok { return Err(format!("element {k} is {q}, on the serial device {p}")) }
            }
            Ok(Out::Val)
        },
    }
}

fn main() {
    fw::main("P23", |r| {
        r.bound("matrix products: the cases of P10 (ranks 1-4, every layout of operands and output within the stated deviations, shared storage, scale factors, across the parallel switches) on the OpenBLAS, BLIS, MKL, AOCL and KML devices in i64, f32, f64, c32 and c64, computed by OpenBLAS (quick: small operands, and outputs, on the last four)");
        r.bound("96 operations (arithmetic, in place, copies, reshaping, selection, joining, reductions, creation, iteration) of arrays of rank 0-3 with 0-3 elements per axis in every layout within one (thorough: two) deviations of contiguous, and of arrays with 15 to 17, 1023 to 1025, 4095 to 4097 and 16383 to 16385 elements; each on the faer and the five BLAS devices with 1, 2 and 4 threads, both conventions");
        r.assume("BLAS arithmetic is that of the installed OpenBLAS on all five BLAS devices");
        let th = r.thorough();
        core_mc::mmx::suite(r, &|cx, run, row, j| {
            openblas::run(cx, run, row, j);
            // the other devices have copies of the same code: one product each
            let small = j.la.size() + j.lb.size() < 400;
            if th || small && matches!(run, ParF(_) | ParZ(_) | ParG(_)) || matches!(run, ParF(2)) && j.lc.is_none() { mkl::run(cx, run, row, j); }
            if th || small && (j.share || j.lc.is_some()) { blis::run(cx, run, row, j); aocl::run(cx, run, row, j); kml::run(cx, run, row, j); }
        });
        // everything else, compared with the serial device
        let mut items: Vec<(Lay, Lay, bool, bool)> = vec![];
        let k = r.pick(1, 2);
        for s in shapes(0, 3, &[0, 1, 2, 3]) {
            let v = layouts_dev(&s, &ALL_KINDS, k);
            for (i, l) in v.iter().enumerate() {
                for m in [&v[(i * 7 + 3) % v.len()], &v[0]] { for row in [true, false] { items.push((l.clone(), m.clone(), row, false)); } }
            }
        }
        for n in [15usize, 16, 17, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385] {
            let mut shs = vec![vec![n], vec![n, 1], vec![1, n]];
            for a in [2usize, 3, 5, 7, 31, 64] { if n % a == 0 { shs.push(vec![a, n / a]); shs.push(vec![n / a, a]); if n / a % 4 == 0 { shs.push(vec![a, n / a / 4, 4]); shs.push(vec![n / a / 4, 2, a * 2]); } } }
            for s in shs {
                let v = layouts_dev(&s, &ALL_KINDS, 1);
                for (i, l) in v.iter().enumerate() { for row in [true, false] { items.push((l.clone(), v[(i * 5 + 1) % v.len()].clone(), row, true)); } }
            }
        }
        r.par("devices", &items, |cx, (l, m, row, big)| {
            // matrix products of long vectors of vectors are left out
            let skip = |name: &str| *big && ((name.starts_with("matmul") && l.size() > 2000 && l.ndim() > 1) || (l.ndim() == 1 && l.size() > 200 && ["diag", "eye"].contains(&name)) || (name == "eye" && l.shape.first().copied().unwrap_or(0) > 200));
            let mut want: Vec<(String, Got)> = vec![];
            plain::log(l, m, *row, &mut |name, f| want.push((name.to_string(), if skip(name) { Err("".into()) } else { call(f).unwrap_or_else(|p| Err(format!("panicked: {p}"))) })));
            let mut on = |cx: &mut Cx, dev: &str, n: usize, log: &dyn Fn(&Lay, &Lay, bool, usize, &mut dyn FnMut(&str, &mut dyn FnMut() -> Got))| {
                let mut k = 0;
                cx.state(&(l, m, row, dev, n));
                log(l, m, *row, n, &mut |name, f| {
                    let w = &want[k];
                    assert!(w.0 == name);
                    k += 1;
                    if skip(name) { return }
                    cx.case(format_args!("{name}|{dev} {n}|row={row}|{l:?} {m:?}"), || agree(name, &w.1, &f()));
                });
            };
            for n in [1, 2, 4] {
                on(cx, "faer", n, &faer::log);
                if n == 2 || th { on(cx, "openblas", n, &openblas::log); }
            }
            if th || *big { on(cx, "mkl", 2, &mkl::log); }
            if th || (*big && l.size() < 2000) { on(cx, "blis", 4, &blis::log); on(cx, "aocl", 2, &aocl::log); on(cx, "kml", 3, &kml::log); }
        });
    });
}
