//! P08: reductions combine exactly the elements of each group, each as often as it is shown.
use core_mc::*;

/// Groups of elements that share the same remaining index, in row-major order of the group.
fn groups<T: Clone>(m: &Nd<T>, axes: &[usize]) -> Nd<Vec<T>> {
    let rest: Vec<usize> = (0..m.ndim()).filter(|i| !axes.contains(i)).collect();
    let shape: Vec<usize> = rest.iter().map(|&i| m.shape[i]).collect();
    let mut out = Nd::from_fn(&shape, |_| Vec::new());
    each_index(&m.shape, |i| {
        let j: Vec<usize> = rest.iter().map(|&k| i[k]).collect();
        out.at_mut(&j).push(m.at(i).clone());
    });
    out
}

/// None: must be rejected.
fn norm(axes: &[isize], nd: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    for &a in axes {
        let a = if a < 0 { a + nd as isize } else { a };
        if a < 0 || a >= nd as isize || v.contains(&(a as usize)) {
            return None;
        }
        v.push(a as usize);
    }
    Some(v)
}

fn close(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

fn near(what: &str, got: &Nd<f64>, want: &Nd<f64>) -> Result<(), String> {
    if got.shape == want.shape && got.data.iter().zip(&want.data).all(|(a, b)| close(*a, *b)) {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

fn int_val(p: usize) -> i64 {
    let v = (p as i64 * 7919) % 41 - 20;
    if v % 5 == 0 { 0 } else { v }
}
fn pow_val(p: usize) -> f64 {
    [1.0, -1.0, 2.0, -0.5, 1.0, 2.0, -1.0, 0.5, 1.0, 0.5, -2.0][(p * 5) % 11]
}
fn bool_val(p: usize, k: usize) -> bool {
    match k { 0 => true, 1 => false, k => (p * 2654435761 >> 5) % (k + 1) != 0 }
}

macro_rules! reduce {
    ($cx:expr, $name:expr, $row:expr, $l:expr, $axes:expr, $d:expr) => {{
        let l: &Lay = $l;
        let axes: &Option<Vec<isize>> = $axes;
        let d = $d;
        $cx.case(format_args!("{}|row={}|{l:?}|axes={axes:?}", $name, $row), || {
            let nd = l.ndim();
            let ri: Vec<i64> = (0..l.len).map(int_val).collect();
            let mi = l.nd(&ri);
            let t = tensor(ri, l, &d);
            let rf: Vec<f64> = (0..l.len).map(pow_val).collect();
            let mf = l.nd(&rf);
            let tf = tensor(rf, l, &d);
            let ax = match axes { None => Some((0..nd).collect()), Some(a) => norm(a, nd) };
            let Some(ax) = ax else {
                let a = axes.clone().unwrap();
                macro_rules! rej { ($t:expr, $f:ident) => { if let Ok(x) = $t.$f(a.clone()) { return Err(format!("{} accepted axes {a:?}, giving shape {:?}", stringify!($f), x.shape())) } } }
                rej!(t, sum_axes_f); rej!(t, prod_axes_f); rej!(t, min_axes_f); rej!(t, max_axes_f); rej!(t, count_nonzero_axes_f);
                rej!(tf, mean_axes_f); rej!(tf, var_axes_f); rej!(tf, std_axes_f); rej!(tf, l2_norm_axes_f);
                let tb = tensor(vec![true; l.len], l, &d);
                rej!(tb, all_axes_f); rej!(tb, any_axes_f);
                return Ok(Out::Rej);
            };
            macro_rules! arg { () => { match axes { None => AxesIndex::<isize>::None, Some(a) => AxesIndex::Vec(a.clone()) } } }
            let g = groups(&mi, &ax);
            let gf = groups(&mf, &ax);
            let empty = g.data.iter().any(|v| v.is_empty());
            macro_rules! exact {
                ($t:expr, $g:expr, $f:ident, $e:expr) => {{
                    let w = $g.map($e);
                    let r = $t.$f(arg!()).map_err(|e| format!("{}: rejected: {e:?}", stringify!($f)))?;
                    same(&logical(&r)?, &w).map_err(|e| format!("{}: {e}", stringify!($f)))?;
                }};
            }
            exact!(t, g, sum_axes_f, |v| v.iter().sum::<i64>());
            exact!(t, g, count_nonzero_axes_f, |v| v.iter().filter(|x| **x != 0).count());
            exact!(tf, gf, prod_axes_f, |v| v.iter().product::<f64>());
            if mi.size() == 0 {
                // no element: rejected, or (when no group is empty) an empty result
                for r in [t.min_axes_f(arg!()), t.max_axes_f(arg!())] {
                    match r { Err(_) => {}, Ok(x) if !empty => same(&logical(&x)?, &g.map(|_| 0i64))?, Ok(x) => return Err(format!("extremum of an empty group accepted: {:?}", x.shape())) }
                }
            } else {
                exact!(t, g, min_axes_f, |v| *v.iter().min().unwrap());
                exact!(t, g, max_axes_f, |v| *v.iter().max().unwrap());
            }
            let ff = |v: &Vec<i64>| v.iter().map(|x| *x as f64).collect::<Vec<f64>>();
            let tfl = tensor((0..l.len).map(|p| int_val(p) as f64).collect(), l, &d);
            macro_rules! nearly {
                ($f:ident, $e:expr) => {{
                    let e: fn(&Vec<f64>) -> f64 = $e;
                    let r = tfl.$f(arg!()).map_err(|e| format!("{}: rejected: {e:?}", stringify!($f)))?;
                    near(stringify!($f), &logical(&r)?, &g.map(|v| e(&ff(v))))?;
                }};
            }
            fn mean(v: &Vec<f64>) -> f64 { v.iter().sum::<f64>() / v.len() as f64 }
            fn var(v: &Vec<f64>) -> f64 { let m = mean(v); v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / v.len() as f64 }
            if !empty {
                nearly!(mean_axes_f, mean);
                nearly!(var_axes_f, var);
                nearly!(l2_norm_axes_f, |v| v.iter().map(|x| x * x).sum::<f64>().sqrt());
                // standard deviation amplifies the rounding of the variance near zero
                let r = logical(&tfl.std_axes_f(arg!()).map_err(|e| format!("std: {e:?}"))?)?;
                let w = g.map(|v| var(&ff(v)).sqrt());
                if r.shape != w.shape || !r.data.iter().zip(&w.data).all(|(a, b)| close(*a, *b) || (a - b).abs() < 1e-5) { return Err(format!("std: got {r:?}, expected {w:?}")) }
            }
            for k in 0..6 {
                let rb: Vec<bool> = (0..l.len).map(|p| bool_val(p, k)).collect();
                let gb = groups(&l.nd(&rb), &ax);
                let tb = tensor(rb, l, &d);
                exact!(tb, gb, all_axes_f, |v| v.iter().all(|x| *x));
                exact!(tb, gb, any_axes_f, |v| v.iter().any(|x| *x));
                exact!(tb, gb, sum_axes_f, |v| v.iter().filter(|x| **x).count());
            }
            if axes.is_none() {
                let v = &mi.data;
                macro_rules! all { ($t:expr, $f:ident, $w:expr) => { match $t.$f() { Ok(x) if x == $w => {}, r => return Err(format!("{}: got {r:?}, expected {:?}", stringify!($f), $w)) } } }
                all!(t, sum_all_f, v.iter().sum::<i64>());
                all!(t, sum_f, v.iter().sum::<i64>());
                all!(t, count_nonzero_all_f, v.iter().filter(|x| **x != 0).count());
                all!(tf, prod_all_f, mf.data.iter().product::<f64>());
                if v.is_empty() {
                    if t.min_all_f().is_ok() || t.max_all_f().is_ok() { return Err("extremum of nothing accepted".into()) }
                } else {
                    all!(t, min_all_f, *v.iter().min().unwrap());
                    all!(t, max_all_f, *v.iter().max().unwrap());
                    let c = ff(v);
                    for (n, a, b) in [("mean_all", tfl.mean_all(), mean(&c)), ("var_all", tfl.var_all(), var(&c)), ("l2_norm_all", tfl.l2_norm_all(), c.iter().map(|x| x * x).sum::<f64>().sqrt())] {
                        if !close(a, b) { return Err(format!("{n}: got {a}, expected {b}")) }
                    }
                    let (a, b) = (tfl.std_all(), var(&c).sqrt());
                    if !((a - b).abs() < 1e-5) { return Err(format!("std_all: got {a}, expected {b}")) }
                }
                for k in 0..6 {
                    let rb: Vec<bool> = (0..l.len).map(|p| bool_val(p, k)).collect();
                    let mb = l.nd(&rb);
                    let tb = tensor(rb, l, &d);
                    all!(tb, all_all_f, mb.data.iter().all(|x| *x));
                    all!(tb, any_all_f, mb.data.iter().any(|x| *x));
                    if TensorSumBoolAPI::sum_all(&tb) != mb.data.iter().filter(|x| **x).count() { return Err("bool sum_all".into()) }
                }
                // one element out of tolerance anywhere must be noticed
                let n = mi.size();
                if n > 0 && !l.has_bcast() {
                    let cb = c_contig(&l.shape);
                    let w = tensor(l.nd(&(0..l.len).map(|p| int_val(p) as f64).collect::<Vec<_>>()).data, &cb, &d);
                    for (x, y) in [(&tfl, &w), (&w, &tfl)] {
                        if !rt::allclose_f(x, y, (1e-6, 1e-8)).map_err(|e| format!("allclose: {e:?}"))? { return Err("allclose of equal contents is false".into()) }
                    }
                    let probe: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 7, 8, n / 2, n - 9, n - 8, n - 2, n - 1] };
                    for p in probe {
                        let mut z = w.raw().clone();
                        z[p] += 0.5;
                        let z = tensor(z, &cb, &d);
                        if rt::allclose_f(&tfl, &z, (1e-6, 1e-8)).map_err(|e| format!("allclose: {e:?}"))? { return Err(format!("allclose overlooks element {p}")) }
                    }
                }
            }
            Ok(Out::Val)
        });
    }};
}

/// non-commutative-in-rounding and special values
macro_rules! special {
    ($cx:expr, $name:expr, $n:expr, $d:expr) => {{
        let (n, d) = ($n, $d);
        for (vn, v) in [("inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY), ("max", f64::MAX), ("min", f64::MIN), ("zero", 0.0), ("0.1", 0.1), ("1/3", 1.0 / 3.0), ("-0.7", -0.7), ("1e8+0.1", 1e8 + 0.1)] {
            $cx.case(format_args!("{}|constant {vn}|n={n}", $name), || {
                let l = c_contig(&[n, 2]);
                let t = tensor(vec![v; 2 * n], &l, &d);
                let eq = |a: f64| a == v || (a.is_nan() && v.is_nan());
                for (k, got) in [("min_all", t.min_all()), ("max_all", t.max_all())] {
                    if !eq(got) { return Err(format!("{k} of a constant array of {v:?} is {got:?}")) }
                }
                for (k, got) in [("min_axes", logical(&t.min_axes(0))?), ("max_axes", logical(&t.max_axes(0))?), ("min_axes 1", logical(&t.min_axes(1))?), ("max_axes 1", logical(&t.max_axes(1))?)] {
                    if !got.data.iter().all(|x| eq(*x)) { return Err(format!("{k} of a constant array of {v:?} is {got:?}")) }
                }
                if v.abs() < 1e9 {
                    for (k, got) in [("std_all", t.std_all()), ("var_all", t.var_all())] {
                        // zero up to rounding of the squares
                        if !(got >= 0.0 && got <= 1e-7 * (1.0 + v * v)) { return Err(format!("{k} of a constant array of {v:?} is {got:?}")) }
                    }
                    for (k, got) in [("std_axes", logical(&t.std_axes(0))?), ("var_axes", logical(&t.var_axes(0))?)] {
                        if !got.data.iter().all(|x| *x >= 0.0 && *x <= 1e-7 * (1.0 + v * v)) { return Err(format!("{k} of a constant array of {v:?} is {got:?}")) }
                    }
                }
                Ok(Out::Val)
            });
        }
        // a NaN among numbers is ignored by min/max (as documented for the scalar functions), wherever it stands
        if n > 1 {
            for p in (0..n).filter(|p| n <= 40 || [0, 1, 7, 8, n - 1].contains(p)) {
                $cx.case(format_args!("{}|one NaN at {p}|n={n}", $name), || {
                    let l = c_contig(&[n]);
                    let mut v: Vec<f64> = (0..n).map(|i| ((i * 7) % n) as f64 - 3.0).collect();
                    v[p] = f64::NAN;
                    let lo = v.iter().copied().filter(|x| !x.is_nan()).fold(f64::INFINITY, f64::min);
                    let hi = v.iter().copied().filter(|x| !x.is_nan()).fold(f64::NEG_INFINITY, f64::max);
                    let t = tensor(v, &l, &d);
                    if t.min_all() != lo || t.max_all() != hi { return Err(format!("min {} max {}, expected {lo} {hi}", t.min_all(), t.max_all())) }
                    if !t.sum_all().is_nan() { return Err("sum ignores a NaN".into()) }
                    Ok(Out::Val)
                });
            }
        }
        for (tn, lo, hi) in [("i8", i8::MIN as i64, i8::MAX as i64)] {
            $cx.case(format_args!("{}|integer extremes {tn}|n={n}", $name), || {
                let l = c_contig(&[n]);
                let t = tensor(vec![i8::MAX; n], &l, &d);
                let s = tensor(vec![i8::MIN; n], &l, &d);
                if t.min_all() as i64 != hi || t.max_all() as i64 != hi || s.min_all() as i64 != lo || s.max_all() as i64 != lo { return Err("extremum of extreme integers".into()) }
                Ok(Out::Val)
            });
        }
        $cx.case(format_args!("{}|complex|n={n}", $name), || {
            let l = c_contig(&[n, 2]);
            let v: Vec<Complex<f64>> = (0..2 * n).map(|p| Complex::new(int_val(p) as f64, int_val(p + 17) as f64)).collect();
            let t = tensor(v.clone(), &l, &d);
            let nf = 2.0 * n as f64;
            let s: Complex<f64> = v.iter().sum();
            let m = s / nf;
            let var = v.iter().map(|x| (x - m).norm_sqr()).sum::<f64>() / nf;
            let l2 = v.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt();
            if t.sum_all() != s || (t.mean_all() - m).norm() > 1e-9 || !close(t.var_all(), var) || !close(t.l2_norm_all(), l2) || !close(t.std_all(), var.sqrt()) {
                return Err(format!("sum {} mean {} var {} l2 {}; expected {s} {m} {var} {l2}", t.sum_all(), t.mean_all(), t.var_all(), t.l2_norm_all()))
            }
            Ok(Out::Val)
        });
    }};
}

macro_rules! dev_fns {
    ($D:ty, $red:ident, $sp:ident) => {
        fn $red(cx: &mut Cx, name: &str, row: bool, l: &Lay, axes: &Option<Vec<isize>>, d: $D) { reduce!(cx, name, row, l, axes, d) }
        fn $sp(cx: &mut Cx, name: &str, n: usize, d: $D) { special!(cx, name, n, d) }
    };
}
dev_fns!(DeviceCpuSerial, red_s, sp_s);
dev_fns!(DeviceFaer, red_f, sp_f);

fn axes_of(nd: usize, invalid: bool) -> Vec<Option<Vec<isize>>> {
    let mut out: Vec<Option<Vec<isize>>> = vec![None];
    for s in subsets(nd) {
        out.push(Some(s.iter().map(|&x| x as isize).collect()));
        if s.len() > 1 { out.push(Some(s.iter().rev().map(|&x| x as isize - nd as isize).collect())) }
    }
    if invalid {
        let n = nd as isize;
        out.extend([Some(vec![n]), Some(vec![-n - 1]), Some(vec![0, 0]), Some(vec![0, -n]), Some(vec![n - 1, -1])]);
    }
    out
}

fn main() {
    fw::main("P08", |r| {
        r.bound("every shape of rank 0..=3 with extents 0..=3 (rank 4: 1..=2), every layout within the stated deviations of contiguous (flipped, strided, broadcast, permuted, offset), every subset of axes (also reversed and negative) plus axes that must be rejected; sum, prod, min, max, mean, var, std, l2_norm, all, any, count_nonzero, bool sum, allclose");
        r.bound("rows around the unrolling (8), contiguous (32), chunk (48/64) and parallel (1024) switches; serial and rayon device");
        r.assume("the minimum/maximum of a group that holds nothing but NaN is not specified");
        r.assume("mean/var/std/l2_norm compare within 1e-9 relative; var uses the population definition");
        let mut items = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) { for l in layouts_dev(&s, &ALL_KINDS, r.pick(2, 3)) { items.push(l); } }
        for s in shapes(4, 4, &[1, 2]) { for l in layouts_dev(&s, &ALL_KINDS, r.pick(1, 2)) { items.push(l); } }
        if r.thorough() { for s in shapes(4, 4, &[2, 3]) { for l in layouts_dev(&s, &ALL_KINDS, 1) { items.push(l); } } }
        r.par("small", &items, |cx, l| {
            cx.state(l);
            for a in axes_of(l.ndim(), l.len < 40) { red_s(cx, "serial", true, l, &a, serial(true)); }
        });
        let part: Vec<_> = items.iter().enumerate().filter(|(i, l)| l.ndim() < 3 || i % r.pick(7, 1) == 0).map(|x| x.1.clone()).collect();
        r.par("small-col", &part, |cx, l| {
            for a in axes_of(l.ndim(), false) {
                red_s(cx, "serial", false, l, &a, serial(false));
                red_f(cx, "faer", true, l, &a, faer(true, 2));
            }
        });
        let mut long = vec![];
        for s in [vec![7usize], vec![8], vec![9], vec![15], vec![16], vec![17], vec![31], vec![32], vec![33], vec![47], vec![48], vec![49], vec![63], vec![65], vec![97], vec![100]] {
            long.extend(layouts_dev(&s, &ALL_KINDS, 1));
        }
        for s in [vec![2usize, 33], vec![33, 2], vec![3, 17], vec![50, 3], vec![3, 50], vec![97, 2], vec![2, 4, 8], vec![8, 4, 2], vec![4, 9, 2], vec![2, 49, 2], vec![2, 3, 10], vec![2, 2, 2, 2, 3], vec![1, 3, 1, 2, 2, 2], vec![2, 1, 2, 2, 1, 2, 2]] {
            let mut v = layouts_dev(&s, &ALL_KINDS, if s.len() < 4 { 2 } else { 1 });
            if s.len() >= 5 { v.truncate(r.pick(150, 2000)); }
            long.extend(v);
        }
        r.par("long", &long, |cx, l| {
            cx.state(l);
            for a in axes_of(l.ndim(), false) { red_s(cx, "serial", true, l, &a, serial(true)); }
        });
        let mut big = vec![];
        for s in [vec![1023usize], vec![1024], vec![1025], vec![2049], vec![5000], vec![32, 32], vec![33, 32], vec![31, 34], vec![2, 1100], vec![1100, 2], vec![3, 700], vec![700, 3], vec![65, 65], vec![130, 10], vec![10, 130], vec![8, 8, 17], vec![17, 8, 8], vec![2, 3, 200], vec![200, 2, 3], vec![3, 200, 2], vec![4, 4, 8, 9]] {
            let mut v = layouts_dev(&s, &ALL_KINDS, if s.len() < 3 { 2 } else { 1 });
            if s.len() >= 3 { v.truncate(r.pick(60, 1000)); }
            big.extend(v);
        }
        r.par("parallel", &big, |cx, l| {
            cx.state(l);
            for a in axes_of(l.ndim(), true) { red_f(cx, "faer", true, l, &a, faer(true, 4)); }
        });
        let ns: Vec<usize> = vec![1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 40, 64, 512, 1024, 1100, 3000];
        r.par("special", &ns, |cx, n| {
            if *n < 600 { sp_s(cx, "serial", *n, serial(true)); }
            sp_f(cx, "faer", *n, faer(true, 4));
        });
    });
}
