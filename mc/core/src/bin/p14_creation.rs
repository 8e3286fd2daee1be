//! P14: creation functions give the specified elements, shape and memory order for every argument.
use core_mc::*;

fn contig(l: &Layout<IxD>, row: bool) -> bool {
    let w = if row { c_contig(l.shape()) } else { f_contig(l.shape()) };
    prod(l.shape()) == 0 || (0..l.ndim()).all(|k| l.shape()[k] == 1 || l.stride()[k] == w.stride[k])
}

/// arithmetic progression from the definition (exact integers)
fn prog(a: i128, b: i128, s: i128) -> Option<Vec<i128>> {
    if s == 0 {
        return None;
    }
    let mut v = vec![];
    let mut x = a;
    while (s > 0 && x < b) || (s < 0 && x > b) {
        v.push(x);
        x += s;
    }
    Some(v)
}

macro_rules! arange_int {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $t:ty, $vals:expr, $steps:expr, $cap:expr) => {{
        let d = $d;
        let _ = $row;
        for &a in $vals {
            for &b in $vals {
                for &s in $steps {
                    let span = b as i128 - a as i128;
                    if s as i128 != 0 && span / (s as i128) > $cap {
                        continue;
                    }
                    $cx.state(&(a as i128, b as i128, s as i128, stringify!($t)));
                    $cx.case(format_args!("{}|arange {}|{a}..{b} step {s}", $name, stringify!($t)), || {
                        let want = prog(a as i128, b as i128, s as i128);
                        let conv = |t: &Nd<$t>| Nd::new(&t.shape, t.data.iter().map(|x| *x as i128).collect());
                        match (rt::arange_f((a, b, s, &d)), &want) {
                            (Err(_), None) => return Ok(Out::Rej),
                            (Ok(t), Some(w)) => same(&conv(&logical(&t)?), &Nd::new(&[w.len()], w.clone()))?,
                            (Ok(_), None) => return Err("zero step accepted".into()),
                            (Err(e), Some(_)) => return Err(format!("rejected: {e:?}")),
                        }
                        if s as i128 == 1 {
                            let w = want.clone().unwrap();
                            same(&conv(&logical(&rt::arange((a, b, &d)))?), &Nd::new(&[w.len()], w.clone()))?;
                            if a as i128 == 0 {
                                same(&conv(&logical(&rt::arange((b, &d)))?), &Nd::new(&[w.len()], w.clone()))?;
                            }
                        }
                        Ok(Out::Val)
                    });
                }
            }
        }
    }};
}

macro_rules! arange_float {
    ($cx:expr, $name:expr, $d:expr, $t:ty, $vals:expr, $steps:expr, $exact:expr) => {{
        let d = $d;
        for &a in $vals {
            for &b in $vals {
                for &s in $steps {
                    let (a, b, s) = (a as $t, b as $t, s as $t);
                    $cx.state(&format!("{a} {b} {s}"));
                    $cx.case(format_args!("{}|arange {}|{a}..{b} step {s}", $name, stringify!($t)), || {
                        let g = match rt::arange_f((a, b, s, &d)) {
                            Err(_) if s == 0.0 => return Ok(Out::Rej),
                            Err(e) => return Err(format!("rejected: {e:?}")),
                            Ok(_) if s == 0.0 => return Err("zero step accepted".into()),
                            Ok(g) => logical(&g)?,
                        };
                        let inside = |x: $t| (s > 0.0 && x < b) || (s < 0.0 && x > b);
                        let tol = if $exact { 0.0 } else { 8.0 * <$t>::EPSILON * (a.abs() + b.abs() + s.abs()) };
                        for (i, x) in g.data.iter().enumerate() {
                            let w = a as f64 + i as f64 * s as f64;
                            if !inside(*x) || (*x as f64 - w).abs() > tol as f64 {
                                return Err(format!("element {i} is {x}, expected about {w}"));
                            }
                        }
                        let next = a as f64 + g.data.len() as f64 * s as f64;
                        let over = if s > 0.0 { next + tol as f64 >= b as f64 } else { next - tol as f64 <= b as f64 };
                        if !over {
                            return Err(format!("{} elements: {next} is missing", g.data.len()));
                        }
                        if s == 1.0 {
                            same(&logical(&rt::arange((a, b, &d)))?, &g)?;
                            if a == 0.0 {
                                same(&logical(&rt::arange((b, &d)))?, &g)?;
                            }
                        }
                        Ok(Out::Val)
                    });
                }
            }
        }
    }};
}

macro_rules! linspace {
    ($cx:expr, $name:expr, $d:expr, $ns:expr) => {{
        let d = $d;
        for &n in $ns {
            for a in [-3.5, 0.0, 1.0, 1e9] {
                for b in [-2.0, 0.0, 1.0, 7.25] {
                    $cx.state(&format!("{a} {b} {n}"));
                    $cx.case(format_args!("{}|linspace|{a}..{b} n={n}", $name), || {
                        for ep in [true, false] {
                            let div = if ep { n as f64 - 1.0 } else { n as f64 };
                            let w: Vec<f64> = (0..n).map(|i| if i == 0 { a } else { a + (b - a) * i as f64 / div }).collect();
                            let ok = |g: &Nd<f64>| g.shape == [n] && g.data.iter().zip(&w).all(|(x, y)| (x - y).abs() <= 1e-13 * n as f64 * (a.abs() + b.abs() + 1e-300));
                            let g = logical(&rt::linspace((a, b, n, ep, &d)))?;
                            if !ok(&g) { return Err(format!("endpoint={ep}: got {g:?}, expected {w:?}")) }
                            if ep {
                                let g = logical(&rt::linspace((a, b, n, &d)))?;
                                if !ok(&g) { return Err(format!("default: got {g:?}, expected {w:?}")) }
                            }
                            let (ca, cb) = (Complex::new(a, -b), Complex::new(b, a));
                            let g = logical(&rt::linspace((ca, cb, n, ep, &d)))?;
                            let wc: Vec<Complex<f64>> = (0..n).map(|i| if i == 0 { ca } else { ca + (cb - ca) * (i as f64 / div) }).collect();
                            if g.shape != [n] || !g.data.iter().zip(&wc).all(|(x, y)| (x - y).norm() <= 1e-13 * n as f64 * (a.abs() + b.abs() + 1e-300)) {
                                return Err(format!("complex endpoint={ep}: got {g:?}, expected {wc:?}"));
                            }
                        }
                        Ok(Out::Val)
                    });
                }
            }
        }
    }};
}

macro_rules! eye_case {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $max:expr) => {{
        let d = $d;
        let max: usize = $max;
        for n in 0..=max {
            for m in 0..=max {
                for k in -(max as isize) - 1..=max as isize + 1 {
                    $cx.state(&(n, m, k));
                    $cx.case(format_args!("{}|row={}|eye {n}x{m} k={k}", $name, $row), || {
                        let w = Nd::from_fn(&[n, m], |i| (i[1] as isize - i[0] as isize == k) as i64);
                        for o in [ROW, COL] {
                            let g: Tensor<i64, _> = rt::eye_f((n, m, k, o, &d)).map_err(|e| format!("rejected: {e:?}"))?;
                            check_t(&g, &w).map_err(|e| format!("{o:?}: {e}"))?;
                            if !contig(g.layout(), o == ROW) { return Err(format!("order {o:?} gives {:?}", g.layout())) }
                        }
                        let g: Tensor<i64, _> = rt::eye((n, m, k, &d));
                        check_t(&g, &w)?;
                        if !contig(g.layout(), $row) { return Err(format!("default order gives {:?}", g.layout())) }
                        if n == m && k == 0 {
                            let g: Tensor<i64, _> = rt::eye((n, &d));
                            check_t(&g, &w)?;
                        }
                        Ok(Out::Val)
                    });
                }
            }
        }
        // diagonal extraction and construction
        for n in 0..=max {
            for k in -3isize..=3 {
                $cx.case(format_args!("{}|row={}|diag from {n} k={k}", $name, $row), || {
                    let l = c_contig(&[n]);
                    let raw: Vec<i64> = (0..n as i64).map(|x| 5 + x).collect();
                    let t = tensor(raw.clone(), &l, &d);
                    let s = n + k.unsigned_abs();
                    let w = Nd::from_fn(&[s, s], |i| {
                        let (r, c) = (i[0] as isize, i[1] as isize);
                        if c - r == k { raw[r.min(c) as usize] } else { 0 }
                    });
                    check_t(&rt::diag((&t, k)), &w)?;
                    if k == 0 { check_t(&rt::diag(&t), &w)? }
                    Ok(Out::Val)
                });
            }
        }
    }};
}

macro_rules! filled {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $shape:expr) => {{
        let d = $d;
        let s: &Vec<usize> = $shape;
        $cx.state(&(s, $row));
        $cx.case(format_args!("{}|row={}|filled {s:?}", $name, $row), || {
            let ok = |t: &Tensor<i64, _, IxD>, v: i64, row: bool, what: &str| -> Result<(), String> {
                check_t(t, &Nd::from_fn(s, |_| v)).map_err(|e| format!("{what}: {e}"))?;
                if !contig(t.layout(), row) { return Err(format!("{what}: layout {:?} is not in the requested order", t.layout())) }
                Ok(())
            };
            for (o, row) in [(ROW, true), (COL, false)] {
                ok(&rt::zeros_f((s.clone(), o, &d)).map_err(|e| format!("{e:?}"))?, 0, row, "zeros")?;
                ok(&rt::ones_f((s.clone(), o, &d)).map_err(|e| format!("{e:?}"))?, 1, row, "ones")?;
                ok(&rt::full_f((s.clone(), 7i64, o, &d)).map_err(|e| format!("{e:?}"))?, 7, row, "full")?;
                let mut e = unsafe { rt::empty_f((s.clone(), o, &d)) }.map_err(|e| format!("{e:?}"))?;
                e.fill(9i64);
                ok(&e, 9, row, "empty then fill")?;
                let mut u: Tensor<std::mem::MaybeUninit<i64>, _, IxD> = rt::uninit((s.clone(), o, &d));
                for x in u.raw_mut().iter_mut() { x.write(4); }
                ok(&unsafe { rt::assume_init(u) }, 4, row, "uninit")?;
            }
            ok(&rt::zeros((s.clone(), &d)), 0, $row, "zeros")?;
            ok(&rt::ones((s.clone(), &d)), 1, $row, "ones")?;
            ok(&rt::full((s.clone(), 7i64, &d)), 7, $row, "full")?;
            let mut e = unsafe { rt::empty((s.clone(), &d)) };
            e.fill(9i64);
            ok(&e, 9, $row, "empty then fill")?;
            let mut u: Tensor<std::mem::MaybeUninit<i64>, _, IxD> = rt::uninit((s.clone(), &d));
            for x in u.raw_mut().iter_mut() { x.write(4); }
            ok(&unsafe { rt::assume_init(u) }, 4, $row, "uninit")?;
            Ok(Out::Val)
        });
    }};
}

/// filled arrays over a given layout, the -like functions over a given source
macro_rules! over_layout {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $l:expr) => {{
        let d = $d;
        let l: &Lay = $l;
        $cx.state(&(&l.shape, &l.stride, l.offset, $row));
        $cx.case(format_args!("{}|row={}|layout {l:?}", $name, $row), || {
            let ll = layout(l);
            let keep = |t: &Tensor<i64, _, IxD>, v: i64, what: &str| -> Result<(), String> {
                check_t(t, &Nd::from_fn(&l.shape, |_| v)).map_err(|e| format!("{what}: {e}"))?;
                if *t.layout() != ll { return Err(format!("{what}: layout {:?}", t.layout())) }
                Ok(())
            };
            keep(&rt::zeros((ll.clone(), &d)), 0, "zeros")?;
            keep(&rt::ones((ll.clone(), &d)), 1, "ones")?;
            keep(&rt::full((ll.clone(), 7i64, &d)), 7, "full")?;
            // like: same shape; the order asked for; the source untouched
            let raw = raw_i64(l.len, 3);
            let t = tensor(raw.clone(), l, &d);
            for (o, oc) in [(TensorIterOrder::C, Some(true)), (TensorIterOrder::F, Some(false)), (TensorIterOrder::K, None), (TensorIterOrder::A, None)] {
                for (v, g, what) in [(0, rt::zeros_like((&t, o)), "zeros_like"), (1, rt::ones_like((&t, o)), "ones_like"), (7, rt::full_like((&t, 7, o)), "full_like"), (0, rt::zeros_like((&t, o, &d)), "zeros_like dev"), (1, rt::ones_like((&t, o, &d)), "ones_like dev"), (7, rt::full_like((&t, 7, o, &d)), "full_like dev")] {
                    check_t(&g, &Nd::from_fn(&l.shape, |_| v)).map_err(|e| format!("{what} {o:?}: {e}"))?;
                    if let Some(row) = oc {
                        if !contig(g.layout(), row) { return Err(format!("{what} {o:?}: {:?}", g.layout())) }
                    }
                    if g.raw().len() != l.size() { return Err(format!("{what} {o:?}: buffer of {} for {} elements", g.raw().len(), l.size())) }
                }
                let mut e = unsafe { rt::empty_like((&t, o)) };
                e.fill(6);
                check_t(&e, &Nd::from_fn(&l.shape, |_| 6))?;
            }
            check_t(&t.zeros_like(), &Nd::from_fn(&l.shape, |_| 0))?;
            check_t(&t.ones_like(), &Nd::from_fn(&l.shape, |_| 1))?;
            check_t(&t.full_like(5), &Nd::from_fn(&l.shape, |_| 5))?;
            if *t.raw() != raw { return Err("source changed".into()) }
            if l.ndim() == 2 {
                let m = l.nd(&raw);
                for k in -4isize..=4 {
                    let w: Vec<i64> = (0..l.shape[0]).flat_map(|i| (0..l.shape[1]).map(move |j| (i, j))).filter(|(i, j)| *j as isize - *i as isize == k).map(|(i, j)| *m.at(&[i, j])).collect();
                    check_t(&rt::diag((&t, k)), &Nd::new(&[w.len()], w)).map_err(|e| format!("diag k={k}: {e}"))?;
                }
            }
            if l.ndim() == 1 && !l.shape.contains(&0) {
                let m = l.nd(&raw);
                for k in -2isize..=2 {
                    let s = l.shape[0] + k.unsigned_abs();
                    let w = Nd::from_fn(&[s, s], |i| if i[1] as isize - i[0] as isize == k { m.data[i[0].min(i[1])] } else { 0 });
                    check_t(&rt::diag((&t, k)), &w).map_err(|e| format!("diag k={k}: {e}"))?;
                }
            }
            Ok(Out::Val)
        });
    }};
}

macro_rules! from_data {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $shape:expr, $len:expr) => {{
        let d = $d;
        let s: &Vec<usize> = $shape;
        let n: usize = $len;
        $cx.state(&(s, n, $row));
        $cx.case(format_args!("{}|row={}|asarray {n} elements as {s:?}", $name, $row), || {
            let mut raw = raw_i64(n, 11);
            let fits = prod(s) <= n;
            let m = |row: bool| Nd::from_ordered(s, raw_i64(n, 11)[..prod(s)].to_vec(), row);
            let lays = [(c_contig(s), true), (f_contig(s), false)];
            macro_rules! one {
                ($what:expr, $e:expr, $w:expr) => {{
                    match (call(|| $e), fits) {
                        (Err(p), _) => return Err(format!("{}: panicked: {p}", $what)),
                        (Ok(Err(_)), false) => {},
                        (Ok(Ok(t)), true) => check_t(&t, &$w).map_err(|e| format!("{}: {e}", $what))?,
                        (Ok(Ok(t)), false) => return Err(format!("{}: {n} elements accepted as {:?}", $what, t.shape())),
                        (Ok(Err(e)), true) => return Err(format!("{}: rejected: {e:?}", $what)),
                    }
                }};
            }
            one!("vec", rt::asarray_f((raw.clone(), s.clone(), &d)), m($row));
            one!("slice", rt::asarray_f((raw.as_slice(), s.clone(), &d)), m($row));
            one!("&vec", rt::asarray_f((&raw, s.clone(), &d)), m($row));
            one!("&mut vec", rt::asarray_f((&mut raw, s.clone(), &d)), m($row));
            one!("&mut slice", rt::asarray_f((raw.as_mut_slice(), s.clone(), &d)), m($row));
            for (l, row) in &lays {
                one!("vec layout", rt::asarray_f((raw.clone(), layout(l), &d)), m(*row));
                one!("slice layout", rt::asarray_f((raw.as_slice(), layout(l), &d)), m(*row));
                one!("mut layout", rt::asarray_f((&mut raw, layout(l), &d)), m(*row));
            }
            if fits && n > 0 && prod(s) > 0 {
                // a mutable view writes through to the given data, nowhere else
                {
                    let mut t = rt::asarray((&mut raw, s.clone(), &d));
                    t.fill(-1);
                }
                if raw.iter().enumerate().any(|(i, x)| if i < prod(s) { *x != -1 } else { *x != 11 + 3 * i as i64 }) { return Err(format!("fill through a mutable view gives {raw:?}")) }
            }
            if s.len() == 1 && s[0] == n {
                let raw = raw_i64(n, 11);
                let w = Nd::new(&[n], raw.clone());
                check_t(&rt::asarray((raw.clone(), &d)), &w)?;
                check_t(&rt::asarray((raw.as_slice(), &d)), &w)?;
                check_t(&rt::asarray((&raw, &d)), &w)?;
                let v = rt::asarray((&raw, &d));
                if n > 0 && v.raw().as_ptr() != raw.as_ptr() { return Err("asarray of a slice copied it".into()) }
            }
            Ok(if fits { Out::Val } else { Out::Rej })
        });
    }};
}

macro_rules! any_layout {
    ($cx:expr, $name:expr, $d:expr, $s:expr, $st:expr, $off:expr, $len:expr) => {{
        let d = $d;
        let (s, st, off, len): (&Vec<usize>, &Vec<isize>, usize, usize) = ($s, $st, $off, $len);
        // accepted data are shown as the layout says (which layouts are accepted: P21)
        if let Ok(l) = Layout::<IxD>::new(s.clone(), st.clone(), off) {
            let raw = raw_i64(len, 2);
            if let Ok(t) = rt::asarray_f((raw.clone(), l.clone(), &d)) {
                same(&logical(&t)?, &read(&raw, s, st, off)?)?;
                if *t.raw() != raw { return Err("data changed".into()) }
            }
            if let Ok(t) = rt::asarray_f((&raw, l.clone(), &d)) {
                same(&logical(&t)?, &read(&raw, s, st, off)?)?;
            }
        }
    }};
}

macro_rules! scalars {
    ($cx:expr, $name:expr, $d:expr, $($t:ty),*) => {{
        let d = $d;
        $cx.case(format_args!("{}|scalars", $name), || {
            $({
                let v = 42 as $t;
                check_t(&rt::asarray((v, &d)), &Nd::new(&[], vec![v])).map_err(|e| format!("{}: {e}", stringify!($t)))?;
                check_t(&rt::asarray(v), &Nd::new(&[], vec![v]))?;
            })*
            let c = Complex::new(1.5f64, -2.0);
            check_t(&rt::asarray((c, &d)), &Nd::new(&[], vec![c]))?;
            Ok(Out::Val)
        });
    }};
}

macro_rules! nested {
    ($cx:expr, $name:expr, $d:expr, $row:expr) => {{
        let d = $d;
        $cx.case(format_args!("{}|row={}|nested literals", $name, $row), || {
            let seq = |s: &[usize]| Nd::new(s, (0..prod(s) as i64).collect());
            check_t(&rt::tensor_from_nested!([0i64], &d), &seq(&[1]))?;
            check_t(&rt::tensor_from_nested!([0i64, 1, 2], &d), &seq(&[3]))?;
            check_t(&rt::tensor_from_nested!([[0i64], [1], [2]], &d), &seq(&[3, 1]))?;
            check_t(&rt::tensor_from_nested!([[0i64, 1, 2], [3, 4, 5]], &d), &seq(&[2, 3]))?;
            check_t(&rt::tensor_from_nested!([[[0i64, 1], [2, 3], [4, 5]], [[6, 7], [8, 9], [10, 11]]], &d), &seq(&[2, 3, 2]))?;
            check_t(&rt::tensor_from_nested!([[[[0i64, 1], [2, 3], [4, 5]]], [[[6, 7], [8, 9], [10, 11]]]], &d), &seq(&[2, 1, 3, 2]))?;
            check_t(&rt::tensor_from_nested!([[[[[0i64], [1]], [[2], [3]], [[4], [5]]]], [[[[6], [7]], [[8], [9]], [[10], [11]]]]], &d), &seq(&[2, 1, 3, 2, 1]))?;
            check_t(&rt::tensor_from_nested!([[[[[[0i64, 1], [2, 3]], [[4, 5], [6, 7]]]]]], &d), &seq(&[1, 1, 1, 2, 2, 2]))?;
            Ok(Out::Val)
        });
    }};
}

fn main() {
    fw::main("P14", |r| {
        let rows = [true, false];
        // ---- progressions
        let small: Vec<i64> = (-5..=5).collect();
        let steps: Vec<i64> = (-4..=4).collect();
        r.par("arange of integers", &rows, |cx, &row| {
            let n = r.pick(5i64, 9);
            let vals: Vec<i64> = (-n..=n).collect();
            macro_rules! ty { ($name:expr, $d:expr, $t:ty, $lo:expr) => {{
                let v: Vec<$t> = vals.iter().filter(|x| $lo || **x >= 0).map(|x| *x as $t).collect();
                let s: Vec<$t> = steps.iter().filter(|x| $lo || **x >= 0).map(|x| *x as $t).collect();
                arange_int!(cx, $name, $d, row, $t, &v, &s, 100i128);
                let v: Vec<$t> = vec![<$t>::MIN, <$t>::MIN / 2, 0, 1, <$t>::MAX / 3 + 2, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX];
                let mut s: Vec<$t> = vec![1, 3, 100, <$t>::MAX / 5 + 1, <$t>::MAX / 2, <$t>::MAX];
                if $lo { s.extend([<$t>::MIN, <$t>::MIN / 2, <$t>::MIN / 3 - 1, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(100)]) }
                arange_int!(cx, $name, $d, row, $t, &v, &s, 300i128);
            }}}
            macro_rules! dev_types { ($name:expr, $d:expr) => {{
                ty!($name, $d, i8, true); ty!($name, $d, i16, true); ty!($name, $d, i32, true); ty!($name, $d, i64, true); ty!($name, $d, isize, true);
                ty!($name, $d, u8, false); ty!($name, $d, u16, false); ty!($name, $d, u32, false); ty!($name, $d, u64, false); ty!($name, $d, usize, false);
            }}}
            dev_types!("serial", serial(row));
            dev_types!("faer2", faer(row, 2));
        });
        r.par("arange of floats", &rows, |cx, &row| {
            let v = [-2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 1.75, 3.0];
            let s = [-2.0, -1.0, -0.75, -0.25, 0.0, 0.25, 0.5, 1.0, 1.5, 4.0];
            let vi = [-1.1, -0.3, 0.0, 0.1, 0.3, 0.7, 1.0, 2.2];
            let si = [-0.3, -0.1, 0.1, 0.7, 1.0 / 3.0];
            macro_rules! d { ($name:expr, $d:expr) => {{
                arange_float!(cx, $name, $d, f64, &v, &s, true);
                arange_float!(cx, $name, $d, f32, &v, &s, true);
                arange_float!(cx, $name, $d, f64, &vi, &si, false);
                arange_float!(cx, $name, $d, f32, &vi, &si, false);
            }}}
            d!("serial", serial(row));
            d!("faer2", faer(row, 2));
        });
        let ns: Vec<usize> = (0..=r.pick(12, 40)).chain([63, 64, 65, 1000]).collect();
        r.par("linspace", &ns, |cx, n| {
            linspace!(cx, "serial", serial(true), std::slice::from_ref(n));
            linspace!(cx, "faer2", faer(true, 2), std::slice::from_ref(n));
        });
        let emax = r.pick(4, 7);
        r.par("eye and diag", &rows, |cx, &row| {
            eye_case!(cx, "serial", serial(row), row, emax);
            eye_case!(cx, "faer2", faer(row, 2), row, emax);
        });
        r.bound(format!("arange: every (start, stop, step) over -{0}..={0} x -4..=4 and over type boundaries for i8..i64, u8..u64, isize, usize (progressions of at most 300 elements), every triple over 8 x 8 x 10 exactly representable and 8 x 8 x 5 inexact floats for f32/f64; linspace: 0..={1} and 63, 64, 65, 1000 points; eye: 0..={emax} x 0..={emax}, every diagonal", r.pick(5, 9), r.pick(12, 40)));
        // ---- filled
        let mut sh = shapes(0, r.pick(3, 4), &[0, 1, 2, 3]);
        sh.extend([vec![2, 3, 1, 2], vec![1, 2, 1, 2, 1], vec![65], vec![17, 3]]);
        let items: Vec<(bool, Vec<usize>)> = rows.iter().flat_map(|r| sh.iter().map(move |s| (*r, s.clone()))).collect();
        r.par("zeros, ones, full, empty, uninit", &items, |cx, (row, s)| {
            filled!(cx, "serial", serial(*row), *row, s);
            filled!(cx, "faer2", faer(*row, 2), *row, s);
        });
        let mut li: Vec<(bool, Lay)> = vec![];
        for s in &sh {
            if s.len() <= 3 {
                for l in if s.len() <= 2 { layouts_full(s, &NOB_KINDS) } else { layouts_dev(s, &NOB_KINDS, r.pick(1, 2)) } {
                    li.push((true, l.clone()));
                    li.push((false, l));
                }
            }
        }
        r.par("creation over a layout or like a tensor", &li, |cx, (row, l)| {
            over_layout!(cx, "serial", serial(*row), *row, l);
            over_layout!(cx, "faer2", faer(*row, 2), *row, l);
        });
        r.bound(format!("shapes: {} (0 to {} dimensions); layouts for creation and -like functions: {}", sh.len(), r.pick(3, 4), li.len() / 2));
        // ---- from data
        let mut items = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) {
            let p = prod(&s);
            for n in [p, p + 1, p.saturating_sub(1), 0] {
                for row in rows {
                    if !items.contains(&(row, s.clone(), n)) {
                        items.push((row, s.clone(), n));
                    }
                }
            }
        }
        r.par("asarray from data", &items, |cx, (row, s, n)| {
            from_data!(cx, "serial", serial(*row), *row, s, *n);
            from_data!(cx, "faer2", faer(*row, 2), *row, s, *n);
        });
        let mut items = vec![];
        let m = r.pick(3isize, 5);
        for nd in 1..=2 {
            for s in words(&[0usize, 1, 2, 3], nd) {
                for st in words(&(-m..=m).collect::<Vec<_>>(), nd) {
                    items.push((s.clone(), st));
                }
            }
        }
        r.par("asarray over any layout", &items, |cx, (s, st)| {
            cx.state(&(s, st));
            cx.case(format_args!("asarray|shape {s:?} stride {st:?}"), || {
                for off in 0..6 {
                    for len in 0..10 {
                        any_layout!(cx, "serial", serial(true), s, st, off, len);
                    }
                }
                Ok(Out::Val)
            });
        });
        r.par("asarray from scalars and nested literals", &rows, |cx, &row| {
            scalars!(cx, "serial", serial(row), i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
            scalars!(cx, "faer2", faer(row, 2), i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
            nested!(cx, "serial", serial(row), row);
            nested!(cx, "faer2", faer(row, 2), row);
        });
        let _ = small;
    });
}
