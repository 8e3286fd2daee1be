//! P22: the column-major convention on the axis-reversed array gives the axis reversal of the row-major result.
//! Purely relational: neither side is compared with a model here.
use core_mc::*;
use std::fmt::Debug;

/// what an operation gave: an array, or a rejection
type Got<T> = Result<Nd<T>, String>;

fn dual<T: Clone + PartialEq + Debug>(cx: &mut Cx, key: std::fmt::Arguments<'_>, row: impl FnOnce() -> Got<T>, col: impl FnOnce() -> Got<T>) {
    cx.case(key, || {
        let r = call(row).map_err(|p| format!("row-major: panicked: {p}"))?;
        let c = call(col).map_err(|p| format!("column-major: panicked: {p}"))?;
        match (r, c) {
            (Ok(r), Ok(c)) if r.t() == c => Ok(Out::Val),
            (Ok(r), Ok(c)) => Err(format!("row-major {r:?}, column-major {c:?}")),
            (Err(_), Err(_)) => Ok(Out::Rej),
            (Ok(r), Err(e)) => Err(format!("row-major {r:?}, column-major rejected: {e}")),
            (Err(e), Ok(c)) => Err(format!("row-major rejected: {e}, column-major {c:?}")),
        }
    });
}

fn rev(l: &Lay) -> Lay {
    let mut l = l.clone();
    l.shape.reverse();
    l.stride.reverse();
    l
}
fn revu<T: Clone>(s: &[T]) -> Vec<T> { s.iter().rev().cloned().collect() }
/// the axis of the reversed array
fn m(a: isize) -> isize { -1 - a }

/// every axis named forwards or backwards, and two that do not exist
fn axes(n: usize) -> Vec<isize> { (-(n as isize) - 1..=n as isize).collect() }
/// a list of distinct axes, by the bits of a number; negative if asked for
fn lists(n: usize) -> Vec<Vec<isize>> {
    let mut v: Vec<Vec<isize>> = subsets(n).into_iter().map(|s| s.into_iter().map(|x| x as isize).collect()).collect();
    let w: Vec<Vec<isize>> = v.iter().map(|s| s.iter().rev().map(|x| x - n as isize).collect()).collect();
    v.extend(w);
    v.retain(|s| !s.is_empty());
    v
}
fn ml(a: &[isize]) -> Vec<isize> { a.iter().map(|x| m(*x)).collect() }

macro_rules! key {
    ($name:expr, $l:expr, $x:expr $(, $y:expr)*) => { format_args!("{} {} {:?}", $name, format_args!($x $(, $y)*), $l) };
}
macro_rules! got {
    ($e:expr) => {
        match $e { Ok(t) => logical(&t), Err(e) => Err(format!("{e:?}")) }
    };
}
/// the same expression on the array in row-major and on the reversed array in column-major convention,
/// with arguments that differ given as pairs
macro_rules! go {
    ($cx:expr, $k:expr, $t:ident, ($($v:ident = $a:expr, $b:expr);*), $e:expr) => {{
        dual($cx, $k, || { let ($t, _z) = &$t.0; $(let $v = $a;)* $e }, || { let ($t, _z) = &$t.1; $(let $v = $b;)* $e })
    }};
}

fn scalar<T: Clone, E: Debug>(r: Result<T, E>) -> Got<T> {
    r.map(|x| Nd::new(&[], vec![x])).map_err(|e| format!("{e:?}"))
}

macro_rules! family {
    ($mo:ident, $dev:expr) => {
        mod $mo {
            use super::*;
            const NAME: &str = stringify!($mo);
            /// operations of one array
            pub fn unary(cx: &mut Cx, l: &Lay, th: bool) {
                let (dr, dc) = $dev;
                let n = l.ndim();
                let lr = rev(l);
                let ri = raw_i64(l.len, -7);
                let rf: Vec<f64> = ri.iter().map(|x| (*x % 11) as f64).collect();
                let rb: Vec<bool> = ri.iter().map(|x| x % 5 > 1).collect();
                // values with many ties
                let rt_: Vec<i64> = ri.iter().map(|x| x.rem_euclid(3)).collect();
                let t = ((tensor(ri.clone(), l, &dr), dr.clone()), (tensor(ri.clone(), &lr, &dc), dc.clone()));
                let tt = ((tensor(rt_.clone(), l, &dr), dr.clone()), (tensor(rt_.clone(), &lr, &dc), dc.clone()));
                let f = ((tensor(rf.clone(), l, &dr), dr.clone()), (tensor(rf.clone(), &lr, &dc), dc.clone()));
                let b = ((tensor(rb.clone(), l, &dr), dr.clone()), (tensor(rb.clone(), &lr, &dc), dc.clone()));
                cx.state(&(stringify!($mo), l));
                // views
                for p in permutations(n) {
                    let p: Vec<isize> = p.into_iter().map(|x| x as isize).collect();
                    let q: Vec<isize> = p.iter().rev().map(|x| n as isize - 1 - x).collect();
                    go!(cx, key!(NAME, l, "transpose {:?}", p), t, (p = p.clone(), q.clone()), got!(t.transpose_f(p)));
                }
                for a in axes(n) {
                    go!(cx, key!(NAME, l, "flip {}", a), t, (a = a, m(a)), got!(t.flip_f(a)));
                    go!(cx, key!(NAME, l, "squeeze {}", a), t, (a = a, m(a)), got!(t.squeeze_f(a)));
                    go!(cx, key!(NAME, l, "expand_dims {}", a), t, (a = a, m(a)), got!(t.expand_dims_f(a)));
                    for c in axes(n) {
                        go!(cx, key!(NAME, l, "swapaxes {} {}", a, c), t, (a = a, m(a); c = c, m(c)), got!(t.swapaxes_f(a, c)));
                        go!(cx, key!(NAME, l, "moveaxis {} {}", a, c), t, (a = a, m(a); c = c, m(c)), got!(t.moveaxis_f(a, c)));
                    }
                }
                go!(cx, key!(NAME, l, "reverse_axes"), t, (), logical(&t.reverse_axes()));
                // the default slice of the first axis is a slice of the last one
                if n > 0 {
                    let ell = |s: (Option<isize>, Option<isize>, Option<isize>)| Indexer::Slice(Slice::new(s.0, s.1, s.2));
                    for s in [(Some(1), None, None), (None, Some(-1), None), (None, None, Some(-1)), (None, None, Some(2)), (Some(-1), None, Some(-2))] {
                        let mut x = vec![Indexer::Slice(Slice::new(None, None, None)); n - 1];
                        let mut y = x.clone();
                        x.insert(0, ell(s));
                        y.push(ell(s));
                        go!(cx, key!(NAME, l, "slice {:?}", s), t, (x = x.clone(), y.clone()), got!(t.slice_f(x.as_slice())));
                    }
                    for i in [0isize, 1, -1, 5] {
                        let mut x = vec![Indexer::Slice(Slice::new(None, None, None)); n - 1];
                        let mut y = x.clone();
                        x.insert(0, Indexer::Select(i));
                        y.push(Indexer::Select(i));
                        go!(cx, key!(NAME, l, "index {}", i), t, (x = x.clone(), y.clone()), got!(t.slice_f(x.as_slice())));
                    }
                }
                // reshape, copies
                let size = l.size();
                let mut targets = vec![vec![size], vec![1, size], vec![size, 1], vec![2, size / 2], vec![size / 2, 2], vec![3, size / 3], vec![2, 1, size / 2], vec![2, 2, size / 4], vec![size / 6, 2, 3]];
                targets.push(l.shape.clone());
                targets.dedup();
                for s in &targets {
                    go!(cx, key!(NAME, l, "reshape {:?}", s), t, (s = s.clone(), revu(s)), got!(t.reshape_f(s)));
                    go!(cx, key!(NAME, l, "into_shape {:?}", s), t, (s = s.clone(), revu(s)), got!(t.to_owned().into_shape_f(s)));
                    let mut s2: Vec<isize> = s.iter().map(|x| *x as isize).collect();
                    if let Some(x) = s2.first_mut() { *x = -1 }
                    go!(cx, key!(NAME, l, "reshape {:?}", s2), t, (s = s2.clone(), revu(&s2)), got!(t.reshape_f(s)));
                }
                let mut bt = vec![l.shape.clone(), [vec![2], l.shape.clone()].concat(), [vec![3, 1], l.shape.clone()].concat()];
                bt.push(l.shape.iter().map(|x| if *x == 1 { 3 } else { *x }).collect());
                bt.push(l.shape.iter().map(|x| x + 1).collect());
                if n > 0 { bt.push(l.shape[1..].to_vec()); }
                for s in &bt {
                    go!(cx, key!(NAME, l, "to_broadcast {:?}", s), t, (s = s.clone(), revu(s)), got!(t.to_broadcast_f(s)));
                }
                go!(cx, key!(NAME, l, "to_contig"), t, (o = ROW, COL), got!(t.to_contig_f(o)));
                go!(cx, key!(NAME, l, "to_prefer"), t, (o = ROW, COL), got!(t.to_prefer_f(o)));
                go!(cx, key!(NAME, l, "to_owned"), t, (), logical(&t.view().into_owned()));
                // iteration gives the same sequence
                cx.case(key!(NAME, l, "iteration order"), || {
                    let (x, y): (Vec<i64>, Vec<i64>) = (t.0.0.iter().copied().collect(), t.1.0.iter().copied().collect());
                    if x == y { Ok(Out::Val) } else { Err(format!("row-major {x:?}, column-major {y:?}")) }
                });
                cx.case(key!(NAME, l, "indexed iteration"), || {
                    let x: Vec<(Vec<usize>, i64)> = t.0.0.indexed_iter().map(|(i, v)| (i.iter().copied().collect::<Vec<_>>(), *v)).collect();
                    let y: Vec<(Vec<usize>, i64)> = t.1.0.indexed_iter().map(|(i, v)| (i.iter().rev().copied().collect::<Vec<_>>(), *v)).collect();
                    if x == y { Ok(Out::Val) } else { Err(format!("row-major {x:?}, column-major {y:?}")) }
                });
                // reductions
                macro_rules! red {
                    ($t:ident, $name:literal, $all:ident, $ax:ident) => {
                        go!(cx, key!(NAME, l, concat!($name, " all")), $t, (), scalar($t.$all()));
                        for a in axes(n) { go!(cx, key!(NAME, l, concat!($name, " {}"), a), $t, (a = a, m(a)), got!($t.$ax(a))); }
                        for a in lists(n) { go!(cx, key!(NAME, l, concat!($name, " {:?}"), a), $t, (a = a.clone(), ml(&a)), got!($t.$ax(a))); }
                    };
                }
                red!(t, "sum", sum_all_f, sum_axes_f);
                red!(t, "min", min_all_f, min_axes_f);
                red!(t, "max", max_all_f, max_axes_f);
                red!(f, "prod", prod_all_f, prod_axes_f);
                red!(b, "all", all_all_f, all_axes_f);
                red!(b, "any", any_all_f, any_axes_f);
                red!(t, "count_nonzero", count_nonzero_all_f, count_nonzero_axes_f);
                if th || n <= 2 {
                    // sums of different order may round differently
                    macro_rules! fred {
                        ($name:literal, $all:ident, $ax:ident) => {
                            go!(cx, key!(NAME, l, concat!($name, " all")), f, (), scalar(f.$all().map(round)));
                            for a in lists(n) { go!(cx, key!(NAME, l, concat!($name, " {:?}"), a), f, (a = a.clone(), ml(&a)), got!(f.$ax(a)).map(|x| x.map(|v| round(*v)))); }
                        };
                    }
                    fred!("mean", mean_all_f, mean_axes_f);
                    fred!("var", var_all_f, var_axes_f);
                    fred!("std", std_all_f, std_axes_f);
                    fred!("l2_norm", l2_norm_all_f, l2_norm_axes_f);
                }
                for a in axes(n) {
                    go!(cx, key!(NAME, l, "argmin {}", a), tt, (a = a, m(a)), got!(tt.argmin_axes_f(a)));
                    go!(cx, key!(NAME, l, "argmax {}", a), tt, (a = a, m(a)), got!(tt.argmax_axes_f(a)));
                }
                cx.case(key!(NAME, l, "unraveled_argmax of distinct values"), || {
                    if l.has_bcast() { return Ok(Out::Skip) }
                    let (x, y) = (t.0.0.unraveled_argmax_all_f(), t.1.0.unraveled_argmax_all_f());
                    match (x, y) {
                        (Ok(x), Ok(y)) if x.as_ref() as &[usize] == revu(y.as_ref()) => Ok(Out::Val),
                        (Err(_), Err(_)) => Ok(Out::Rej),
                        (x, y) => Err(format!("row-major {x:?}, column-major {y:?}")),
                    }
                });
                // selection
                for a in axes(n) {
                    for ix in [vec![], vec![0isize], vec![1, 0], vec![-1, 0, 0], vec![5]] {
                        go!(cx, key!(NAME, l, "index_select {} {:?}", a, ix), t, (a = a, m(a)), got!(t.index_select_f(a, &ix)));
                    }
                    for mask in [vec![], vec![true], vec![true, false], vec![false, true, true]] {
                        go!(cx, key!(NAME, l, "bool_select {} {:?}", a, mask), t, (a = a, m(a)), got!(t.bool_select_f(a, &mask)));
                    }
                    go!(cx, key!(NAME, l, "concat {}", a), t, (a = a, m(a)), got!(rt::concat_f((vec![t.view(), t.view()], a))));
                    go!(cx, key!(NAME, l, "stack {}", a), t, (a = a, m(a)), got!(rt::stack_f((vec![t.view(), t.view(), t.view()], a))));
                    for w in 0..2 {
                        go!(cx, key!(NAME, l, "unstack {} part {}", a, w), t, (a = a, m(a)), match rt::unstack_f((t.view(), a)) {
                            Ok(v) => match v.get(w) { Some(x) => logical(x), None => Err("none".into()) },
                            Err(e) => Err(format!("{e:?}")),
                        });
                    }
                }
                // triangles: the lower one of the transpose is the upper one
                if n == 2 {
                    for o in [-2isize, -1, 0, 1, 2] {
                        dual(cx, key!(NAME, l, "tril {}", o), || got!(rt::tril_f((t.0.0.view(), o))), || got!(rt::triu_f((t.1.0.view(), -o))));
                        dual(cx, key!(NAME, l, "triu {}", o), || got!(rt::triu_f((t.0.0.view(), o))), || got!(rt::tril_f((t.1.0.view(), -o))));
                        dual(cx, key!(NAME, l, "diagonal {}", o), || got!(t.0.0.diagonal_f(o)), || got!(t.1.0.diagonal_f(-o)));
                    }
                    dual(cx, key!(NAME, l, "pack_tril"), || got!(t.0.0.pack_tril_f()), || got!(t.1.0.pack_triu_f()));
                    dual(cx, key!(NAME, l, "pack_triu"), || got!(t.0.0.pack_triu_f()), || got!(t.1.0.pack_tril_f()));
                }
                if n == 1 {
                    for s in [FlagSymm::Sy, FlagSymm::Ay, FlagSymm::N] {
                        dual(cx, key!(NAME, l, "unpack_tril {:?}", s), || got!(f.0.0.unpack_tril_f(s)), || got!(f.1.0.unpack_triu_f(s)));
                        dual(cx, key!(NAME, l, "unpack_triu {:?}", s), || got!(f.0.0.unpack_triu_f(s)), || got!(f.1.0.unpack_tril_f(s)));
                    }
                }
                // element-wise and in place
                go!(cx, key!(NAME, l, "neg"), t, (), logical(&(-t)));
                go!(cx, key!(NAME, l, "scalar"), t, (), logical(&(t * 3 - 2)));
                go!(cx, key!(NAME, l, "mapv"), t, (), logical(&t.mapv(|x| x * 5 + 1)));
                if !l.has_bcast() {
                    for (name, fill) in [("fill", true), ("mapvi", false)] {
                        dual(cx, key!(NAME, l, "{}", name),
                            || { let mut x = tensor(ri.clone(), l, &dr); if fill { x.view_mut().fill(9) } else { x.mapvi(|v| v * 2) }; Ok(Nd::new(&[l.len], x.raw().clone())) },
                            || { let mut x = tensor(ri.clone(), &lr, &dc); if fill { x.view_mut().fill(9) } else { x.mapvi(|v| v * 2) }; Ok(Nd::new(&[l.len], x.raw().clone())) });
                    }
                }
            }

            /// operations of two arrays
            pub fn binary(cx: &mut Cx, a: &Lay, b: &Lay) {
                let (dr, dc) = $dev;
                let (ar, br) = (rev(a), rev(b));
                let (ra, rb) = (raw_i64(a.len, -4), raw_i64(b.len, 5));
                let (fa, fb): (Vec<f64>, Vec<f64>) = (ra.iter().map(|x| *x as f64).collect(), rb.iter().map(|x| (*x % 7) as f64).collect());
                let t = ((tensor(ra.clone(), a, &dr), tensor(rb.clone(), b, &dr)), (tensor(ra.clone(), &ar, &dc), tensor(rb.clone(), &br, &dc)));
                let f = ((tensor(fa.clone(), a, &dr), tensor(fb.clone(), b, &dr)), (tensor(fa.clone(), &ar, &dc), tensor(fb.clone(), &br, &dc)));
                cx.state(&(stringify!($mo), a, b));
                macro_rules! both { ($name:literal, $t:ident, $u:ident, $src:ident, $e:expr) => {
                    dual(cx, key!(NAME, (a, b), $name), || { let ($t, $u) = &$src.0; $e }, || { let ($t, $u) = &$src.1; $e })
                } }
                both!("sub", x, y, t, got!(rt::sub_f(x, y)));
                both!("lt", x, y, t, got!(rt::less_f(x, y)));
                both!("maximum", x, y, t, got!(rt::maximum_f(x, y)));
                both!("div", x, y, f, got!(rt::div_f(x, y)));
                both!("consume", x, y, t, got!(rt::sub_f(x.to_owned(), y.to_owned())));
                if !a.has_bcast() {
                    dual(cx, key!(NAME, (a, b), "sub_assign"),
                        || { let mut x = tensor(ra.clone(), a, &dr); rt::sub_assign_f(&mut x, &t.0.1).map_err(|e| format!("{e:?}"))?; Ok(Nd::new(&[a.len], x.raw().clone())) },
                        || { let mut x = tensor(ra.clone(), &ar, &dc); rt::sub_assign_f(&mut x, &t.1.1).map_err(|e| format!("{e:?}"))?; Ok(Nd::new(&[a.len], x.raw().clone())) });
                    dual(cx, key!(NAME, (a, b), "assign"),
                        || { let mut x = tensor(ra.clone(), a, &dr); x.view_mut().assign_f(&t.0.1).map_err(|e| format!("{e:?}"))?; Ok(Nd::new(&[a.len], x.raw().clone())) },
                        || { let mut x = tensor(ra.clone(), &ar, &dc); x.view_mut().assign_f(&t.1.1).map_err(|e| format!("{e:?}"))?; Ok(Nd::new(&[a.len], x.raw().clone())) });
                }
                // (A B)^T = B^T A^T
                dual(cx, key!(NAME, (a, b), "matmul"), || got!(rt::matmul_f(&t.0.0, &t.0.1)), || got!(rt::matmul_f(&t.1.1, &t.1.0)));
                dual(cx, key!(NAME, (a, b), "matmul f64"), || got!(rt::matmul_f(&f.0.0, &f.0.1)), || got!(rt::matmul_f(&f.1.1, &f.1.0)));
                let n = a.ndim().min(b.ndim());
                for ax in axes(n) {
                    // a non-negative axis counts in each operand by itself
                    if ax >= 0 && a.ndim() != b.ndim() { continue }
                    dual(cx, key!(NAME, (a, b), "vecdot {}", ax), || got!(rt::vecdot_f(&t.0.0, &t.0.1, ax)), || got!(rt::vecdot_f(&t.1.0, &t.1.1, m(ax))));
                }
                for ax in axes(n) {
                    dual(cx, key!(NAME, (a, b), "concat {}", ax), || got!(rt::concat_f((vec![t.0.0.view(), t.0.1.view()], ax))), || got!(rt::concat_f((vec![t.1.0.view(), t.1.1.view()], m(ax)))));
                    dual(cx, key!(NAME, (a, b), "stack {}", ax), || got!(rt::stack_f((vec![t.0.0.view(), t.0.1.view()], ax))), || got!(rt::stack_f((vec![t.1.0.view(), t.1.1.view()], m(ax)))));
                }
                for i in 0..2 {
                    dual(cx, key!(NAME, (a, b), "broadcast_arrays {}", i),
                        || match rt::broadcast_arrays_f(vec![t.0.0.view(), t.0.1.view()]) { Ok(v) => logical(&v[i]), Err(e) => Err(format!("{e:?}")) },
                        || match rt::broadcast_arrays_f(vec![t.1.0.view(), t.1.1.view()]) { Ok(v) => logical(&v[i]), Err(e) => Err(format!("{e:?}")) });
                }
            }

            pub fn creation(cx: &mut Cx, s: &[usize]) {
                let (dr, dc) = $dev;
                let r = revu(s);
                cx.state(&(stringify!($mo), "creation", s));
                dual(cx, key!(NAME, s, "zeros"), || got!(rt::zeros_f((s.to_vec(), &dr)).map(|x: Tensor<i64, _, IxD>| x)), || got!(rt::zeros_f((r.clone(), &dc)).map(|x: Tensor<i64, _, IxD>| x)));
                dual(cx, key!(NAME, s, "full"), || got!(rt::full_f((s.to_vec(), 5i64, &dr))), || got!(rt::full_f((r.clone(), 5i64, &dc))));
                for extra in [0, 1, 3] {
                    let v: Vec<i64> = (0..(prod(s) + extra) as i64).collect();
                    dual(cx, key!(NAME, s, "asarray +{}", extra), || got!(rt::asarray_f((v.clone(), s.to_vec(), &dr))), || got!(rt::asarray_f((v.clone(), r.clone(), &dc))));
                }
                let v: Vec<i64> = (0..prod(s) as i64).collect();
                dual(cx, key!(NAME, s, "arange reshaped"), || got!(rt::asarray_f((v.clone(), &dr)).and_then(|x| x.into_shape_f(s.to_vec()))), || got!(rt::asarray_f((v.clone(), &dc)).and_then(|x| x.into_shape_f(r.clone()))));
                if s.len() == 2 {
                    for o in -3isize..=3 {
                        dual(cx, key!(NAME, s, "eye {}", o), || got!(rt::eye_f((s[0], s[1], o, &dr)).map(|x: Tensor<i64, _, IxD>| x)), || got!(rt::eye_f((s[1], s[0], -o, &dc)).map(|x: Tensor<i64, _, IxD>| x)));
                    }
                }
            }
        }
    };
}
family!(ser, (serial(true), serial(false)));
family!(par, devs());
fn devs() -> (DeviceFaer, DeviceFaer) {
    static D: std::sync::OnceLock<(DeviceFaer, DeviceFaer)> = std::sync::OnceLock::new();
    D.get_or_init(|| (faer(true, 2), faer(false, 2))).clone()
}
fn round(x: f64) -> i128 {
    if x.is_nan() { i128::MIN } else { (x * 1e9).round() as i128 }
}

fn main() {
    fw::main("P22", |r| {
        let th = r.thorough();
        let mut items = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) {
            for l in layouts_dev(&s, &ALL_KINDS, if s.len() < 3 { 3 } else { r.pick(2, 3) }) { items.push(l) }
        }
        for s in shapes(4, 4, &[1, 2]) {
            for l in layouts_dev(&s, &ALL_KINDS, r.pick(1, 2)) { items.push(l) }
        }
        r.bound(format!("one array: {} layouts of rank 0 to 4 (all layouts up to rank 2, within {} deviation(s) of contiguous above), every operation with every axis (negative and not existing ones too) and axis list, serial and rayon/faer devices", items.len(), r.pick(2, 3)));
        r.par("one array, serial", &items, |cx, l| ser::unary(cx, l, th));
        r.par("one array, rayon", &items, |cx, l| par::unary(cx, l, th));
        let sh: Vec<Vec<usize>> = shapes(0, 3, r.pick(&[1, 2, 3][..], &[0, 1, 2, 3][..])).into_iter().chain(shapes(0, 2, &[0, 1, 2, 3])).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let mut pairs = vec![];
        for a in &sh { for b in &sh {
            for la in layouts_dev(a, &ALL_KINDS, 1) { for lb in layouts_dev(b, &ALL_KINDS, 1) {
                if th || a.len() + b.len() <= 4 || la == c_contig(a) || lb == c_contig(b) { pairs.push((la.clone(), lb)) }
            } }
        } }
        for a in shapes(4, 4, &[1, 2]) { for b in shapes(2, 4, &[1, 2]) {
            pairs.push((c_contig(&a), c_contig(&b)));
            pairs.push((c_contig(&b), f_contig(&a)));
        } }
        r.bound(format!("two arrays: {} pairs of layouts within one deviation of contiguous, all pairs of shapes of rank up to 3 (and 4), fitting or not", pairs.len()));
        r.assume("flat positions of argmin/argmax are row-major in both conventions, so only single axes and unravelled positions are compared; triangles of stacks are left out");
        r.par("two arrays, serial", &pairs, |cx, (a, b)| ser::binary(cx, a, b));
        r.par("two arrays, rayon", &pairs, |cx, (a, b)| par::binary(cx, a, b));
        let sh = shapes(0, 4, &[0, 1, 2, 3]);
        r.par("creation", &sh, |cx, s| { ser::creation(cx, s); par::creation(cx, s) });
    });
}
