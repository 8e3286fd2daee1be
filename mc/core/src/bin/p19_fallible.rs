//! P19: the fallible functions never panic, whatever the arguments, and what they accept addresses only its buffer.
//! (Which arguments must be accepted, and with what result, is decided by the other checks of this framework.)
use core_mc::*;

/// the interesting values for an axis, index, offset or extent of an object whose size is n
fn ext(n: usize, wide: bool) -> Vec<isize> {
    let n = n as isize;
    let mut v = vec![isize::MIN, -n - 1, -n, -1, 0, 1, n - 1, n, n + 1, isize::MAX];
    if wide { v.extend([isize::MIN + 1, isize::MIN / 2, -n - 2, 2, n + 2, isize::MAX / 2, isize::MAX - 1]) }
    v.sort();
    v.dedup();
    v
}
fn exu(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n, n + 1, 1 << 31, 1 << 32, (1 << 62) + 1, usize::MAX / 2, usize::MAX];
    v.sort();
    v.dedup();
    v
}
fn opt(v: &[isize]) -> Vec<Option<isize>> {
    std::iter::once(None).chain(v.iter().map(|x| Some(*x))).collect()
}
fn pairs(v: &[isize]) -> Vec<[isize; 2]> {
    v.iter().flat_map(|a| v.iter().map(|b| [*a, *b])).collect()
}

/// Accepted results must be readable where their layout says.
trait Probe { fn probe(&self) -> Result<(), String>; }
impl<R, T: Clone, B, D> Probe for TensorAny<R, T, B, D>
where R: DataAPI<Data = Vec<T>>, B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>>, D: rstsr_common::prelude_dev::DimAPI
{
    fn probe(&self) -> Result<(), String> {
        match self.layout().shape().as_ref().iter().try_fold(1usize, |a, b| a.checked_mul(*b)) {
            _ if self.layout().shape().as_ref().contains(&0) => Ok(()),
            None => Err(format!("the size of the shape {:?} overflows", self.layout().shape())),
            Some(n) if n > 1_000_000 => Ok(()), // an explicit broadcast to a huge shape
            _ => logical(self).map(|_| ()),
        }
    }
}
impl<P: Probe> Probe for Vec<P> { fn probe(&self) -> Result<(), String> { self.iter().try_for_each(|p| p.probe()) } }
impl<P: Probe, Q: Probe> Probe for (P, Q) { fn probe(&self) -> Result<(), String> { self.0.probe()?; self.1.probe() } }
impl Probe for bool { fn probe(&self) -> Result<(), String> { Ok(()) } }
impl Probe for i64 { fn probe(&self) -> Result<(), String> { Ok(()) } }
impl Probe for usize { fn probe(&self) -> Result<(), String> { Ok(()) } }
impl Probe for () { fn probe(&self) -> Result<(), String> { Ok(()) } }

macro_rules! chk {
    ($cnt:expr, $what:expr, $e:expr) => {
        match call(|| $e) {
            Err(p) => $cnt.1.push(format!("{} panicked: {p}", $what)),
            Ok(Err(_)) => {},
            Ok(Ok(t)) => { $cnt.0 += 1; if let Err(e) = t.probe() { $cnt.1.push(format!("{} accepted: {e}", $what)) } }
        }
    };
}

type Cnt = (u64, Vec<String>);
fn done(mut cnt: Cnt) -> Res {
    if cnt.1.is_empty() { return if cnt.0 > 0 { Ok(Out::Val) } else { Ok(Out::Rej) } }
    let n = cnt.1.len();
    cnt.1.truncate(6);
    Err(format!("{n} call(s): {}", cnt.1.join("; ")))
}

macro_rules! creation {
    ($cx:expr, $name:expr, $d:expr, $dt:ty) => {{
        let d = $d;
        $cx.state(&("creation", $name.to_string()));
        macro_rules! group { ($g:literal, $cnt:ident, $b:block) => { $cx.case(format_args!("{}|{}", $name, $g), || { let mut $cnt = (0u64, vec![]); $b; done($cnt) }); }; }
        let ex = [0usize, 1, 2, 3, 1 << 62, (1 << 62) + 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
        let mut shps: Vec<Vec<usize>> = vec![vec![]];
        for &a in &ex { shps.push(vec![a]); for &b in &ex { shps.push(vec![a, b]); for &e in &ex { shps.push(vec![a, b, e]) } } }
        group!("filled arrays", c, {
            for s in &shps {
                chk!(c, format!("zeros {s:?}"), { let r: Result<Tensor<i64, $dt, IxD>, _> = rt::zeros_f((s.clone(), &d)); r });
                chk!(c, format!("ones {s:?}"), { let r: Result<Tensor<i64, $dt, IxD>, _> = rt::ones_f((s.clone(), &d)); r });
                chk!(c, format!("zeros column-major {s:?}"), { let r: Result<Tensor<i64, $dt, IxD>, _> = rt::zeros_f((s.clone(), ColMajor, &d)); r });
                chk!(c, format!("full {s:?}"), { let r: Result<Tensor<i64, $dt, IxD>, _> = rt::full_f((s.clone(), 3i64, &d)); r });
                chk!(c, format!("full row-major {s:?}"), { let r: Result<Tensor<i64, $dt, IxD>, _> = rt::full_f((s.clone(), 3i64, RowMajor, &d)); r });
                chk!(c, format!("empty {s:?}"), unsafe { let r: Result<Tensor<i64, $dt, IxD>, _> = rt::empty_f((s.clone(), &d)); r.map(|_| ()) });
                if s.len() == 3 {
                    let f = [s[0], s[1], s[2]];
                    chk!(c, format!("zeros fixed {s:?}"), { let r: Result<Tensor<i64, $dt, _>, _> = rt::zeros_f((f, &d)); r });
                    chk!(c, format!("ones fixed column-major {s:?}"), { let r: Result<Tensor<i64, $dt, _>, _> = rt::ones_f((f, ColMajor, &d)); r });
                }
            }
        });
        group!("identity matrices", c, {
            for &a in &ex {
                chk!(c, format!("eye {a}"), { let r: Result<Tensor<i64, $dt, _>, _> = rt::eye_f((a, &d)); r });
                for &b in &ex { for k in ext(2, true) { for o in [RowMajor, ColMajor] {
                    chk!(c, format!("eye {a} {b} {k} {o:?}"), { let r: Result<Tensor<i64, $dt, _>, _> = rt::eye_f((a, b, k, o, &d)); r });
                } } }
            }
        });
        group!("progressions", c, {
            for a in [i64::MIN, -2, 0, 1, i64::MAX] { for n in 0..3i64 { for s in [i64::MIN, -1, 0, 1, 2, i64::MAX] {
                let (a2, b2) = if s < 0 { (a, a.saturating_sub(n)) } else { (a, a.saturating_add(n)) };
                chk!(c, format!("arange {a2} {b2} {s}"), rt::arange_f((a2, b2, s, &d)));
                chk!(c, format!("arange {b2} {a2} {s}"), rt::arange_f((b2, a2, s, &d)));
            } } }
            let f = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0, -0.0, f64::MAX, f64::MIN_POSITIVE];
            for &a in &f { for &b in &f { for &s in &f {
                let count = (b - a) / s;
                if count.is_nan() || count < 1e3 { chk!(c, format!("arange {a} {b} {s}"), rt::arange_f((a, b, s, &d)).map(|_| ())); }
                for n in [0usize, 1, 2, 3, usize::MAX / 2, usize::MAX] { for e in [true, false] {
                    chk!(c, format!("linspace {a} {b} {n} {e}"), rt::linspace_f((a, b, n, e, &d)).map(|_| ()));
                } }
            } } }
        });
        group!("arrays from data", c, {
            for len in 0..5usize {
                for s in &shps {
                    chk!(c, format!("asarray of {len} as {s:?}"), rt::asarray_f((vec![1i64; len], s.clone(), &d)));
                    chk!(c, format!("asarray of {len} as column-major {s:?}"), rt::asarray_f((vec![1i64; len], s.clone().new_contig(None, ColMajor), &d)));
                }
                for a in ext(2, true) { for b in ext(2, true) { for sh in [0usize, 1, 2, usize::MAX] { for off in [0usize, 1, 4, usize::MAX / 2 + 1, usize::MAX] {
                    chk!(c, format!("array of {len} with shape [{sh}, 2] strides [{a}, {b}] offset {off}"),
                        Layout::new(vec![sh, 2], vec![a, b], off).and_then(|l| rt::asarray_f((vec![1i64; len], l, &d))));
                    chk!(c, format!("borrowed array of {len} with shape [{sh}] stride [{a}] offset {off}"),
                        Layout::new(vec![sh], vec![a], off).and_then(|l| rt::asarray_f((&vec![1i64; len], l, &d)).map(|_| ())));
                } } } }
            }
        });
    }};
}
macro_rules! mixed {
    ($cx:expr, $name:expr, $d:expr, $a:expr, $b:expr) => {{
        let (d, a, b): (_, &Lay, &Lay) = ($d, $a, $b);
        $cx.state(&("mixed", $name.to_string(), a, b));
        $cx.case(format_args!("{}|{a:?} and {b:?}", $name), || {
            let mut c: Cnt = (0, vec![]);
            let x = tensor(raw_i64(a.len, 5), a, &d);
            let y = tensor(raw_i64(b.len, 7), b, &d);
            chk!(c, "add", rt::add_f(&x, &y));
            chk!(c, "view + view", rt::sub_f(x.view(), y.view()));
            chk!(c, "owned + owned", rt::mul_f(x.to_owned(), y.to_owned()));
            chk!(c, "owned - ref", rt::sub_f(x.to_owned(), &y));
            chk!(c, "less", rt::less_f(&x, &y));
            chk!(c, "maximum", rt::maximum_f(&x, &y));
            let fresh = |l: &Lay| tensor(raw_i64(l.len, 1), l, &d);
            if !a.has_bcast() {
                chk!(c, "assign", { let mut z = fresh(a); z.assign_f(&y).map(|_| z) });
                chk!(c, "add_assign", { let mut z = fresh(a); rt::add_assign_f(&mut z, &y).map(|_| z) });
                chk!(c, "matmul_into", { let mut z = fresh(a); z.matmul_from_f(&x, &y, 1, 1).map(|_| z) });
                chk!(c, "matmul_into 2", { let mut z = fresh(a); z.matmul_from_f(&y, &x, 1, 0).map(|_| z) });
                chk!(c, "add into", { let mut z = fresh(a); rt::add_with_output_f(&x, &y, &mut z).map(|_| z) });
                chk!(c, "add into 2", { let mut z = fresh(a); rt::add_with_output_f(&y, &y, &mut z).map(|_| z) });
            }
            chk!(c, "matmul", rt::matmul_f(&x, &y));
            chk!(c, "matmul of views", rt::matmul_f(x.view(), y.view()));
            for ax in [isize::MIN, -3, -2, -1, 0, 1, 2, isize::MAX] {
                chk!(c, format!("stack {ax}"), rt::stack_f((vec![x.view(), y.view()], ax)));
                chk!(c, format!("concat {ax}"), rt::concat_f((vec![x.view(), y.view()], ax)));
                chk!(c, format!("vecdot {ax}"), rt::vecdot_f(&x, &y, ax));
            }
            chk!(c, "vstack", rt::vstack_f(vec![x.view(), y.view()]));
            chk!(c, "hstack", rt::hstack_f(vec![x.view(), y.view()]));
            chk!(c, "vecdot of axes", rt::vecdot_f(&x, &y, ([0isize], [-1isize])));
            chk!(c, "vecdot of no axes", rt::vecdot_f(&x, &y, (Vec::<isize>::new(), Vec::<isize>::new())));
            chk!(c, "broadcast to", rt::to_broadcast_f(&x, b.shape.clone()));
            chk!(c, "broadcast arrays", rt::broadcast_arrays_f(vec![x.to_owned(), y.to_owned(), x.to_owned()]));
            chk!(c, "meshgrid", rt::meshgrid_f((vec![&x, &y], "ij", true)));
            chk!(c, "meshgrid xy", rt::meshgrid_f((vec![&x, &y], "xy", true)));
            done(c)
        });
    }};
}

macro_rules! sweep {
    ($cx:expr, $name:expr, $d:expr, $l:expr, $wide:expr, $dt:ty) => {{
        let (d, l, wide): (_, &Lay, bool) = ($d, $l, $wide);
        $cx.state(&($name, l));
        let nd = l.ndim();
        let ax = ext(nd, wide);
        let big = l.shape.iter().copied().max().unwrap_or(0);
        let ix = ext(big, wide);
        let t0 = tensor(raw_i64(l.len, 5), l, &d);
        let t = t0.view();
        macro_rules! group { ($g:literal, $cnt:ident, $b:block) => { $cx.case(format_args!("{}|{}|{l:?}", $name, $g), || { let mut $cnt = (0u64, vec![]); $b; done($cnt) }); }; }
        group!("axes", c, {
            for &a in &ax {
                chk!(c, format!("expand_dims {a}"), t.expand_dims_f(a));
                chk!(c, format!("into_unsqueeze {a}"), t.view().into_unsqueeze_f(a));
                chk!(c, format!("squeeze {a}"), t.squeeze_f(a));
                chk!(c, format!("flip {a}"), t.flip_f(a));
                chk!(c, format!("unstack {a}"), rt::unstack_f((t.view(), a)));
                chk!(c, format!("transpose [{a}]"), t.transpose_f([a]));
                chk!(c, format!("permute_dims [{a}]"), t.permute_dims_f([a]));
                for order in [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::K, TensorIterOrder::A, TensorIterOrder::G, TensorIterOrder::B] {
                    chk!(c, format!("axes_iter {a} {order:?}"), t.axes_iter_with_order_f(a, order).map(|i| i.take(50).map(|v| v.layout().size()).sum::<usize>()));
                    chk!(c, format!("indexed_axes_iter {a} {order:?}"), t.indexed_axes_iter_with_order_f(a, order).map(|i| i.take(50).map(|(_, v)| v.layout().size()).sum::<usize>()));
                }
                chk!(c, format!("sum_axes {a}"), t.sum_axes_f(a));
                chk!(c, format!("max_axes {a}"), t.max_axes_f(a));
                chk!(c, format!("argmin_axes {a}"), t.argmin_axes_f(a));
                chk!(c, format!("unraveled_argmax_axes {a}"), t.unraveled_argmax_axes_f(a).map(|_| ()));
                for idx in [vec![0isize], vec![], vec![-1, 0], vec![big as isize], vec![isize::MIN], vec![isize::MAX]] {
                    chk!(c, format!("index_select {a} {idx:?}"), t.index_select_f(a, idx.clone()));
                    chk!(c, format!("take {a} {idx:?}"), t.take_f(idx.clone(), a));
                }
                for m in [vec![], vec![true], vec![false; big], vec![true; big], vec![true; big + 1]] {
                    chk!(c, format!("bool_select {a} {m:?}"), t.bool_select_f(a, m.clone()));
                }
                chk!(c, format!("stack {a}"), rt::stack_f((vec![t.view(), t.view()], a)));
                chk!(c, format!("concat {a}"), rt::concat_f((vec![t.view(), t.view()], a)));
                chk!(c, format!("stack of none {a}"), rt::stack_f((Vec::<TensorView<i64, $dt, IxD>>::new(), a)));
                chk!(c, format!("concat of none {a}"), rt::concat_f((Vec::<TensorView<i64, $dt, IxD>>::new(), a)));
            }
        });
        group!("pairs of axes", c, {
            for p in pairs(&ax) {
                let [a, b] = p;
                chk!(c, format!("swapaxes {a} {b}"), t.swapaxes_f(a, b));
                chk!(c, format!("moveaxis {a} {b}"), t.moveaxis_f(a, b));
                chk!(c, format!("moveaxis {p:?} {p:?}"), t.moveaxis_f(p, p));
                chk!(c, format!("moveaxis {p:?} [0]"), t.moveaxis_f(p, [0]));
                chk!(c, format!("transpose {p:?}"), t.transpose_f(p));
                chk!(c, format!("flip {p:?}"), t.flip_f(p));
                chk!(c, format!("squeeze {p:?}"), t.squeeze_f(p));
                chk!(c, format!("expand_dims {p:?}"), t.expand_dims_f(p));
                chk!(c, format!("sum_axes {p:?}"), t.sum_axes_f(p));
                chk!(c, format!("min_axes {p:?}"), t.min_axes_f(p));
                chk!(c, format!("argmax_axes {p:?}"), t.argmax_axes_f(p));
                chk!(c, format!("axes_iter {p:?}"), t.axes_iter_f(p).map(|i| i.take(50).map(|v| v.layout().size()).sum::<usize>()));
                for o in [isize::MIN, isize::MIN + 1, -1, 0, 1, isize::MAX] {
                    chk!(c, format!("diagonal {o} {p:?}"), t.diagonal_f((o, a, b)));
                }
                chk!(c, format!("vecdot {p:?}"), rt::vecdot_f(&t, &t, ([a], [b])));
                chk!(c, format!("vecdot {p:?} twice"), rt::vecdot_f(&t, &t, (p, p)));
                chk!(c, format!("vecdot 1 to 2 {p:?}"), rt::vecdot_f(&t, &t, ([a], p)));
            }
            for &a in &ax { chk!(c, format!("vecdot {a}"), rt::vecdot_f(&t, &t, a as isize)); }
        });
        group!("indices and slices", c, {
            for &a in &ix {
                chk!(c, format!("i({a})"), t.i_f(a));
                chk!(c, format!("i(.., {a})"), t.i_f((.., a)));
                chk!(c, format!("i(..., {a})"), t.i_f((Ellipsis, a)));
                chk!(c, format!("i({a}, ..., {a})"), t.i_f((a, Ellipsis, a)));
                chk!(c, format!("i(..., ..., {a})"), t.i_f((Ellipsis, Ellipsis, a)));
                chk!(c, format!("i(newaxis, {a}, newaxis)"), t.i_f((NewAxis, a, NewAxis)));
                for &b in &ix {
                    chk!(c, format!("i({a}, {b})"), t.i_f((a, b)));
                    chk!(c, format!("i({a}..{b})"), t.i_f(a..b));
                    for st in [isize::MIN, -2, -1, 0, 1, 2, isize::MAX] {
                        chk!(c, format!("i({a}:{b}:{st})"), t.i_f(slice!(a, b, st)));
                        chk!(c, format!("i(..., {a}:{b}:{st})"), t.i_f((Ellipsis, slice!(a, b, st))));
                    }
                }
            }
            for &a in &opt(&ix) { for &st in &opt(&ix) { chk!(c, format!("i({a:?}::{st:?})"), t.i_f(SliceI::new(a, None, st))); chk!(c, format!("i(:{a:?}:{st:?})"), t.i_f(SliceI::new(None, a, st))); } }
        });
        group!("shapes", c, {
            for &a in &ext(l.size(), true) {
                chk!(c, format!("reshape {a}"), t.reshape_f(a));
                chk!(c, format!("reshape [{a}]"), t.reshape_f([a]));
                for &b in &ext(l.size(), true) {
                    chk!(c, format!("to_shape [{a}, {b}]"), t.to_shape_f([a, b]));
                    chk!(c, format!("into_shape [{a}, {b}]"), t.view().into_shape_f([a, b]));
                    chk!(c, format!("change_shape [{a}, {b}]"), t.view().change_shape_f([a, b]));
                    for &e in &[-1isize, 0, 1, 2, isize::MAX, isize::MIN] { chk!(c, format!("reshape [{a}, {b}, {e}]"), t.reshape_f([a, b, e])); }
                }
            }
            for &a in &exu(l.size()) {
                chk!(c, format!("broadcast [{a}]"), t.to_broadcast_f(vec![a]));
                chk!(c, format!("reshape_assume_contig [{a}]"), t.reshape_assume_contig_f(vec![a]));
                chk!(c, format!("compatible shape [{a}]"), t.to_compatible_shape_f(vec![a], ROW));
                for &b in &exu(big) {
                    chk!(c, format!("broadcast [{a}, {b}]"), t.to_broadcast_f(vec![a, b]));
                    chk!(c, format!("into_broadcast [{a}, {b}, 1]"), t.view().into_broadcast_f(vec![a, b, 1]));
                    chk!(c, format!("broadcast shape + [{a}, {b}]"), { let mut s = vec![a, b]; s.extend(&l.shape); t.to_broadcast_f(s) });
                    chk!(c, format!("reshape_assume_contig [{a}, {b}]"), t.reshape_assume_contig_f(vec![a, b]));
                    chk!(c, format!("compatible shape [{a}, {b}]"), t.to_compatible_shape_f(vec![a, b], ROW));
                }
            }
            chk!(c, "to_dim 0", t.to_dim_f::<rstsr_common::prelude_dev::Ix0>());
            chk!(c, "to_dim 1", t.to_dim_f::<Ix1>());
            chk!(c, "to_dim 2", t.to_dim_f::<Ix2>());
            chk!(c, "into_dim 3", t.view().into_dim_f::<Ix3>());
            chk!(c, "into_dim 6", t.view().into_dim_f::<Ix6>());
        });
        group!("matrices", c, {
            for &k in &ix {
                chk!(c, format!("tril {k}"), rt::tril_f((&t, k)));
                chk!(c, format!("triu {k}"), rt::triu_f((&t, k)));
                chk!(c, format!("diag {k}"), rt::diag_f((&t, k)));
            }
            for u in [FlagUpLo::U, FlagUpLo::L] {
                chk!(c, format!("pack_tri {u:?}"), t.pack_tri_f(u));
                let tf = tensor(vec![0.0f64; l.len], l, &d); for s in [FlagSymm::Sy, FlagSymm::Ay, FlagSymm::N] { chk!(c, format!("unpack_tri {u:?} {s:?}"), tf.unpack_tri_f(u, s)); }
            }
            chk!(c, "matrix_transpose", t.matrix_transpose_f());
            chk!(c, "matmul", rt::matmul_f(&t, &t));
            chk!(c, "to_scalar", t.to_scalar_f());
            chk!(c, "to_vec", t.to_owned().into_vec_f().map(|_| ()));
            chk!(c, "to_raw", t.to_raw_f().map(|_| ()));
            chk!(c, "max", t.max_all_f());
            chk!(c, "argmin", t.argmin_all_f());
            chk!(c, "unraveled_argmin", t.unraveled_argmin_all_f().map(|_| ()));
            chk!(c, "pack_array 3", t.to_contig(ROW).into_pack_array_f::<3>(-1).map(|_| ()));
            for &a in &ax { chk!(c, format!("into_pack_array::<2> {a}"), t.to_owned().into_pack_array_f::<2>(a).map(|_| ())); }
        });
    }};
}

fn main() {
    fw::main("P19", |r| {
        r.assume("results that are accepted fit in memory (arguments asking for more elements than a vector can ever hold are enumerated; in-between sizes are not)");
        r.assume("element arithmetic itself does not overflow (integer overflow in debug builds panics as in Rust itself)");
        r.bound("one array: shapes of up to 3 axes of extents 0-3 in standard, permuted, strided, reversed, broadcast and offset layouts; every axis / index / offset / extent argument from the extreme set {MIN, -n-1, -n, -1, 0, 1, n-1, n, n+1, MAX} and neighbours, all pairs (and triples for reshape)");
        r.bound("two arrays: all pairs of shapes of up to 3 axes of extents 0-3 (thorough: with strided layouts)");
        r.bound("creation: shapes of up to 3 axes with extents up to usize::MAX; eye offsets, arange and linspace with extreme, NaN and infinite arguments; layouts with extreme strides and offsets over buffers of 0-4 elements");
        let th = r.thorough();
        let mut ls = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) {
            ls.extend(layouts_dev(&s, &ALL_KINDS, if s.len() <= 2 || th { 2 } else { 1 }));
        }
        let items: Vec<(usize, bool, Lay)> = ls.iter().flat_map(|l| (0..4).map(|k| (k / 2, k % 2 == 0, l.clone()))).collect();
        r.par("operations on one array", &items, |cx, (dv, row, l)| match dv {
            0 => sweep!(cx, format!("serial row={row}"), serial(*row), l, true, DeviceCpuSerial),
            _ => sweep!(cx, format!("faer row={row}"), faer(*row, 2), l, th, DeviceFaer),
        });
        let mut bs = vec![];
        for s in shapes(0, 3, r.pick(&[0, 1, 2][..], &[0, 1, 2, 3][..])) { bs.extend(layouts_dev(&s, &ALL_KINDS, r.pick(if s.len() <= 2 { 1 } else { 0 }, 1))); }
        let items: Vec<(usize, bool, Lay)> = bs.iter().flat_map(|l| (0..4).map(|k| (k / 2, k % 2 == 0, l.clone()))).collect();
        r.par("operations on two arrays", &items, |cx, (dv, row, a)| for b in &bs {
            match dv {
                0 => mixed!(cx, format!("serial row={row}"), serial(*row), a, b),
                _ => mixed!(cx, format!("faer row={row}"), faer(*row, 2), a, b),
            }
        });
        r.par("creation", &[(0, true), (0, false), (1, true), (1, false)], |cx, (dv, row)| match dv {
            0 => creation!(cx, format!("serial row={row}"), serial(*row), DeviceCpuSerial),
            _ => creation!(cx, format!("faer row={row}"), faer(*row, 2), DeviceFaer),
        });
    });
}
