//! P18: promotion of mixed element types: the table, the conversions and the array operations that use them.
use core_mc::*;
use rstsr_dtype_traits::{isclose, DTypeCastAPI, DTypeIntoFloatAPI, DTypePromoteAPI, ExtNum, ExtReal, IsCloseArgs};
use std::any::type_name;
use std::fmt::Debug;
type C32 = Complex<f32>;
type C64 = Complex<f64>;

/// an exact number
#[derive(Clone, Copy, Debug)]
enum V { B(bool), I(i128), F(f64), C(f64, f64) }
use V::*;
/// kind and width of an element type; `p`: a pointer-sized type
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Ty { k: char, bits: u32, p: bool }

trait El: Copy + PartialEq + Debug + Send + Sync + 'static {
    const TY: Ty;
    fn vals() -> Vec<Self>;
    fn v(self) -> V;
}
macro_rules! el_int {
    ($($T:ty, $k:literal, $p:literal;)*) => {$(impl El for $T {
        const TY: Ty = Ty { k: $k, bits: <$T>::BITS, p: $p };
        fn vals() -> Vec<Self> {
            let mut w: Vec<$T> = vec![<$T>::MIN, <$T>::MAX, <$T>::MAX - 1, <$T>::MIN + 1, <$T>::MAX / 2, 0, 1, 2, 3, 7, 100];
            if $k == 'i' { w.extend([1, 2, 3, 100].map(|x| (0 as $T).wrapping_sub(x))); }
            for b in [7u32, 8, 15, 16, 24, 31, 32, 53, 63] {
                for d in [-1i128, 0, 1] {
                    if let Ok(x) = <$T>::try_from((1i128 << b) + d) { w.push(x) }
                    if let Ok(x) = <$T>::try_from(-(1i128 << b) + d) { w.push(x) }
                }
            }
            if <$T>::BITS == 8 { w = (<$T>::MIN..=<$T>::MAX).collect() }
            w.sort(); w.dedup();
            w
        }
        fn v(self) -> V { I(self as i128) }
    })*};
}
el_int!(u8, 'u', false; u16, 'u', false; u32, 'u', false; u64, 'u', false; usize, 'u', true; i8, 'i', false; i16, 'i', false; i32, 'i', false; i64, 'i', false; isize, 'i', true;);
macro_rules! el_float {
    ($($T:ty, $n:literal;)*) => {$(impl El for $T {
        const TY: Ty = Ty { k: 'f', bits: $n, p: false };
        fn vals() -> Vec<Self> {
            vec![0.0, -0.0, 1.0, -1.0, 0.5, -2.75, 100.25, 3e10, -3e10, <$T>::MAX, <$T>::MIN, <$T>::MIN_POSITIVE, <$T>::EPSILON, <$T>::INFINITY, <$T>::NEG_INFINITY, 16777217.0, 1.0 / 3.0]
        }
        fn v(self) -> V { F(self as f64) }
    }
    impl El for Complex<$T> {
        const TY: Ty = Ty { k: 'c', bits: $n, p: false };
        fn vals() -> Vec<Self> {
            let w = [0.0, 1.0, -2.75, 1.0 / 3.0, <$T>::MAX];
            w.iter().flat_map(|a| w.iter().map(move |b| Complex::new(*a, *b))).collect()
        }
        fn v(self) -> V { C(self.re as f64, self.im as f64) }
    })*};
}
el_float!(f32, 32; f64, 64;);
impl El for bool {
    const TY: Ty = Ty { k: 'b', bits: 1, p: false };
    fn vals() -> Vec<Self> { vec![false, true] }
    fn v(self) -> V { B(self) }
}

/// NumPy's promotion rule
fn rule(a: Ty, b: Ty) -> Ty {
    let t = |k, bits| Ty { k, bits, p: (k == 'i' || k == 'u') && bits == 64 && ((a.k == k && a.p) || (b.k == k && b.p)) };
    if a == b { return a }
    let comp = |t: Ty| if t.k == 'c' { Ty { k: 'f', ..t } } else { t };
    match (a.k, b.k) {
        ('b', _) => b,
        (_, 'b') => a,
        ('c', _) | (_, 'c') => {
            // promote the components, then complex
            let r = rule(comp(a), comp(b));
            Ty { k: 'c', ..r }
        },
        ('f', 'f') => t('f', a.bits.max(b.bits)),
        ('f', _) => t('f', a.bits.max(if b.bits <= 16 { 32 } else { 64 })),
        (_, 'f') => rule(b, a),
        ('u', 'u') => t('u', a.bits.max(b.bits)),
        ('i', 'i') => t('i', a.bits.max(b.bits)),
        ('u', 'i') => if a.bits < b.bits { b } else if a.bits < 64 { t('i', a.bits * 2) } else { t('f', 64) },
        _ => rule(b, a),
    }
}
fn name(t: Ty) -> String {
    match (t.k, t.p) {
        ('b', _) => "bool".into(),
        ('c', _) => format!("num_complex::Complex<f{}>", t.bits),
        (k, true) => format!("{k}size"),
        (k, false) => format!("{k}{}", t.bits),
    }
}
/// the value as the type stores it (integers must be representable)
fn to(v: V, t: Ty) -> V {
    let r = |x: f64| if t.bits == 32 { x as f32 as f64 } else { x };
    let f = |v: V| match v { B(b) => b as i128 as f64, I(i) => if t.bits == 32 { i as f32 as f64 } else { i as f64 }, F(f) => r(f), C(..) => unreachable!() };
    match t.k {
        'b' => v,
        'u' | 'i' => match v { B(b) => I(b as i128), I(i) => I(i), _ => unreachable!() },
        'f' => F(f(v)),
        _ => match v { C(a, b) => C(r(a), r(b)), v => C(f(v), 0.0) },
    }
}
fn eq(a: V, b: V) -> bool {
    let fe = |x: f64, y: f64| (x == y && x.is_sign_negative() == y.is_sign_negative()) || (x.is_nan() && y.is_nan());
    match (a, b) { (B(x), B(y)) => x == y, (I(x), I(y)) => x == y, (F(x), F(y)) => fe(x, y), (C(a, b), C(x, y)) => fe(a, x) && fe(b, y), _ => false }
}
/// is v exactly a value of type t?
fn fits(v: V, t: Ty) -> bool {
    match (v, t.k) {
        (B(_), _) => true,
        (I(i), 'u') => i >= 0 && i < 1i128 << t.bits,
        (I(i), 'i') => i >= -(1i128 << (t.bits - 1)) && i < 1i128 << (t.bits - 1),
        (I(i), 'f' | 'c') => if t.bits == 32 { (i as f32) as i128 == i } else { (i as f64) as i128 == i },
        (F(f), 'u' | 'i') => f.is_finite() && f.fract() == 0.0 && f.abs() < 1e30 && fits(I(f as i128), t),
        (F(f), 'f' | 'c') => t.bits == 64 || (f as f32) as f64 == f,
        (C(a, b), 'c') => t.bits == 64 || ((a as f32) as f64 == a && (b as f32) as f64 == b),
        _ => false,
    }
}

fn check_pair<A: El + DTypePromoteAPI<B, Res: El>, B: El + DTypePromoteAPI<A, Res: El>>() -> Res {
    let want = rule(A::TY, B::TY);
    let (r1, r2) = (type_name::<<A as DTypePromoteAPI<B>>::Res>(), type_name::<<B as DTypePromoteAPI<A>>::Res>());
    if r1 != name(want) || r2 != name(want) {
        return Err(format!("promoted types {r1} and {r2}, expected {}", name(want)));
    }
    let (va, vb) = (A::vals(), B::vals());
    for &a in &va {
        let w = to(a.v(), want);
        let g = [<A as DTypePromoteAPI<B>>::promote_self(a).v(), <B as DTypePromoteAPI<A>>::promote_other(a).v()];
        if !g.iter().all(|g| eq(*g, w)) { return Err(format!("{a:?} promoted to {g:?}, expected {w:?}")) }
        for &b in &vb {
            let (x, y) = <A as DTypePromoteAPI<B>>::promote_pair(a, b);
            if !eq(x.v(), w) || !eq(y.v(), to(b.v(), want)) { return Err(format!("pair ({a:?}, {b:?}) promoted to ({x:?}, {y:?})")) }
        }
    }
    Ok(Out::Val)
}

fn check_cast<A: El + DTypeCastAPI<B>, B: El>() -> Res {
    for a in A::vals() {
        let g = a.into_cast();
        let w = if B::TY.k == 'b' {
            B(match a.v() { B(b) => b, I(i) => i != 0, F(f) => f != 0., C(x, y) => x != 0. || y != 0. })
        } else if fits(a.v(), B::TY) {
            match (a.v(), B::TY.k) { (F(f), 'u' | 'i') => I(f as i128), (v, _) => to(v, B::TY) }
        } else if let (F(_) | I(_) | C(..), 'f' | 'c') = (a.v(), B::TY.k) {
            to(a.v(), B::TY)
        } else {
            continue;
        };
        if !eq(g.v(), w) { return Err(format!("{a:?} cast to {g:?}, expected {w:?}")) }
    }
    Ok(Out::Val)
}

fn check_float<A: El + DTypeIntoFloatAPI<FloatType: El>>() -> Res {
    let want = match A::TY.k { 'f' | 'c' => A::TY, _ => Ty { k: 'f', bits: 64, p: false } };
    if type_name::<A::FloatType>() != name(want) { return Err(format!("float type {}", type_name::<A::FloatType>())) }
    for a in A::vals() {
        if !eq(a.into_float().v(), to(a.v(), want)) { return Err(format!("{a:?} to float gives {:?}", a.into_float())) }
    }
    Ok(Out::Val)
}

fn ext_num<A: El + ExtNum<AbsOut: El>>() -> Res {
    let lim = |v: i128| fits(I(v), A::TY);
    let vals = A::vals();
    for &a in &vals {
        let (abs, sign, re, im) = match a.v() {
            I(i) => (lim(i.abs()).then_some(I(i.abs())), I(i.signum()), I(i), I(0)),
            F(f) => (Some(F(f.abs())), F(if f == 0. { 0. } else { f.signum() }), F(f), F(0.)),
            C(x, y) => (None, B(false), F(x), F(y)),
            B(_) => continue,
        };
        if let Some(w) = abs { if !eq(a.ext_abs().v(), w) { return Err(format!("abs({a:?}) = {:?}", a.ext_abs())) } }
        if !matches!(sign, B(_)) && !eq(a.ext_sign().v(), sign) { return Err(format!("sign({a:?}) = {:?}", a.ext_sign())) }
        if !eq(a.ext_real().v(), re) || !eq(a.ext_imag().v(), im) { return Err(format!("real/imag of {a:?}: {:?} {:?}", a.ext_real(), a.ext_imag())) }
        let conj = match a.v() { C(x, y) => C(x, -y), v => v };
        if !eq(a.ext_conj().v(), conj) { return Err(format!("conj({a:?})")) }
        for &b in &vals {
            let w = match (a.v(), b.v()) {
                (I(x), I(y)) if lim((x - y).abs()) => I((x - y).abs()),
                (F(x), F(y)) => to(F(if A::TY.bits == 32 { (x as f32 - y as f32).abs() as f64 } else { (x - y).abs() }), A::TY),
                _ => continue,
            };
            if !eq(a.ext_abs_diff(b).v(), w) { return Err(format!("abs_diff({a:?}, {b:?}) = {:?}", a.ext_abs_diff(b))) }
        }
    }
    Ok(Out::Val)
}

fn model(op: &str, a: V, b: V, t: Ty) -> Option<V> {
    let ord = match (a, b) { (I(x), I(y)) => x.partial_cmp(&y), (F(x), F(y)) => x.partial_cmp(&y), (B(x), B(y)) => x.partial_cmp(&y), (C(x, y), C(z, w)) => return match op { "eq" => Some(B(x == z && y == w)), "ne" => Some(B(!(x == z && y == w))), _ => None }, _ => unreachable!() };
    use std::cmp::Ordering::*;
    Some(match op {
        "eq" => B(ord == Some(Equal)),
        "ne" => B(ord != Some(Equal)),
        "lt" => B(ord == Some(Less)),
        "le" => B(matches!(ord, Some(Less | Equal))),
        "gt" => B(ord == Some(Greater)),
        "ge" => B(matches!(ord, Some(Greater | Equal))),
        "max" => if ord == Some(Equal) { return None } else if ord == Some(Less) { b } else { a },
        "min" => if ord == Some(Equal) { return None } else if ord == Some(Less) { a } else { b },
        "fdiv" => match (a, b) {
            (I(_), I(0)) => return None,
            (I(x), I(y)) => { let q = num::integer::div_floor(x, y); if !fits(I(q), t) { return None } I(q) },
            (F(x), F(y)) => F(if t.bits == 32 { (x as f32 / y as f32).floor() as f64 } else { (x / y).floor() }),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    })
}

/// one operation, array with array, array with number and number with array, on one device
macro_rules! array_op {
    ($d:expr, $A:ty, $B:ty, $op:literal, $f:path) => {{
        let t = rule(<$A as El>::TY, <$B as El>::TY);
        let (va, vb) = (<$A as El>::vals(), <$B as El>::vals());
        let mut ps = vec![];
        for &a in &va { for &b in &vb {
            if let Some(w) = model($op, to(a.v(), t), to(b.v(), t), t) { ps.push((a, b, w)) }
            if ps.len() > 3000 { break }
        } }
        // array with array; the second operand reversed in memory
        let n = ps.len();
        let la = Lay { shape: vec![n], stride: vec![1], offset: 0, len: n };
        let lb = Lay { shape: vec![n], stride: vec![-1], offset: n.max(1) - 1, len: n };
        let a = tensor(ps.iter().map(|p| p.0).collect(), &la, &$d);
        let b = tensor(ps.iter().rev().map(|p| p.1).collect(), &lb, &$d);
        let ta = a.view().into_dim::<Ix1>(); let tb = b.view().into_dim::<Ix1>();
        let g = call(|| $f(&ta, &tb)).map_err(|e| format!("{} panicked: {e}", $op))?.map_err(|e| format!("{}: rejected {e:?}", $op))?;
        let g = logical(&g)?;
        for (p, g) in ps.iter().zip(&g.data) {
            if !eq(g.v(), p.2) { return Err(format!("{}({:?}, {:?}) = {g:?}, expected {:?}", $op, p.0, p.1, p.2)) }
        }
    }};
}
macro_rules! scalar_op {
    ($d:expr, $A:ty, $B:ty, $op:literal, $f:path) => {{
        let t = rule(<$A as El>::TY, <$B as El>::TY);
        let (va, vb) = (<$A as El>::vals(), <$B as El>::vals());
        for b in vb.iter().copied().step_by((vb.len() / 16).max(1)) {
            let ps: Vec<_> = va.iter().filter_map(|&a| model($op, to(a.v(), t), to(b.v(), t), t).map(|w| (a, w))).collect();
            let n = ps.len();
            let a = tensor(ps.iter().map(|p| p.0).collect(), &Lay { shape: vec![n], stride: vec![1], offset: 0, len: n }, &$d).into_dim::<Ix1>();
            let g = call(|| $f(&a, b)).map_err(|e| format!("{} panicked: {e}", $op))?.map_err(|e| format!("{}: rejected {e:?}", $op))?;
            for (p, g) in ps.iter().zip(&logical(&g)?.data) {
                if !eq(g.v(), p.1) { return Err(format!("{}(array {:?}, {b:?}) = {g:?}, expected {:?}", $op, p.0, p.1)) }
            }
        }
        for a in va.iter().copied().step_by((va.len() / 16).max(1)) {
            let ps: Vec<_> = vb.iter().filter_map(|&b| model($op, to(a.v(), t), to(b.v(), t), t).map(|w| (b, w))).collect();
            let n = ps.len();
            let b = tensor(ps.iter().map(|p| p.0).collect(), &Lay { shape: vec![n], stride: vec![1], offset: 0, len: n }, &$d).into_dim::<Ix1>();
            let g = call(|| $f(a, &b)).map_err(|e| format!("{} panicked: {e}", $op))?.map_err(|e| format!("{}: rejected {e:?}", $op))?;
            for (p, g) in ps.iter().zip(&logical(&g)?.data) {
                if !eq(g.v(), p.1) { return Err(format!("{}({a:?}, array {:?}) = {g:?}, expected {:?}", $op, p.0, p.1)) }
            }
        }
    }};
}

macro_rules! pairs {
    ($cx:expr, $m:ident; $($A:ty),*; $B:tt) => { $( pairs!(@ $cx, $m, $A, $B); )* };
    (@ $cx:expr, $m:ident, $A:ty, [$($B:ty),*]) => { $( $m!($cx, $A, $B); )* };
}
macro_rules! p_pair { ($cx:expr, $A:ty, $B:ty) => { $cx.state(&concat!(stringify!($A), stringify!($B))); $cx.case(format_args!("promote|{}|{}", stringify!($A), stringify!($B)), check_pair::<$A, $B>); }; }
macro_rules! p_cast { ($cx:expr, $A:ty, $B:ty) => { $cx.state(&concat!("c", stringify!($A), stringify!($B))); $cx.case(format_args!("cast|{}|{}", stringify!($A), stringify!($B)), check_cast::<$A, $B>); }; }
macro_rules! p_op {
    ($cx:expr, $A:ty, $B:ty) => {
        $cx.state(&concat!("o", stringify!($A), stringify!($B)));
        $cx.case(format_args!("array|serial|{}|{}", stringify!($A), stringify!($B)), || {
            let d = serial(true);
            array_op!(d, $A, $B, "max", rt::maximum_f);
            Ok(Out::Val)
        });
    };
}
macro_rules! p_full {
    ($cx:expr, $($A:ty, $B:ty;)*) => {$(
        $cx.state(&concat!("f", stringify!($A), stringify!($B)));
        p_full!(@ $cx, "serial", serial(true), $A, $B);
    )*};
    (faer $cx:expr, $($A:ty, $B:ty;)*) => {$(
        p_full!(@ $cx, "faer2", faer(true, 2), $A, $B);
    )*};
    (@ $cx:expr, $dn:literal, $d:expr, $A:ty, $B:ty) => {
        $cx.case(format_args!("array|all|{}|{}|{}", $dn, stringify!($A), stringify!($B)), || {
            let d = $d;
            array_op!(d, $A, $B, "max", rt::maximum_f);
            array_op!(d, $A, $B, "min", rt::minimum_f);
            array_op!(d, $A, $B, "fdiv", rt::floor_divide_f);
            array_op!(d, $A, $B, "eq", rt::equal_f);
            array_op!(d, $A, $B, "ne", rt::not_equal_f);
            array_op!(d, $A, $B, "lt", rt::less_f);
            array_op!(d, $A, $B, "le", rt::less_equal_f);
            array_op!(d, $A, $B, "gt", rt::greater_f);
            array_op!(d, $A, $B, "ge", rt::greater_equal_f);
            scalar_op!(d, $A, $B, "max", rt::maximum_f);
            scalar_op!(d, $A, $B, "min", rt::minimum_f);
            scalar_op!(d, $A, $B, "fdiv", rt::floor_divide_f);
            scalar_op!(d, $A, $B, "eq", rt::equal_f);
            scalar_op!(d, $A, $B, "ne", rt::not_equal_f);
            scalar_op!(d, $A, $B, "lt", rt::less_f);
            scalar_op!(d, $A, $B, "le", rt::less_equal_f);
            scalar_op!(d, $A, $B, "gt", rt::greater_f);
            scalar_op!(d, $A, $B, "ge", rt::greater_equal_f);
            Ok(Out::Val)
        });
    };
}
/// isclose of finite operands: |a - b| <= atol + rtol |b| after promotion
macro_rules! close {
    ($cx:expr, $($A:ty, $B:ty;)*) => {$(
        $cx.state(&concat!("i", stringify!($A), stringify!($B)));
        $cx.case(format_args!("isclose|{}|{}", stringify!($A), stringify!($B)), || {
            let t = rule(<$A as El>::TY, <$B as El>::TY);
            for args in [(1e-5, 1e-8, false), (0.0, 0.0, false), (0.5, 0.0, true), (0.0, 3.0, false), (0.25, 1.0, true)] {
                let ia = IsCloseArgs::<f64>::from(args);
                let (mut xs, mut ys, mut ws) = (vec![], vec![], vec![]);
                for a in <$A as El>::vals() { for b in <$B as El>::vals() {
                    let w = match (to(a.v(), t), to(b.v(), t)) {
                        (I(x), I(y)) if fits(I((x - y).abs()), t) && fits(I(y.abs()), t) => (x - y).abs() as f64 <= args.1 + args.0 * (y.abs() as f64),
                        (F(x), F(y)) if x.is_finite() && y.is_finite() => {
                            let d = if t.bits == 32 { (x as f32 - y as f32).abs() as f64 } else { (x - y).abs() };
                            if d.is_infinite() || (args.0 * y).is_infinite() { continue }
                            d <= args.1 + args.0 * y.abs()
                        },
                        (C(x, y), C(z, w)) if [x, y, z, w].iter().all(|v| v.abs() < 1e9) => {
                            let (d, n) = if t.bits == 32 { ((((x as f32 - z as f32).hypot(y as f32 - w as f32)) as f64), ((z as f32).hypot(w as f32)) as f64) } else { ((x - z).hypot(y - w), z.hypot(w)) };
                            d <= args.1 + args.0 * n
                        },
                        _ => continue,
                    };
                    let g = call(|| isclose(&a, &b, &ia)).map_err(|p| format!("isclose({a:?}, {b:?}, {args:?}) panicked: {p}"))?;
                    if g != w { return Err(format!("isclose({a:?}, {b:?}, {args:?}) = {g}")) }
                    if xs.len() < 4000 { xs.push(a); ys.push(b); ws.push(w); }
                } }
                let n = xs.len();
                let l = Lay { shape: vec![n], stride: vec![1], offset: 0, len: n };
                let (a, b) = (tensor(xs, &l, &serial(true)), tensor(ys, &l, &serial(true)));
                if rt::allclose(&a, &b, ia.clone()) != ws.iter().all(|x| *x) { return Err(format!("allclose {args:?} differs from all of isclose")) }
            }
            for nan in [false, true] {
                let ia = IsCloseArgs::<f64>::from((1.0, 1.0, nan));
                if isclose(&f64::NAN, &f64::NAN, &ia) != nan || isclose(&f64::NAN, &1.0, &ia) || isclose(&1.0, &f32::NAN, &ia) { return Err("isclose with NaN".into()) }
            }
            Ok(Out::Val)
        });
    )*};
}

fn main() {
    fw::main("P18", |r| {
        r.par("promotion of every ordered pair", &[0u8], |cx, _| {
            pairs!(cx, p_pair; bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, C32, C64]);
            pairs!(cx, p_pair; usize; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, f32, f64, C32, C64]);
            pairs!(cx, p_pair; isize; [bool, u8, u16, u32, u64, i8, i16, i32, i64, isize, f32, f64, C32, C64]);
            pairs!(cx, p_pair; C32, C64; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, C32, C64]);
        });
        r.par("cast of every ordered pair", &[0u8], |cx, _| {
            pairs!(cx, p_cast; u8, u16, u32, u64, i8, i16, i32, i64, f32, f64; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, C32, C64]);
            pairs!(cx, p_cast; bool; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, C32, C64]);
            pairs!(cx, p_cast; usize; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, f32, f64, C32, C64]);
            pairs!(cx, p_cast; isize; [bool, u8, u16, u32, u64, i8, i16, i32, i64, isize, f32, f64, C32, C64]);
            pairs!(cx, p_cast; C32, C64; [bool, C32, C64]);
        });
        r.par("conversion to float, absolute values, signs, parts", &[0u8], |cx, _| {
            macro_rules! one { ($($T:ty),*) => {$(
                cx.case(format_args!("into_float|{}", stringify!($T)), check_float::<$T>);
                cx.case(format_args!("ext_num|{}", stringify!($T)), ext_num::<$T>);
            )*}; }
            one!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, C32, C64);
            macro_rules! real { ($($T:ty),*) => {$(
                cx.case(format_args!("ext_real|{}", stringify!($T)), || {
                    for a in <$T as El>::vals() {
                        if !(<$T as ExtReal>::ext_max_value() >= a && <$T as ExtReal>::ext_min_value() <= a) { return Err(format!("{a:?} is outside of the extreme values")) }
                    }
                    Ok(Out::Val)
                });
            )*}; }
            real!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
        });
        r.par("array operations of every ordered pair", &[0u8], |cx, _| {
            pairs!(cx, p_op; u8, u16, u32, u64, i8, i16, i32, i64, f32, f64; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64]);
            pairs!(cx, p_op; usize; [bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, f32, f64]);
            pairs!(cx, p_op; isize; [bool, u8, u16, u32, u64, i8, i16, i32, i64, isize, f32, f64]);
        });
        r.par("all array and scalar forms", &[0u8], |cx, _| {
            p_full!(cx, i8, u8; u32, i32; i64, u64; u16, f32; f64, f32; usize, i64;);
            p_full!(faer cx, u8, i8; f32, i32; u64, u32;);
            close!(cx, i8, u8; u8, i8; i32, f32; f64, i64; f32, f32; f64, f64; C32, f64; u16, C32; C64, C64; u8, u64;);
        });
        r.assume("isclose: finite operands whose difference is representable in the promoted type, and NaN; maximum/minimum of equal values and of NaN, and integer floor division by zero or overflowing, are not compared");
        r.bound("all 223 ordered pairs (usize with isize has no promotion) of bool, u8..u64, usize, i8..i64, isize, f32, f64, c32, c64: promoted type, conversion of every boundary value (all 256 values of the 8-bit types), casts; maximum as array operation for all 154 pairs of real types; nine operations in array-array, array-number and number-array form for 6 pairs on the serial and 3 on the rayon device; isclose/allclose for 10 pairs and five tolerances");
    });
}
