//! P06: element-wise operations (binary, unary, maps) on every layout, ownership form, order and device.
use core_mc::*;

const K1: [Axis; 6] = ALL_KINDS;

fn want_or_rej<T: Clone + PartialEq + std::fmt::Debug, B, E: std::fmt::Debug>(what: &str, got: Result<Tensor<T, B, IxD>, E>, want: &Option<Nd<T>>) -> Res
where
    B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>>,
{
    expect(got, want.as_ref()).map_err(|e| format!("{what}: {e}"))
}

/// equality of floats up to rounding; infinities, NaN and the sign of zero exactly
trait Near: Clone + std::fmt::Debug {
    fn near(&self, o: &Self) -> bool;
}
impl Near for f64 {
    fn near(&self, o: &f64) -> bool {
        (self.is_nan() && o.is_nan()) || self == o && (*self != 0.0 || self.is_sign_negative() == o.is_sign_negative()) || (self.is_finite() && o.is_finite() && *o != 0.0 && (self - o).abs() <= 1e-12 * o.abs().max(1e-3))
    }
}
impl Near for f32 {
    fn near(&self, o: &f32) -> bool {
        (self.is_nan() && o.is_nan()) || self == o || (self.is_finite() && o.is_finite() && (self - o).abs() <= 1e-5 * o.abs().max(1e-3))
    }
}
impl Near for Complex<f64> {
    fn near(&self, o: &Self) -> bool {
        let n = |a: f64, b: f64| (a.is_nan() && b.is_nan()) || a == b || (a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-11 * o.norm().max(1e-3));
        n(self.re, o.re) && n(self.im, o.im)
    }
}
macro_rules! near_eq { ($($t:ty),*) => {$( impl Near for $t { fn near(&self, o: &Self) -> bool { self == o } } )*}; }
near_eq!(bool, i8, u8, i16, i32, u32, i64, u64);

fn near_t<T: Near, B>(what: &str, t: &Tensor<T, B, IxD>, want: &Nd<T>) -> Result<(), String>
where
    B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>>,
{
    let g = logical(t).map_err(|e| format!("{what}: {e}"))?;
    if g.shape == want.shape && g.data.iter().zip(&want.data).all(|(a, b)| a.near(b)) {
        Ok(())
    } else {
        Err(format!("{what}: got {g:?}, expected {want:?}"))
    }
}

macro_rules! pair_forms {
    (@fnmut yes, $e:expr) => { $e };
    (@fnmut no, $e:expr) => {};
    ($cx:expr, $name:expr, $row:expr, $la:expr, $lb:expr, $d:expr, $fm:ident) => {{
        let (la, lb): (&Lay, &Lay) = ($la, $lb);
        let d = $d;
        $cx.case(format_args!("{}|row={}|{la:?}-{lb:?}", $name, $row), || {
            let (ra, rb) = (raw_i64(la.len, 1000), raw_i64(lb.len, 7));
            let (na, nb) = (la.nd(&ra), lb.nd(&rb));
            let w = zip_b(&na, &nb, $row, |x, y| x - y);
            let a = tensor(ra.clone(), la, &d);
            let b = tensor(rb.clone(), lb, &d);
            let (a2, b2) = (|| tensor(ra.clone(), la, &d), || tensor(rb.clone(), lb, &d));
            let mut out = want_or_rej("&a-&b", a.sub_f(&b), &w)?;
            want_or_rej("view-view", rt::sub_f(a.view(), b.view()), &w)?;
            want_or_rej("&a-view", rt::sub_f(&a, b.view()), &w)?;
            want_or_rej("view-&b", rt::sub_f(a.view(), &b), &w)?;
            want_or_rej("owned-&b", rt::sub_f(a2(), &b), &w)?;
            want_or_rej("owned-view", rt::sub_f(a2(), b.view()), &w)?;
            want_or_rej("&a-owned", rt::sub_f(&a, b2()), &w)?;
            want_or_rej("view-owned", rt::sub_f(a.view(), b2()), &w)?;
            want_or_rej("owned-owned", rt::sub_f(a2(), b2()), &w)?;
            want_or_rej("cow-&b", rt::sub_f(a.view().into_cow(), &b), &w)?;
            want_or_rej("&a-cow", rt::sub_f(&a, b.view().into_cow()), &w)?;
            want_or_rej("ownedcow-cow", rt::sub_f(a2().into_cow(), b.view().into_cow()), &w)?;
            want_or_rej("cow-ownedcow", rt::sub_f(a.view().into_cow(), b2().into_cow()), &w)?;
            want_or_rej("mapb", a.mapb_f(&b, |x, y| x - y), &w)?;
            want_or_rej("mapvb", a.mapvb_f(&b, |x, y| x - y), &w)?;
            let wl = zip_b(&na, &nb, $row, |x, y| x / 5 < y + 150);
            want_or_rej("mapb bool", a.mapb_f(&b, |x, y| x / 5 < y + 150), &wl)?;
            pair_forms!(@fnmut $fm, want_or_rej("mapb_fnmut", a.mapb_fnmut_f(&b, |x, y| x / 5 < y + 150), &wl)?);
            let wm = zip_b(&na, &nb, $row, |x, y| (x % 17).max(y % 13));
            let (am, bm) = (a.map(|x| x % 17), b.map(|y| y % 13));
            check_t(&am, &na.map(|x| x % 17)).map_err(|e| format!("map: {e}"))?;
            want_or_rej("maximum", rt::maximum_f(&am, &bm), &wm)?;
            let wl = zip_b(&na, &nb, $row, |x, y| x % 17 < y % 13);
            want_or_rej("less", rt::less_f(am.view(), &bm), &wl)?;
            let ws = zip_b(&na, &nb, $row, |x, y| x * 10000 + y);
            want_or_rej("op_refa_refb_func", op_refa_refb_func(&a, &b, &mut |c: &mut std::mem::MaybeUninit<i64>, x: &i64, y: &i64| { c.write(x * 10000 + y); }), &ws)?;
            if w.is_some() {
                check_t(&(&a - &b), w.as_ref().unwrap())?;
                check_t(&(a2() - &b), w.as_ref().unwrap())?;
                check_t(&(&a - b2()), w.as_ref().unwrap())?;
                check_t(&(a2() - b2()), w.as_ref().unwrap())?;
                // the owned result is an ordinary array: its elements are independent of each other
                let g = &a - &b;
                let mut g = g;
                let n = w.as_ref().unwrap().map(|x| x * 3 + 1);
                g.mapvi(|x| x * 3 + 1);
                check_t(&g, &n).map_err(|e| format!("map in place over the result: {e}"))?;
            }
            if *a.raw() != ra || *b.raw() != rb {
                return Err("a borrowed operand changed".into());
            }
            if w.is_none() { out = Out::Rej }
            Ok(out)
        });
    }};
}

macro_rules! arith_ops {
    ($cx:expr, $name:expr, $row:expr, $la:expr, $lb:expr, $d:expr, $T:ty, $( $op:ident $op_f:ident $e:expr );* $(;)?) => {{
        let (la, lb): (&Lay, &Lay) = ($la, $lb);
        let d = ($d).clone();
        let ra: Vec<$T> = (0..la.len).map(|p| (p * 5 % 101 + 17) as $T).collect();
        let rb: Vec<$T> = (0..lb.len).map(|p| (p * 3 % 5 + 1) as $T).collect();
        let (na, nb) = (la.nd(&ra), lb.nd(&rb));
        $(
            $cx.case(format_args!("{}|{}|{}|row={}|{la:?},{lb:?}", $name, stringify!($op), stringify!($T), $row), || {
                let f: fn($T, $T) -> $T = $e;
                let w = Some(zip_b(&na, &nb, $row, |x, y| f(*x, *y)).unwrap());
                let a = tensor(ra.clone(), la, &d);
                let b = tensor(rb.clone(), lb, &d);
                let (a2, b2) = (|| tensor(ra.clone(), la, &d), || tensor(rb.clone(), lb, &d));
                want_or_rej("&,&", rt::$op_f(&a, &b), &w)?;
                want_or_rej("owned,&", rt::$op_f(a2(), &b), &w)?;
                want_or_rej("&,owned", rt::$op_f(&a, b2()), &w)?;
                want_or_rej("owned,owned", rt::$op_f(a2(), b2()), &w)?;
                want_or_rej("method", a.$op_f(&b), &w)?;
                check_t(&rt::$op(a.view(), b.view()), w.as_ref().unwrap())?;
                let k = 3 as $T;
                let w = Some(na.map(|x| f(*x, k)));
                want_or_rej("&,num", rt::$op_f(&a, k), &w)?;
                want_or_rej("view,num", rt::$op_f(a.view(), k), &w)?;
                want_or_rej("owned,num", rt::$op_f(a2(), k), &w)?;
                let w = Some(nb.map(|x| f(k, *x)));
                want_or_rej("num,&", rt::$op_f(k, &b), &w)?;
                want_or_rej("num,view", rt::$op_f(k, b.view()), &w)?;
                want_or_rej("num,owned", rt::$op_f(k, b2()), &w)?;
                want_or_rej("num,cow", rt::$op_f(k, b.view().into_cow()), &w)?;
                if *a.raw() != ra || *b.raw() != rb { return Err("a borrowed operand changed".into()) }
                Ok(Out::Val)
            });
        )*
    }};
}

macro_rules! common_ops {
    ($cx:expr, $name:expr, $row:expr, $la:expr, $lb:expr, $d:expr, $ty:expr, $va:expr, $vb:expr, $( $op:ident $op_f:ident : $TO:ty = $e:expr );* $(;)?) => {{
        let (la, lb): (&Lay, &Lay) = ($la, $lb);
        let d = ($d).clone();
        let ra: Vec<_> = (0..la.len).map(|p| $va[(p * 5 + 1) % $va.len()]).collect();
        let rb: Vec<_> = (0..lb.len).map(|p| $vb[(p * 7 + p / $vb.len()) % $vb.len()]).collect();
        let (na, nb) = (la.nd(&ra), lb.nd(&rb));
        $(
            $cx.case(format_args!("{}|{}|{}|row={}|{la:?},{lb:?}", $name, stringify!($op), $ty, $row), || {
                let f: fn(_, _) -> $TO = $e;
                let w = zip_b(&na, &nb, $row, |x, y| f(*x, *y)).unwrap();
                let a = tensor(ra.clone(), la, &d);
                let b = tensor(rb.clone(), lb, &d);
                let er = |e| format!("rejected: {e:?}");
                near_t("&,&", &rt::$op_f(&a, &b).map_err(er)?, &w)?;
                near_t("view,&", &rt::$op_f(a.view(), &b).map_err(er)?, &w)?;
                near_t("&,view", &rt::$op_f(&a, b.view()).map_err(er)?, &w)?;
                near_t("view,view", &rt::$op(a.view(), b.view()), &w)?;
                let k = $vb[1];
                let w = na.map(|x| f(*x, k));
                near_t("&,num", &rt::$op_f(&a, k).map_err(er)?, &w)?;
                near_t("view,num", &rt::$op_f(a.view(), k).map_err(er)?, &w)?;
                let k = $va[1];
                let w = nb.map(|x| f(k, *x));
                near_t("num,&", &rt::$op_f(k, &b).map_err(er)?, &w)?;
                near_t("num,view", &rt::$op_f(k, b.view()).map_err(er)?, &w)?;
                let same = |x: &[_], y: &[_]| format!("{x:?}") == format!("{y:?}");
                if !same(a.raw(), &ra) || !{let (x, y): (&[_], &[_]) = (b.raw(), &rb); format!("{x:?}") == format!("{y:?}")} { return Err("a borrowed operand changed".into()) }
                Ok(Out::Val)
            });
        )*
    }};
}

macro_rules! unary_ops {
    (@owned own, $a2:expr, $op_f:ident, $w:expr) => { near_t("owned", &rt::$op_f($a2).map_err(|e| format!("rejected: {e:?}"))?, &$w)?; };
    (@owned no, $a2:expr, $op_f:ident, $w:expr) => {};
    ($cx:expr, $name:expr, $row:expr, $la:expr, $d:expr, $ty:expr, $va:expr, $( $op:ident $op_f:ident $own:ident : $TO:ty = $e:expr );* $(;)?) => {{
        let la: &Lay = $la;
        let d = ($d).clone();
        let ra: Vec<_> = (0..la.len).map(|p| $va[p % $va.len()]).collect();
        let na = la.nd(&ra);
        $(
            $cx.case(format_args!("{}|{}|{}|row={}|{la:?}", $name, stringify!($op), $ty, $row), || {
                let f: fn(_) -> $TO = $e;
                let w = na.map(|x| f(*x));
                let a = tensor(ra.clone(), la, &d);
                near_t("&", &rt::$op_f(&a).map_err(|e| format!("rejected: {e:?}"))?, &w)?;
                near_t("view", &rt::$op(a.view()), &w)?;
                unary_ops!(@owned $own, tensor(ra.clone(), la, &d), $op_f, w);
                if format!("{:?}", a.raw()) != format!("{ra:?}") { return Err("the borrowed operand changed".into()) }
                Ok(Out::Val)
            });
        )*
    }};
}

macro_rules! maps {
    (@fnmut yes, $($e:tt)*) => { $($e)* };
    (@fnmut no, $($e:tt)*) => {};
    ($cx:expr, $name:expr, $row:expr, $la:expr, $d:expr, $fm:ident) => {{
        let la: &Lay = $la;
        let d = $d;
        $cx.case(format_args!("{}|maps|row={}|{la:?}", $name, $row), || {
            let ra = raw_i64(la.len, 50);
            let na = la.nd(&ra);
            let a = tensor(ra.clone(), la, &d);
            let w = na.map(|x| x * 2 - 1);
            let wo = Some(w.clone());
            want_or_rej("map", a.map_f(|x| x * 2 - 1), &wo)?;
            want_or_rej("mapv", a.mapv_f(|x| x * 2 - 1), &wo)?;
            want_or_rej("map view", a.view().map_f(|x| x * 2 - 1), &wo)?;
            check_t(&a.map(|x| x % 2 == 0), &na.map(|x| x % 2 == 0))?;
            maps!(@fnmut $fm,
            check_t(&a.map_fnmut(|x| x * 2 - 1), &w)?;
            check_t(&a.mapv_fnmut(|x| x * 2 - 1), &w)?;
            // a stateful closure is called exactly once per element
            let mut seen = vec![];
            let g = a.map_fnmut(|x| { seen.push(*x); *x + 1 });
            check_t(&g, &na.map(|x| x + 1))?;
            let mut e = na.data.clone();
            seen.sort(); e.sort();
            if seen != e { return Err(format!("map_fnmut called the closure on {seen:?}, the elements are {e:?}")) }
            );
            want_or_rej("neg &", rt::neg_f(&a), &Some(na.map(|x| -x)))?;
            want_or_rej("neg view", rt::neg_f(a.view()), &Some(na.map(|x| -x)))?;
            want_or_rej("not &", rt::not_f(&a), &Some(na.map(|x| !x)))?;
            check_t(&-&a, &na.map(|x| -x))?;
            check_t(&!&a, &na.map(|x| !x))?;
            check_t(&-tensor(ra.clone(), la, &d), &na.map(|x| -x)).map_err(|e| format!("neg owned: {e}"))?;
            check_t(&!tensor(ra.clone(), la, &d), &na.map(|x| !x)).map_err(|e| format!("not owned: {e}"))?;
            if *a.raw() != ra { return Err("the borrowed operand changed".into()) }
            Ok(Out::Val)
        });
    }};
}

const F: [f64; 19] = [0.5, 2.0, -1.5, 0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.25, -0.75, 3.5, 2.5, -2.5, 1e-8, 100.25, -7.0, 0.999];
const G: [f64; 9] = [1.5, -2.0, 0.0, 3.0, -0.0, f64::INFINITY, 0.5, f64::NAN, -3.25];
const F3: [f32; 12] = [0.5, 2.0, -1.5, 0.0, 1.0, -1.0, f32::INFINITY, 0.25, -0.75, 3.5, -2.5, 100.25];
const I: [i32; 9] = [5, -3, 0, 7, -1, 12, 3, -8, 100];
const IN: [i32; 6] = [2, -3, 4, -1, 7, 5];
const IP: [i32; 6] = [2, 3, 1, 0, 7, 5];
const U: [u32; 6] = [2, 3, 1, 9, 7, 5];

fn floor_div(a: i64, b: i64) -> i64 {
    let q = a / b;
    if a % b != 0 && (a < 0) != (b < 0) { q - 1 } else { q }
}
/// neighbours by bit pattern
fn nextafter(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() { return f64::NAN }
    if a == b { return b }
    if a == 0.0 { return if b > 0.0 { f64::from_bits(1) } else { -f64::from_bits(1) } }
    let u = a.to_bits();
    f64::from_bits(if (b > a) == (a > 0.0) { u + 1 } else { u - 1 })
}
fn fmax(a: f64, b: f64) -> f64 { if a.is_nan() { b } else if b.is_nan() { a } else if a > b { a } else { b } }
fn fmin(a: f64, b: f64) -> f64 { if a.is_nan() { b } else if b.is_nan() { a } else if a < b { a } else { b } }
/// max/min of +0 and -0 is either zero: compare the magnitudes only
#[derive(Clone, Debug)]
#[allow(dead_code)]
struct Z(f64);

fn sign(x: f64) -> f64 { if x.is_nan() { f64::NAN } else if x == 0.0 { 0.0 } else { x.signum() } }

macro_rules! all_common {
    ($cx:expr, $name:expr, $row:expr, $la:expr, $lb:expr, $d:expr) => {{
        let d = $d;
        // pairs of zeros of different sign have no defined maximum; keep the sign out of the value lists there
        let gz: Vec<f64> = G.iter().map(|x| if *x == 0.0 { 0.0 } else { *x }).collect();
        let fz: Vec<f64> = F.iter().map(|x| if *x == 0.0 { 0.0 } else { *x }).collect();
        common_ops!($cx, $name, $row, $la, $lb, &d, "f64", fz, gz,
            maximum maximum_f: f64 = fmax; minimum minimum_f: f64 = fmin;
        );
        common_ops!($cx, $name, $row, $la, $lb, &d, "f64", F, G,
            atan2 atan2_f: f64 = |a: f64, b: f64| a.atan2(b);
            copysign copysign_f: f64 = |a: f64, b: f64| if a.is_nan() { a } else { a.abs() * (if b.is_sign_negative() { -1.0 } else { 1.0 }) };
            hypot hypot_f: f64 = |a: f64, b: f64| a.hypot(b);
            nextafter nextafter_f: f64 = nextafter;
            log_add_exp log_add_exp_f: f64 = |a: f64, b: f64| (a.exp() + b.exp()).ln();
            floor_divide floor_divide_f: f64 = |a: f64, b: f64| (a / b).floor();
            pow pow_f: f64 = |a: f64, b: f64| a.powf(b);
            equal equal_f: bool = |a: f64, b: f64| a == b; not_equal not_equal_f: bool = |a: f64, b: f64| a != b;
            greater greater_f: bool = |a: f64, b: f64| a > b; greater_equal greater_equal_f: bool = |a: f64, b: f64| a >= b;
            less less_f: bool = |a: f64, b: f64| a < b; less_equal less_equal_f: bool = |a: f64, b: f64| a <= b;
            eq eq_f: bool = |a: f64, b: f64| a == b; ne ne_f: bool = |a: f64, b: f64| a != b;
            gt gt_f: bool = |a: f64, b: f64| a > b; ge ge_f: bool = |a: f64, b: f64| a >= b;
            lt lt_f: bool = |a: f64, b: f64| a < b; le le_f: bool = |a: f64, b: f64| a <= b;
        );
        common_ops!($cx, $name, $row, $la, $lb, &d, "f32", F3, F3,
            atan2 atan2_f: f32 = |a: f32, b: f32| a.atan2(b);
            hypot hypot_f: f32 = |a: f32, b: f32| a.hypot(b);
            maximum maximum_f: f32 = |a: f32, b: f32| if a > b { a } else { b };
        );
        common_ops!($cx, $name, $row, $la, $lb, &d, "i32", I, IN,
            maximum maximum_f: i32 = |a: i32, b: i32| if a > b { a } else { b };
            minimum minimum_f: i32 = |a: i32, b: i32| if a < b { a } else { b };
            floor_divide floor_divide_f: i32 = |a: i32, b: i32| floor_div(a as i64, b as i64) as i32;
            atan2 atan2_f: f64 = |a: i32, b: i32| (a as f64).atan2(b as f64);
            hypot hypot_f: f64 = |a: i32, b: i32| (a as f64).hypot(b as f64);
            equal equal_f: bool = |a: i32, b: i32| a == b; not_equal not_equal_f: bool = |a: i32, b: i32| a != b;
            greater greater_f: bool = |a: i32, b: i32| a > b; greater_equal greater_equal_f: bool = |a: i32, b: i32| a >= b;
            less less_f: bool = |a: i32, b: i32| a < b; less_equal less_equal_f: bool = |a: i32, b: i32| a <= b;
        );
        common_ops!($cx, $name, $row, $la, $lb, &d, "f64,i32", F, IP,
            pow pow_f: f64 = |a: f64, b: i32| a.powi(b);
        );
        common_ops!($cx, $name, $row, $la, $lb, &d, "u32", U, [1u32, 2, 0, 3],
            pow pow_f: u32 = |a: u32, b: u32| (0..b).fold(1, |x, _| x * a);
        );
    }};
}

macro_rules! all_unary {
    ($cx:expr, $name:expr, $row:expr, $la:expr, $d:expr) => {{
        let d = $d;
        unary_ops!($cx, $name, $row, $la, &d, "f64", F,
            acos acos_f own: f64 = |x: f64| x.acos(); acosh acosh_f own: f64 = |x: f64| x.acosh();
            asin asin_f own: f64 = |x: f64| x.asin(); asinh asinh_f own: f64 = |x: f64| x.asinh();
            atan atan_f own: f64 = |x: f64| x.atan(); atanh atanh_f own: f64 = |x: f64| x.atanh();
            ceil ceil_f own: f64 = |x: f64| x.ceil(); conj conj_f own: f64 = |x: f64| x;
            cos cos_f own: f64 = |x: f64| x.cos(); cosh cosh_f own: f64 = |x: f64| x.cosh();
            exp exp_f own: f64 = |x: f64| x.exp(); expm1 expm1_f own: f64 = |x: f64| x.exp_m1();
            floor floor_f own: f64 = |x: f64| x.floor(); inv inv_f own: f64 = |x: f64| 1.0 / x;
            log log_f own: f64 = |x: f64| x.ln(); log2 log2_f own: f64 = |x: f64| x.log2(); log10 log10_f own: f64 = |x: f64| x.log10();
            reciprocal reciprocal_f own: f64 = |x: f64| 1.0 / x; round round_f own: f64 = |x: f64| x.round();
            signbit signbit_f no: bool = |x: f64| x.is_sign_negative();
            sin sin_f own: f64 = |x: f64| x.sin(); sinh sinh_f own: f64 = |x: f64| x.sinh();
            square square_f own: f64 = |x: f64| x * x; sqrt sqrt_f own: f64 = |x: f64| x.sqrt();
            tan tan_f own: f64 = |x: f64| x.tan(); tanh tanh_f own: f64 = |x: f64| x.tanh();
            trunc trunc_f own: f64 = |x: f64| x.trunc();
            is_finite is_finite_f no: bool = |x: f64| x - x == 0.0; is_inf is_inf_f no: bool = |x: f64| x.abs() == f64::INFINITY;
            is_nan is_nan_f no: bool = |x: f64| x.is_nan();
            abs abs_f own: f64 = |x: f64| x.abs(); real real_f own: f64 = |x: f64| x; imag imag_f own: f64 = |_: f64| 0.0;
            sign sign_f own: f64 = sign;
        );
        unary_ops!($cx, $name, $row, $la, &d, "i32", I,
            sin sin_f no: f64 = |x: i32| (x as f64).sin(); floor floor_f no: f64 = |x: i32| x as f64;
            sqrt sqrt_f no: f64 = |x: i32| (x as f64).sqrt();
            square square_f own: i32 = |x: i32| x * x; abs abs_f own: i32 = |x: i32| x.abs(); sign sign_f own: i32 = |x: i32| x.signum();
            real real_f own: i32 = |x: i32| x; imag imag_f own: i32 = |_: i32| 0; signbit signbit_f no: bool = |x: i32| x < 0;
        );
        unary_ops!($cx, $name, $row, $la, &d, "u32", U,
            square square_f own: u32 = |x: u32| x * x; abs abs_f own: u32 = |x: u32| x; sign sign_f own: u32 = |x: u32| x.min(1);
            cos cos_f no: f64 = |x: u32| (x as f64).cos();
        );
        let z: Vec<Complex<f64>> = vec![Complex::new(1.0, 2.0), Complex::new(-0.5, 0.25), Complex::new(0.0, -1.5), Complex::new(2.0, 0.5), Complex::new(-3.0, -4.0)];
        unary_ops!($cx, $name, $row, $la, &d, "c64", z,
            conj conj_f own: Complex<f64> = |x: Complex<f64>| Complex::new(x.re, -x.im);
            exp exp_f own: Complex<f64> = |x: Complex<f64>| Complex::new(x.re.exp() * x.im.cos(), x.re.exp() * x.im.sin());
            square square_f own: Complex<f64> = |x: Complex<f64>| Complex::new(x.re * x.re - x.im * x.im, 2.0 * x.re * x.im);
            inv inv_f own: Complex<f64> = |x: Complex<f64>| { let n = x.re * x.re + x.im * x.im; Complex::new(x.re / n, -x.im / n) };
            sin sin_f own: Complex<f64> = |x: Complex<f64>| Complex::new(x.re.sin() * x.im.cosh(), x.re.cos() * x.im.sinh());
            abs abs_f no: f64 = |x: Complex<f64>| x.re.hypot(x.im);
            real real_f no: f64 = |x: Complex<f64>| x.re; imag imag_f no: f64 = |x: Complex<f64>| x.im;
            sign sign_f own: Complex<f64> = |x: Complex<f64>| { let n = x.re.hypot(x.im); Complex::new(x.re / n, x.im / n) };
            is_finite is_finite_f no: bool = |_: Complex<f64>| true; is_nan is_nan_f no: bool = |_: Complex<f64>| false;
        );
    }};
}

macro_rules! all_arith {
    ($cx:expr, $name:expr, $row:expr, $la:expr, $lb:expr, $d:expr) => {{
        let d = $d;
        arith_ops!($cx, $name, $row, $la, $lb, &d, i32,
            add add_f |a, b| a + b; sub sub_f |a, b| a - b; mul mul_f |a, b| a * b; div div_f |a, b| a / b;
            bitor bitor_f |a, b| a | b; bitand bitand_f |a, b| a & b; bitxor bitxor_f |a, b| a ^ b; shl shl_f |a, b| a << b; shr shr_f |a, b| a >> b;
            rem rem_f |a, b| a % b;
        );
        arith_ops!($cx, $name, $row, $la, $lb, &d, u8,
            add add_f |a, b| a + b; div div_f |a, b| a / b; bitand bitand_f |a, b| a & b;
        );
        arith_ops!($cx, $name, $row, $la, $lb, &d, f64,
            add add_f |a, b| a + b; sub sub_f |a, b| a - b; mul mul_f |a, b| a * b; div div_f |a, b| a / b;
        );
    }};
}

macro_rules! dev_fns {
    ($D:ty, $fm:ident, $pair:ident, $arith:ident, $common:ident, $unary:ident, $maps:ident) => {
        fn $pair(cx: &mut Cx, name: &str, row: bool, la: &Lay, lb: &Lay, d: $D) { pair_forms!(cx, name, row, la, lb, d, $fm) }
        fn $arith(cx: &mut Cx, name: &str, row: bool, la: &Lay, lb: &Lay, d: $D) { all_arith!(cx, name, row, la, lb, d) }
        fn $common(cx: &mut Cx, name: &str, row: bool, la: &Lay, lb: &Lay, d: $D) { all_common!(cx, name, row, la, lb, d) }
        fn $unary(cx: &mut Cx, name: &str, row: bool, la: &Lay, d: $D) { all_unary!(cx, name, row, la, d) }
        fn $maps(cx: &mut Cx, name: &str, row: bool, la: &Lay, d: $D) { maps!(cx, name, row, la, d, $fm) }
    };
}
dev_fns!(DeviceCpuSerial, yes, pair_s, arith_s, common_s, unary_s, maps_s);
dev_fns!(DeviceFaer, no, pair_f, arith_f, common_f, unary_f, maps_f);

/// layouts of higher rank: every axis deviated one at a time, plus reversed and rotated memory orders
fn high(shape: &[usize]) -> Vec<Lay> {
    let n = shape.len();
    let mut v = vec![c_contig(shape), f_contig(shape)];
    let rot: Vec<usize> = (0..n).map(|i| (i + 1) % n).collect();
    v.push(build(shape, &rot, &vec![PLAIN; n], 2, 1));
    for k in 0..n {
        for a in [FLIP, STEP, BCAST] {
            let mut ax = vec![PLAIN; n];
            ax[k] = a;
            v.push(build(shape, &(0..n).rev().collect::<Vec<_>>(), &ax, 1, 0));
        }
    }
    v
}

fn main() {
    fw::main("P06", |r| {
        let sh = shapes(0, 3, r.pick(&[0, 1, 2], &[0, 1, 2, 3]));
        let k = 1;
        r.bound(format!("two operands: every pair of shapes of rank 0..=3 with extents in {:?}, every layout of each within one deviation of contiguous, both conventions, serial and 4-thread rayon/faer device, 20 ownership forms", r.pick("0..=2", "0..=3")));
        r.bound("every operator/function over a fixed set of layout pairs incl. sizes around the inner-loop (16) and parallel (4096) thresholds; value lists with zeros, infinities, NaN, negative numbers");
        r.assume("the scalar operations of the Rust standard library are right; floating-point results are compared up to 1e-12 relative (1e-5 for f32)");
        let mut pairs = vec![];
        for a in &sh {
            for b in &sh {
                pairs.push((a.clone(), b.clone()));
            }
        }
        // inner contiguous runs below, at and above the switch sizes, with the other operand broadcast or not
        let long: Vec<(Vec<usize>, Vec<usize>)> = [
            (vec![15], vec![15]), (vec![16], vec![16]), (vec![17], vec![1]), (vec![2, 16], vec![16]), (vec![16, 2], vec![16, 1]), (vec![17, 2], vec![2]),
            (vec![2, 2, 8], vec![2, 8]), (vec![3, 33], vec![3, 33]), (vec![4, 5, 2], vec![5, 2]), (vec![5, 1, 16], vec![1, 3, 1]), (vec![2, 8, 2], vec![2, 8, 2]),
        ].into_iter().collect();
        let dk = |s: &Vec<usize>, k: usize| layouts_dev(s, &K1, k);
        r.par("pairs", &pairs, |cx, (a, b)| {
            let ok = bshape(a, b, true).is_some() || bshape(a, b, false).is_some();
            let (va, vb) = if ok { (dk(a, k), dk(b, k)) } else { (vec![c_contig(a)], vec![c_contig(b)]) };
            for row in [true, false] {
                for la in &va {
                    for lb in &vb {
                        cx.state(&(la, lb));
                        pair_s(cx, "serial", row, la, lb, serial(row));
                    }
                }
            }
        });
        r.par("pairs-faer", &pairs, |cx, (a, b)| {
            if bshape(a, b, true).is_none() { return }
            let (va, vb) = (dk(a, k), dk(b, k));
            for (i, la) in va.iter().enumerate() {
                for (j, lb) in vb.iter().enumerate() {
                    if (i + j) % r.pick(5, 2) == 0 {
                        pair_f(cx, "faer", true, la, lb, faer(true, 4));
                    }
                }
            }
        });
        let mut ll = vec![];
        for (a, b) in &long {
            for la in dk(a, r.pick(1, 2)) {
                ll.push((la, b.clone()));
            }
        }
        r.par("pairs-long", &ll, |cx, (la, b)| {
            for row in [true, false] {
                if bshape(&la.shape, b, row).is_none() { continue }
                for lb in dk(b, r.pick(1, 2)) {
                    cx.state(&(la, &lb));
                    pair_s(cx, "serial", row, la, &lb, serial(row));
                    if row { pair_f(cx, "faer", row, la, &lb, faer(row, 4)); }
                }
            }
        });
        let hs: Vec<Vec<usize>> = vec![vec![2, 2, 1, 2], vec![1, 3, 2, 2], vec![2, 1, 2, 2, 2], vec![2, 2, 2, 1, 2, 2], vec![2, 2, 1, 2, 2, 2, 2], vec![2, 1, 2, 1, 2, 2, 2, 2]];
        let hl: Vec<Lay> = hs.iter().flat_map(|s| high(s)).collect();
        r.par("pairs-high-rank", &hl, |cx, la| {
            for row in [true, false] {
                let mut others = high(&la.shape);
                let n = la.ndim();
                let tail = if row { la.shape[n - 2..].to_vec() } else { la.shape[..2].to_vec() };
                others.extend(high(&tail));
                for lb in others {
                    pair_s(cx, "serial", row, la, &lb, serial(row));
                    pair_s(cx, "serial-swapped", row, &lb, la, serial(row));
                }
            }
        });
        // sizes around the parallel threshold
        let mut big = vec![];
        for s in [vec![4095usize], vec![4096], vec![4097], vec![64, 65], vec![3, 1400], vec![16, 16, 17], vec![1400, 3]] {
            for la in dk(&s, 1) {
                for lb in dk(&s, 1) { big.push((la.clone(), lb)); }
                if s.len() > 1 {
                    let t = vec![s[0]];
                    for lb in dk(&t, 1) { big.push((la.clone(), lb)); }
                    let t = vec![s[s.len() - 1]];
                    for lb in dk(&t, 1) { big.push((la.clone(), lb)); }
                }
            }
        }
        let big: Vec<_> = big.into_iter().enumerate().filter(|(i, _)| i % r.pick(7, 1) == 0).map(|x| x.1).collect();
        r.par("pairs-parallel", &big, |cx, (la, lb)| {
            for row in [true, false] {
                if bshape(&la.shape, &lb.shape, row).is_none() { continue }
                pair_f(cx, "faer", row, la, lb, faer(row, 4));
            }
        });
        let mut lp = vec![];
        for (a, b) in [(vec![3usize, 4], vec![3usize, 4]), (vec![3, 3], vec![3]), (vec![20], vec![20]), (vec![2, 20], vec![2, 20]), (vec![5000], vec![5000])] {
            for la in dk(&a, if a[0] > 100 { 1 } else { r.pick(1, 2) }) {
                for lb in dk(&b, 1) { lp.push((la.clone(), lb)); }
            }
        }
        r.par("operators", &lp, |cx, (la, lb)| {
            if la.len < 4000 {
                arith_s(cx, "serial", true, la, lb, serial(true));
                arith_s(cx, "serial", false, la, lb, serial(false));
            }
            arith_f(cx, "faer", true, la, lb, faer(true, 4));
        });
        r.par("functions", &lp, |cx, (la, lb)| {
            if la.len < 4000 {
                common_s(cx, "serial", true, la, lb, serial(true));
                common_s(cx, "serial", false, la, lb, serial(false));
            }
            common_f(cx, "faer", true, la, lb, faer(true, 4));
        });
        let mut lu: Vec<Lay> = vec![];
        for s in [vec![], vec![0], vec![1], vec![19], vec![3, 4], vec![2, 20], vec![20, 2], vec![2, 3, 4], vec![4200], vec![70, 62]] {
            lu.extend(dk(&s, if prod(&s) > 1000 { 1 } else { 2 }));
        }
        r.par("unary", &lu, |cx, la| {
            if la.len < 4000 {
                unary_s(cx, "serial", true, la, serial(true));
                unary_s(cx, "serial", false, la, serial(false));
            }
            unary_f(cx, "faer", true, la, faer(true, 4));
        });
        let mut lm: Vec<Lay> = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) { lm.extend(dk(&s, 2)); }
        for s in [vec![15], vec![16], vec![17], vec![2, 16], vec![17, 2], vec![4096], vec![64, 65], vec![3, 1400], vec![2, 3, 700]] { lm.extend(dk(&s, if prod(&s) > 1000 { 1 } else { 2 })); }
        lm.extend(hl.clone());
        r.par("maps", &lm, |cx, la| {
            cx.state(&la);
            for row in [true, false] {
                maps_s(cx, "serial", row, la, serial(row));
            }
            maps_f(cx, "faer", true, la, faer(true, 4));
        });
    });
}
