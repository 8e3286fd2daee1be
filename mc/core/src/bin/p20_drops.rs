//! P20: every element is dropped exactly once, also when an operation is rejected or user code panics.
//!
//! The element type Dt keeps a global account of live elements and panics at the k-th call into user code
//! (clone, default, arithmetic, comparison, closure) if asked to: every k is enumerated for every operation.
use core_mc::*;
use std::cmp::Ordering as Ord_;
use std::collections::HashSet;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

const MAGIC: u64 = 0x600d_600d_1234_5678;
const DEAD: u64 = 0xdead_dead_dead_dead;
static FUSE: AtomicI64 = AtomicI64::new(0);
static TICKS: AtomicI64 = AtomicI64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(1);
static LIVE: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
static BAD: Mutex<Vec<String>> = Mutex::new(vec![]);

fn bad(s: String) { let mut b = BAD.lock().unwrap_or_else(|e| e.into_inner()); if b.len() < 5 { b.push(s) } }
fn tick() {
    TICKS.fetch_add(1, SeqCst);
    if FUSE.load(SeqCst) > 0 && FUSE.fetch_sub(1, SeqCst) == 1 { panic!("injected") }
}

/// an element with a destructor; heap-free so that garbage can be examined safely
#[derive(Debug)]
struct Dt { magic: u64, id: u64, v: i64 }
impl Dt {
    fn mk(v: i64) -> Dt {
        let id = NEXT.fetch_add(1, SeqCst);
        LIVE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashSet::new).insert(id);
        Dt { magic: MAGIC, id, v }
    }
    fn get(&self) -> i64 {
        let m = unsafe { std::ptr::read_volatile(&self.magic) };
        if m != MAGIC { bad(format!("an element is read {}", if m == DEAD { "after it was dropped" } else { "before it was initialised" })) }
        self.v
    }
    fn un(&self, f: impl Fn(i64) -> i64) -> Dt { let a = self.get(); tick(); Dt::mk(f(a)) }
    fn bin(&self, o: &Dt, f: impl Fn(i64, i64) -> i64) -> Dt { let (a, b) = (self.get(), o.get()); tick(); Dt::mk(f(a, b)) }
}
impl Drop for Dt {
    fn drop(&mut self) {
        let m = unsafe { std::ptr::read_volatile(&self.magic) };
        if m == DEAD { return bad("an element is dropped twice".into()) }
        if m != MAGIC { return bad("memory that was never initialised is dropped".into()) }
        if !LIVE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashSet::new).remove(&self.id) { bad("a bitwise copy of a dropped element is dropped again".into()) }
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) }
    }
}
impl Clone for Dt { fn clone(&self) -> Dt { self.un(|a| a) } }
impl Default for Dt { fn default() -> Dt { tick(); Dt::mk(0) } }
impl PartialEq for Dt { fn eq(&self, o: &Dt) -> bool { tick(); self.get() == o.get() } }
impl Eq for Dt {}
impl PartialOrd for Dt { fn partial_cmp(&self, o: &Dt) -> Option<Ord_> { tick(); self.get().partial_cmp(&o.get()) } }
impl Ord for Dt { fn cmp(&self, o: &Dt) -> Ord_ { tick(); self.get().cmp(&o.get()) } }
macro_rules! ops { ($($tr:ident $f:ident $atr:ident $af:ident $e:expr;)*) => { $(
    impl $tr for Dt { type Output = Dt; fn $f(self, o: Dt) -> Dt { self.bin(&o, $e) } }
    impl $tr<&Dt> for Dt { type Output = Dt; fn $f(self, o: &Dt) -> Dt { self.bin(o, $e) } }
    impl $tr<Dt> for &Dt { type Output = Dt; fn $f(self, o: Dt) -> Dt { self.bin(&o, $e) } }
    impl $tr<&Dt> for &Dt { type Output = Dt; fn $f(self, o: &Dt) -> Dt { self.bin(o, $e) } }
    impl $atr for Dt { fn $af(&mut self, o: Dt) { let r = self.bin(&o, $e); *self = r } }
)* } }
ops! {
    Add add AddAssign add_assign |a, b| a.wrapping_add(b); Sub sub SubAssign sub_assign |a, b| a.wrapping_sub(b);
    Mul mul MulAssign mul_assign |a, b| a.wrapping_mul(b); Div div DivAssign div_assign |a, b| a.wrapping_div(if b == 0 { 1 } else { b });
    Rem rem RemAssign rem_assign |a, b| a.wrapping_rem(if b == 0 { 1 } else { b });
}
impl Neg for Dt { type Output = Dt; fn neg(self) -> Dt { self.un(|a| -a) } }
impl Neg for &Dt { type Output = Dt; fn neg(self) -> Dt { self.un(|a| -a) } }
impl num::Zero for Dt { fn zero() -> Dt { tick(); Dt::mk(0) } fn is_zero(&self) -> bool { self.get() == 0 } }
impl num::One for Dt { fn one() -> Dt { tick(); Dt::mk(1) } }
impl num::Num for Dt { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Dt, ()> { Err(()) } }
impl num::Bounded for Dt { fn min_value() -> Dt { tick(); Dt::mk(i64::MIN) } fn max_value() -> Dt { tick(); Dt::mk(i64::MAX) } }

impl rstsr_dtype_traits::ExtReal for Dt {
    fn ext_floor_divide(self, o: Dt) -> Dt { self / o }
    fn ext_min(self, o: Dt) -> Dt { if self <= o { self } else { o } }
    fn ext_min_value() -> Dt { tick(); Dt::mk(i64::MIN) }
    fn ext_max(self, o: Dt) -> Dt { if self >= o { self } else { o } }
    fn ext_max_value() -> Dt { tick(); Dt::mk(i64::MAX) }
}
impl rstsr_dtype_traits::ExtNum for Dt {
    type AbsOut = Dt;
    const ABS_UNCHANGED: bool = false;
    const ABS_SAME_TYPE: bool = true;
    fn ext_abs(self) -> Dt { self.un(|a| a.abs()) }
    fn ext_abs_diff(self, o: Dt) -> Dt { self.bin(&o, |a, b| (a - b).abs()) }
    fn ext_sign(self) -> Dt { self.un(|a| a.signum()) }
    fn ext_real(self) -> Dt { self }
    fn ext_imag(self) -> Dt { self.un(|_| 0) }
}

fn raw(len: usize) -> Vec<Dt> { (0..len).map(|k| Dt::mk((k as i64 * 7) % 11 - 3)).collect() }

fn reset(fuse: i64) { FUSE.store(fuse, SeqCst); TICKS.store(0, SeqCst); *LIVE.lock().unwrap_or_else(|e| e.into_inner()) = Some(HashSet::new()); BAD.lock().unwrap_or_else(|e| e.into_inner()).clear(); }
fn live() -> usize { LIVE.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map_or(0, |l| l.len()) }
fn verdict() -> Result<(), String> { let b = BAD.lock().unwrap_or_else(|e| e.into_inner()); if b.is_empty() { Ok(()) } else { Err(b.join("; ")) } }

/// Runs `f` to the end, then once for every point at which user code can panic.
fn explore(cx: &mut Cx, key: std::fmt::Arguments, max: i64, f: &dyn Fn() -> bool) {
    let mut points = 0;
    cx.case(format_args!("{key}"), || {
        reset(0);
        let ok = match call(|| f()) { Ok(b) => b, Err(p) => { verdict().map_err(|e| format!("{e}; {p}"))?; return Err(format!("does not return: {p}")) } };
        points = TICKS.load(SeqCst);
        verdict()?;
        if live() != 0 { return Err(format!("{} element(s) are never dropped", live())) }
        if ok { Ok(Out::Val) } else { Ok(Out::Rej) }
    });
    if points > max { // large arrays: panic points at both ends and at power-of-two distances
        let mut k = 1;
        while k < points { for p in [k, points - k + 1] { point(cx, key, p, f) } k *= 2 }
    } else { for k in 1..=points { point(cx, key, k, f) } }
}
fn point(cx: &mut Cx, key: std::fmt::Arguments, k: i64, f: &dyn Fn() -> bool) {
    cx.case(format_args!("{key}|user code panics at call {k}"), || {
        reset(k);
        let r = call(|| f());
        FUSE.store(0, SeqCst);
        verdict()?;
        match r { Err(_) => Ok(Out::Rej), Ok(_) if TICKS.load(SeqCst) < k => Ok(Out::Skip), Ok(_) => Err("the panic of user code disappears".into()) }
    });
}

macro_rules! only_serial { (DeviceCpuSerial $b:block) => { $b }; (DeviceFaer $b:block) => {} }
macro_rules! program {
    ($cx:expr, $name:expr, $d:expr, $l:expr, $max:expr, $dt:ident) => {{
        let (cx, d, l, max): (&mut Cx, $dt, &Lay, i64) = ($cx, $d, $l, $max);
        cx.state(&($name.to_string(), l));
        let nd = l.ndim();
        let mk = || tensor_of(raw(l.len), l, &d);
        macro_rules! go { ($op:expr, |$t:ident| $e:expr) => { explore(cx, format_args!("{}|{}|{l:?}", $name, $op), max, &|| { #[allow(unused_mut)] let mut $t = mk(); let r = $e; let ok = r.is_ok(); drop(r); ok }) }; }
        let ok = Ok::<(), ()>(());
        let _ = &ok;
        // ownership forms
        go!("drop", |_t| Ok::<(), ()>(()));
        go!("clone", |t| Ok::<_, ()>(t.clone()));
        go!("view to_owned", |t| Ok::<_, ()>(t.view().to_owned()));
        go!("into_owned", |t| Ok::<_, ()>(t.into_owned()));
        go!("into_owned_keep_layout", |t| Ok::<_, ()>(t.into_owned_keep_layout()));
        go!("into_shared twice", |t| { let a = t.into_shared(); let b = a.to_owned(); Ok::<_, ()>((a.into_owned(), b.into_owned())) });
        go!("into_cow", |t| { let c = t.into_cow(); Ok::<_, ()>(c.into_owned()) });
        go!("view into_cow into_owned", |t| { let c = t.view().into_cow(); Ok::<_, ()>(c.into_owned()) });
        go!("view into_shared", |t| Ok::<_, ()>(t.view().into_shared()));
        go!("view into_owned_keep_layout", |t| Ok::<_, ()>(t.view().into_owned_keep_layout()));
        go!("view_mut into_owned", |t| Ok::<_, ()>(t.view_mut().into_owned()));
        go!("into_raw", |t| t.into_raw_f());
        go!("to_raw", |t| t.to_raw_f());
        if nd == 1 { go!("into_vec", |t| t.into_vec_f()); go!("to_vec", |t| Ok::<_, ()>(t.to_vec())); }
        if nd == 0 || l.size() == 1 { go!("into_scalar", |t| t.into_shape_f([1]).unwrap().to_owned().into_vec_f()); }
        // layouts
        for o in [ROW, COL] {
            go!(format!("to_contig {o:?}"), |t| t.to_contig_f(o).map(|x| x.into_owned()));
            go!(format!("into_contig {o:?}"), |t| t.into_contig_f(o));
            go!(format!("to_prefer {o:?}"), |t| t.to_prefer_f(o).map(|x| x.into_owned()));
            go!(format!("view into_prefer {o:?}"), |t| t.view().into_prefer_f(o).map(|x| x.into_owned()));
            go!(format!("into_layout {o:?}"), |t| t.into_layout_f(l.shape.clone().new_contig(None, o)));
            go!(format!("to_layout {o:?}"), |t| t.to_layout_f(l.shape.clone().new_contig(None, o)).map(|x| x.into_owned()));
        }
        go!("into_layout with gaps", |t| t.into_layout_f(gaps(&l.shape)));
        go!("to_layout with gaps", |t| t.to_layout_f(gaps(&l.shape)).map(|x| x.into_owned()));
        go!("into_shape", |t| t.into_shape_f([-1]));
        go!("reshape", |t| t.reshape_f(-1).map(|x| x.into_owned()));
        go!("reshape to wrong size", |t| t.reshape_f(vec![l.size() as isize + 1]).map(|x| x.into_owned()));
        go!("change_shape", |t| t.change_shape_f(-1).map(|x| x.into_owned()));
        go!("into_transpose", |t| t.into_transpose_f(()));
        go!("into_flip then owned", |t| Ok::<_, ()>(t.into_flip(()).into_owned()));
        go!("to_broadcast to_owned", |t| { let mut s = vec![2]; s.extend(&l.shape); t.to_broadcast_f(s).map(|x| x.to_owned()) });
        // element iteration
        go!("iter", |t| Ok::<_, ()>(t.iter().map(|x| x.get()).sum::<i64>()));
        go!("iter clone", |t| Ok::<_, ()>(t.iter().cloned().collect::<Vec<_>>()));
        if !l.has_bcast() { go!("iter_mut", |t| { for x in t.iter_mut() { *x = Dt::mk(5) } Ok::<_, ()>(()) }); }
        // maps
        go!("map", |t| t.map_f(|x| { tick(); x.get() }));
        go!("map to elements", |t| t.map_f(|x| x.clone()));
        only_serial!($dt {go!("map_fnmut to elements", |t| t.map_fnmut_f(|x| x.clone()));});
        go!("mapv", |t| t.mapv_f(|x| { tick(); x }));
        only_serial!($dt {go!("mapv_fnmut", |t| t.mapv_fnmut_f(|x| { tick(); x }));});
        if !l.has_bcast() {
            go!("mapi", |t| t.mapi_f(|x| *x = x.clone()));
            only_serial!($dt {go!("mapi_fnmut", |t| t.mapi_fnmut_f(|x| *x = x.clone()));});
            go!("mapvi", |t| t.mapvi_f(|x| { tick(); x }));
            only_serial!($dt {go!("mapvi_fnmut", |t| t.mapvi_fnmut_f(|x| { tick(); x }));});
        }
        go!("mapb", |t| { let u = mk(); t.mapb_f(&u, |a, b| a.bin(b, |x, y| x + y)) });
        only_serial!($dt {go!("mapb_fnmut", |t| { let u = mk(); t.mapb_fnmut_f(&u, |a, b| a.bin(b, |x, y| x + y)) });});
        go!("mapvb", |t| { let u = mk(); t.mapvb_f(&u, |a, b| a + b) });
        only_serial!($dt {go!("mapvb_fnmut", |t| { let u = mk(); t.mapvb_fnmut_f(&u, |a, b| a + b) });});
        // arithmetic in every ownership form
        go!("&a + &b", |t| { let u = mk(); rt::add_f(&t, &u) });
        go!("a - &b", |t| { let u = mk(); rt::sub_f(t, &u) });
        go!("&a * b", |t| { let u = mk(); rt::mul_f(&t, u) });
        go!("a / b", |t| { let u = mk(); rt::div_f(t, u) });
        go!("view + view", |t| { let u = mk(); rt::add_f(t.view(), u.view()) });
        go!("a + view", |t| { let u = mk(); rt::add_f(t, u.view()) });
        go!("cow - cow", |t| { let u = mk(); rt::sub_f(t.into_cow(), u.into_cow()) });
        go!("a + mismatched", |t| { let u = tensor_of(raw(35), &c_contig(&[5, 7]), &d); rt::add_f(t, u) });
        go!("a * one element", |t| { let u = tensor_of(raw(1), &c_contig(&[1]), &d); rt::mul_f(t, u) });
        go!("one element - a", |t| { let u = tensor_of(raw(1), &c_contig(&[1]), &d); rt::sub_f(u, t) });
        go!("a + broadcast row", |t| { let u = tensor_of(raw(2), &c_contig(&[2, 1, 1]), &d); rt::add_f(t, u) });
        go!("neg", |t| rt::neg_f(&t));
        go!("neg owned", |t| rt::neg_f(t));
        if !l.has_bcast() {
            go!("a += &b", |t| { let u = mk(); rt::add_assign_f(&mut t, &u) });
            go!("a -= b", |t| { let u = mk(); rt::sub_assign_f(&mut t, u) });
            go!("add_with_output", |t| { let (a, b) = (mk(), mk()); rt::add_with_output_f(&a, &b, &mut t) });
            go!("add_with_output row", |t| { let (a, b) = (mk(), tensor_of(raw(1), &c_contig(&[1]), &d)); rt::sub_with_output_f(&a, &b, t.view_mut()) });
            go!("assign", |t| { let u = mk(); t.assign_f(&u) });
            go!("assign one", |t| { let u = tensor_of(raw(1), &c_contig(&[1]), &d); t.assign_f(&u) });
            go!("assign mismatched", |t| { let u = tensor_of(raw(35), &c_contig(&[5, 7]), &d); t.assign_f(&u) });
            go!("fill", |t| t.fill_f(Dt::mk(3)));
        }
        go!("&a == &b", |t| { let u = mk(); rt::equal_f(&t, &u) });
        go!("&a < &b", |t| { let u = mk(); rt::less_f(&t, &u) });
        // reductions
        go!("sum", |t| t.sum_all_f());
        go!("prod", |t| t.prod_all_f());
        go!("min", |t| t.min_all_f());
        go!("max", |t| t.max_all_f());
        go!("argmin", |t| t.argmin_all_f());
        go!("unraveled_argmax", |t| t.unraveled_argmax_all_f());
        for a in -1..=nd as isize {
            go!(format!("sum_axes {a}"), |t| t.sum_axes_f(a));
            go!(format!("max_axes {a}"), |t| t.max_axes_f(a));
            go!(format!("argmax_axes {a}"), |t| t.argmax_axes_f(a));
            go!(format!("unstack {a}"), |t| rt::unstack_f((t.view(), a)).map(|v| v.into_iter().map(|x| x.into_owned()).collect::<Vec<_>>()));
            go!(format!("stack {a}"), |t| { let u = mk(); rt::stack_f((vec![t, u], a)) });
            go!(format!("stack views {a}"), |t| { let u = mk(); rt::stack_f((vec![t.view(), u.view(), t.view()], a)) });
            go!(format!("concat {a}"), |t| { let u = mk(); rt::concat_f((vec![t, u], a)) });
            go!(format!("concat mismatched {a}"), |t| { let u = tensor_of(raw(35), &c_contig(&[5, 7]), &d); rt::concat_f((vec![t, u], a)) });
            go!(format!("index_select {a}"), |t| t.index_select_f(a, vec![0isize, -1, 0]));
            go!(format!("index_select out of range {a}"), |t| t.index_select_f(a, vec![0isize, 9]));
            go!(format!("bool_select {a}"), |t| { let n = if (0..nd as isize).contains(&a) { l.shape[a as usize] } else { 1 }; t.bool_select_f(a, (0..n).map(|k| k % 2 == 0).collect::<Vec<_>>()) });
            go!(format!("into_pack_array {a}"), |t| t.into_pack_array_f::<2>(a).map(|x| x.into_unpack_array(a)));
        }
        if nd >= 2 { go!("sum_axes all but one", |t| t.sum_axes_f((1..nd as isize).collect::<Vec<_>>())); go!("sum_axes two", |t| t.sum_axes_f([0isize, nd as isize - 1])); }
        // matrices
        if nd != 1 || l.size() < 100 {
        go!("diag", |t| rt::diag_f((&t, 0)));
        go!("diag 1", |t| rt::diag_f((&t, 1)));
        go!("diag -1", |t| rt::diag_f((&t, -1)));
        }
        go!("tril", |t| rt::tril_f((&t, 0)));
        go!("triu", |t| rt::triu_f((t.to_owned(), 1)));
        go!("pack_tri", |t| t.pack_triu_f());
        go!("vecdot", |t| { let u = mk(); rt::vecdot_f(&t, &u, -1) });
        go!("vecdot 0", |t| { let u = mk(); rt::vecdot_f(&t, &u, 0) });
        go!("broadcast_arrays", |t| { let u = tensor_of(raw(1), &c_contig(&[1]), &d); rt::broadcast_arrays_f(vec![t, u]).map(|v| v.into_iter().map(|x| x.into_owned()).collect::<Vec<_>>()) });
        if l.size() < 100 {
        go!("meshgrid", |t| rt::meshgrid_f((vec![&t, &t], "ij", true)));
        go!("meshgrid without copy", |t| rt::meshgrid_f((vec![&t, &t], "xy", false)));
        }
    }};
}

macro_rules! creation {
    ($cx:expr, $name:expr, $d:expr, $dt:ty) => {{
        let (cx, d): (&mut Cx, $dt) = ($cx, $d);
        cx.state(&$name.to_string());
        for s in shapes(0, 2, &[0, 1, 2, 3]) {
            macro_rules! go { ($op:expr, $e:expr) => { explore(cx, format_args!("{}|{}|{s:?}", $name, $op), 1 << 20, &|| { let r = $e; let ok = r.is_ok(); drop(r); ok }) }; }
            go!("zeros", { let r: Result<Tensor<Dt, $dt, IxD>, _> = rt::zeros_f((s.clone(), &d)); r });
            go!("ones", { let r: Result<Tensor<Dt, $dt, IxD>, _> = rt::ones_f((s.clone(), &d)); r });
            go!("full", { let r: Result<Tensor<Dt, $dt, IxD>, _> = rt::full_f((s.clone(), Dt::mk(4), &d)); r });
            go!("zeros in a layout with gaps", { let r: Result<Tensor<Dt, $dt, IxD>, _> = rt::zeros_f((gaps(&s), &d)); r });
            go!("full in a layout with gaps", { let r: Result<Tensor<Dt, $dt, IxD>, _> = rt::full_f((gaps(&s), Dt::mk(4), &d)); r });
            go!("zeros_like", { let t = tensor_of(raw(prod(&s)), &f_contig(&s), &d); t.zeros_like_f() });
            go!("full_like", { let t = tensor_of(raw(prod(&s)), &f_contig(&s), &d); t.full_like_f(Dt::mk(1)) });
            go!("uninit then init", { let r: Result<Tensor<std::mem::MaybeUninit<Dt>, $dt, IxD>, _> = rt::uninit_f((s.clone(), &d)); r.and_then(|mut t| { t.iter_mut().for_each(|x| { x.write(Dt::mk(1)); }); unsafe { rt::assume_init_f(t) } }) });
            go!("asarray of a vector", rt::asarray_f((raw(prod(&s)), s.clone(), &d)));
            go!("asarray of a vector of wrong size", rt::asarray_f((raw(prod(&s) + 1), s.clone(), &d)));
            go!("asarray of a slice", { let v = raw(prod(&s)); rt::asarray_f((&v, s.clone(), &d)).map(|x| x.to_owned()) });
            go!("asarray of a mutable slice", { let mut v = raw(prod(&s)); rt::asarray_f((&mut v, s.clone(), &d)).map(|x| x.into_owned()) });
            if s.len() == 2 { go!("eye", { let r: Result<Tensor<Dt, $dt, _>, _> = rt::eye_f((s[0], s[1], 1, &d)); r }); }
        }
    }};
}

fn gaps(shape: &[usize]) -> Layout<IxD> {
    let st: Vec<isize> = c_contig(&shape.iter().map(|n| n + 1).collect::<Vec<_>>()).stride.iter().map(|s| s * 2).collect();
    Layout::new(shape.to_vec(), st, 1).unwrap()
}

fn tensor_of<B>(v: Vec<Dt>, l: &Lay, d: &B) -> Tensor<Dt, B, IxD>
where B: DeviceAPI<Dt, Raw = Vec<Dt>> + DeviceRawAPI<Dt, Raw = Vec<Dt>> + Clone
{
    tensor(v, l, d)
}

fn main() {
    fw::main("P20", |r| {
        r.bound("arrays of up to 3 axes of extents 0-3 in standard and deviating layouts (permuted, strided with gaps, reversed, broadcast, offset); every operation once to the end and once for every call into user code panicking there");
        r.bound("rayon device additionally with arrays above the parallel threshold (3000 elements, two threads); panic points of those at power-of-two distances from both ends");
        r.assume("when user code panics, elements written so far may leak (as safe Rust allows) but none is dropped twice or before initialisation");
        // The account of live elements is global: one worker.
        let th = r.thorough();
        let mut ls = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) {
            if s.len() == 3 && (!th && s.iter().any(|n| *n == 3 || *n == 0) && s != [3, 2, 2] && s != [2, 0, 2]) { continue }
            ls.extend(layouts_dev(&s, &ALL_KINDS, if s.len() <= 2 || th { 1 } else { 0 }));
        }
        r.par("drops", &[()], |cx, _| {
            for l in &ls {
                program!(cx, "serial row", serial(true), l, 1 << 20, DeviceCpuSerial);
                program!(cx, "serial col", serial(false), l, 1 << 20, DeviceCpuSerial);
            }
            for l in &ls { if th || l.ndim() <= 2 { program!(cx, "faer", faer(true, 2), l, 1 << 20, DeviceFaer); } }
            for l in [c_contig(&[3000]), c_contig(&[60, 50]), f_contig(&[60, 50]), f_contig(&[3, 20, 50]), Lay { shape: vec![50, 60], stride: vec![130, 2], offset: 3, len: 6500 }] {
                program!(cx, "faer", faer(true, 2), &l, 200, DeviceFaer);
            }
            creation!(cx, "serial row", serial(true), DeviceCpuSerial);
            creation!(cx, "serial col", serial(false), DeviceCpuSerial);
            creation!(cx, "faer", faer(true, 2), DeviceFaer);
        });
    });
}
