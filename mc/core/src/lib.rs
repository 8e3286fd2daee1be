//! Shared helpers: building tensors over chosen memory layouts and reading them back without using any
//! of the library's own iteration or indexing code.
pub use fw::lay::*;
pub use fw::nd::*;
pub mod mmx;
pub use fw::{call, hash_of, Cx, Out, Res, Runner};
pub use num::{Complex, Zero};
pub use rstsr_common::prelude_dev::{AxesIndex, Indexer, Slice, SliceI};
pub use rstsr_core::prelude::*;
pub use rstsr_core::prelude_dev::{op_muta_func, op_muta_refb_func, op_mutc_refa_refb_func, op_refa_refb_func, Storage, TensorIterOrder, DeviceCreationAnyAPI, OpAssignArbitaryAPI, OpAssignAPI};
pub use FlagOrder::{C as ROW, F as COL};

pub fn layout(l: &Lay) -> Layout<IxD> {
    Layout::new(l.shape.clone(), l.stride.clone(), l.offset).unwrap()
}

pub fn lay_of<D: rstsr_common::prelude_dev::DimAPI>(l: &Layout<D>, len: usize) -> Lay {
    Lay { shape: l.shape().as_ref().to_vec(), stride: l.stride().as_ref().to_vec(), offset: l.offset(), len }
}

/// A device of type B set to the row-major / column-major convention.
pub fn dev<B: DeviceBaseAPI + Default>(row: bool) -> B {
    let mut d = B::default();
    d.set_default_order(if row { ROW } else { COL });
    d
}
pub fn faer(row: bool, n: usize) -> DeviceFaer {
    // one pool per explorer thread, convention and number of threads
    thread_local! { static FAER: std::cell::RefCell<std::collections::HashMap<(bool, usize), DeviceFaer>> = Default::default(); }
    FAER.with(|f| {
        f.borrow_mut()
            .entry((row, n))
            .or_insert_with(|| {
                let mut d = DeviceFaer::new(n);
                d.set_default_order(if row { ROW } else { COL });
                d
            })
            .clone()
    })
}
pub fn serial(row: bool) -> DeviceCpuSerial {
    dev(row)
}

pub fn tensor<T: Clone, B>(raw: Vec<T>, l: &Lay, d: &B) -> Tensor<T, B, IxD>
where
    B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>> + Clone,
{
    assert!(raw.len() == l.len);
    let storage = Storage::new(raw.into(), d.clone());
    Tensor::new(storage, layout(l))
}

/// distinct values: position p of the buffer holds p*3+base
pub fn raw_i64(len: usize, base: i64) -> Vec<i64> {
    (0..len as i64).map(|p| base + 3 * p).collect()
}

/// The logical content of a layout over a buffer; fails if the layout leaves the buffer.
pub fn read<T: Clone>(raw: &[T], shape: &[usize], stride: &[isize], offset: usize) -> Result<Nd<T>, String> {
    if shape.len() != stride.len() {
        return Err(format!("shape {shape:?} and stride {stride:?} have different lengths"));
    }
    let size: usize = shape.iter().product();
    if size > 10_000_000 {
        return Err(format!("implausible shape {shape:?}"));
    }
    let mut bad = None;
    let mut data = Vec::with_capacity(size);
    each_index(shape, |i| {
        let mut p = offset as i128;
        for (a, b) in i.iter().zip(stride) {
            p += *a as i128 * *b as i128;
        }
        if p < 0 || p >= raw.len() as i128 {
            bad.get_or_insert((i.to_vec(), p));
        } else {
            data.push(raw[p as usize].clone());
        }
    });
    if let Some((i, p)) = bad {
        return Err(format!("element {i:?} lies at buffer position {p}, outside the buffer of {} (shape {shape:?} stride {stride:?} offset {offset})", raw.len()));
    }
    Ok(Nd { shape: shape.to_vec(), data })
}

pub fn logical<R, T: Clone, B, D>(t: &TensorAny<R, T, B, D>) -> Result<Nd<T>, String>
where
    R: DataAPI<Data = Vec<T>>,
    B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>>,
    D: rstsr_common::prelude_dev::DimAPI,
{
    let l = t.layout();
    let r = read(t.raw(), l.shape().as_ref(), l.stride().as_ref(), l.offset())?;
    if l.size() != r.data.len() {
        return Err(format!("size() says {} for shape {:?}", l.size(), r.shape));
    }
    Ok(r)
}

pub fn same<T: PartialEq + std::fmt::Debug>(got: &Nd<T>, want: &Nd<T>) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("got {got:?}, expected {want:?}"))
    }
}

pub fn check_t<R, T: Clone + PartialEq + std::fmt::Debug, B, D>(t: &TensorAny<R, T, B, D>, want: &Nd<T>) -> Result<(), String>
where
    R: DataAPI<Data = Vec<T>>,
    B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>>,
    D: rstsr_common::prelude_dev::DimAPI,
{
    same(&logical(t)?, want)
}

/// Compare the outcome of a fallible call with what the model expects (None: must be rejected).
pub fn expect<R, T: Clone + PartialEq + std::fmt::Debug, B, D, E: std::fmt::Debug>(
    got: Result<TensorAny<R, T, B, D>, E>,
    want: Option<&Nd<T>>,
) -> Res
where
    R: DataAPI<Data = Vec<T>>,
    B: DeviceAPI<T, Raw = Vec<T>> + DeviceRawAPI<T, Raw = Vec<T>>,
    D: rstsr_common::prelude_dev::DimAPI,
{
    match (got, want) {
        (Ok(t), Some(w)) => {
            check_t(&t, w)?;
            Ok(Out::Val)
        },
        (Err(_), None) => Ok(Out::Rej),
        (Ok(t), None) => Err(format!("accepted, giving {:?}, but must be rejected", logical(&t).map(|n| n.shape))),
        (Err(e), Some(w)) => Err(format!("rejected with {e:?}, but the result is defined: {w:?}")),
    }
}

/// Python slice semantics on an axis of length n.
pub fn py_slice(n: usize, start: Option<isize>, stop: Option<isize>, step: Option<isize>) -> Option<Vec<usize>> {
    let n = n as isize;
    let step = step.unwrap_or(1);
    if step == 0 {
        return None;
    }
    let clamp = |v: isize, lo: isize, hi: isize| v.max(lo).min(hi);
    let (lo, hi) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let norm = |v: Option<isize>, d: isize| match v {
        None => d,
        Some(v) => clamp(if v < 0 { v + n } else { v }, lo, hi),
    };
    let (a, b) = if step > 0 { (norm(start, 0), norm(stop, n)) } else { (norm(start, n - 1), norm(stop, -1)) };
    let mut out = vec![];
    let mut i = a;
    while (step > 0 && i < b) || (step < 0 && i > b) {
        out.push(i as usize);
        i += step;
    }
    Some(out)
}

/// Fresh memory is filled with 0xff (NaN for floats, -1 for integers, an invalid bool), so that a result
/// that depends on memory nobody wrote differs from the model instead of looking right by luck.
struct Poison;
thread_local! {
    /// (pointer, size, releases seen; more than one if the size was wrong)
    static WATCH: std::cell::Cell<(usize, usize, usize)> = const { std::cell::Cell::new((0, 0, 0)) };
}
/// watches an allocation of `n` bytes at `p` being released on this thread
pub fn watch(p: usize, n: usize) { WATCH.with(|w| w.set((p, n, 0))) }
/// how the watched allocation was released: None if not at all, otherwise whether with its own size
pub fn watched() -> Option<bool> {
    WATCH.with(|w| { let k = w.get().2; w.set((0, 0, 0)); if k == 0 { None } else { Some(k == 1) } })
}
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xff, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = WATCH.try_with(|w| {
            let (q, n, k) = w.get();
            if q == p as usize && k == 0 {
                w.set((q, n, 1 + (l.size() != n) as usize));
            }
        });
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = std::alloc::System.realloc(p, l, n);
        let _ = WATCH.try_with(|w| {
            let (o, size, k) = w.get();
            if o == p as usize && k == 0 {
                w.set(if size == l.size() { (q as usize, n, 0) } else { (o, size, 2) });
            }
        });
        if !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), 0xff, n - l.size());
        }
        q
    }
}
#[global_allocator]
static POISON: Poison = Poison;
