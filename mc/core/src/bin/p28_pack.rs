//! P28: an axis of a tensor seen as fixed-size arrays, and back, keeps every element at its index.
use core_mc::*;
use rstsr_common::pack_array::{PackArrayAPI, UnpackArrayAPI};
use rstsr_common::prelude_dev::DimAPI;

/// layouts whose strides and offset may or may not fit arrays of length n
fn layouts(shape: &[usize], n: usize, th: bool) -> Vec<Lay> {
    let mut out = layouts_full(shape, &ALL_KINDS);
    // each axis in turn of stride 1, the others from a set around multiples of n
    let n = n as isize;
    for ax in 0..shape.len() {
        let mut set: Vec<isize> = vec![n, -n, 2 * n, n + 1, 0, 2 * n - 1];
        if th { set.extend([3 * n, 4 * n, -(n + 1), 1, -2 * n]) }
        for w in words(&set, shape.len() - 1) {
            let mut stride = w.clone();
            stride.insert(ax, 1);
            let lo: isize = shape.iter().zip(&stride).map(|(d, s)| if *d > 0 { (*d as isize - 1) * (*s).min(0) } else { 0 }).sum();
            let hi: isize = shape.iter().zip(&stride).map(|(d, s)| if *d > 0 { (*d as isize - 1) * (*s).max(0) } else { 0 }).sum();
            for off in [-lo, -lo + 1, -lo + n - 1, -lo + n] {
                for extra in [0, 1, n] {
                    let len = if shape.contains(&0) { off + extra } else { off + hi + 1 + extra };
                    out.push(Lay { shape: shape.to_vec(), stride: stride.clone(), offset: off as usize, len: len as usize });
                    // rounded up to a whole number of arrays
                    if n > 0 { out.push(Lay { shape: shape.to_vec(), stride: stride.clone(), offset: off as usize, len: ((len + n - 1) / n * n) as usize }) }
                }
            }
        }
    }
    // overlapping strides make no tensor
    out.retain(|l| l.len < 1000 && Layout::<IxD>::new(l.shape.clone(), l.stride.clone(), l.offset).map_or(false, |y| y.bounds_index().map_or(false, |b| b.1 <= l.len)));
    out.sort_by_key(|l| format!("{l:?}"));
    out.dedup_by_key(|l| format!("{l:?}"));
    out
}

/// the elements of a tensor of arrays, with the array index at `ax`
fn seen<R, D: DimAPI, const N: usize>(t: &TensorAny<R, [i64; N], DeviceCpuSerial, D>, ax: usize) -> Result<Nd<i64>, String>
where R: DataAPI<Data = Vec<[i64; N]>> {
    let l = t.layout();
    let (s, st) = (l.shape().as_ref().to_vec(), l.stride().as_ref().to_vec());
    let mut full = s.clone();
    full.insert(ax, N);
    let raw = t.raw();
    let mut bad = None;
    let nd = Nd::from_fn(&full, |i| {
        let mut j = i.to_vec();
        let k = j.remove(ax);
        let p = l.offset() as isize + j.iter().zip(&st).map(|(a, b)| *a as isize * b).sum::<isize>();
        match raw.get(p as usize) { Some(a) => a[k], None => { bad = Some(p); 0 } }
    });
    match bad { Some(p) => Err(format!("position {p} outside of {} arrays", raw.len())), None => Ok(nd) }
}

fn tensor_case<const N: usize>(l: &Lay, axis: isize, form: usize) -> Res {
    let d = serial(true);
    let v = raw_i64(l.len, 3);
    let want = l.nd(&v);
    let nd = l.ndim();
    let ax = if axis < 0 { axis + nd as isize } else { axis };
    let valid = ax >= 0 && ax < nd as isize;
    let ax = ax.max(0) as usize;
    let fits = valid && N > 0 && l.shape[ax] == N;
    // every index of the result must be a whole array in the buffer
    let must = fits && l.stride[ax] == 1 && l.offset % N == 0 && l.len % N == 0 && l.size() > 0 && (0..nd).all(|k| k == ax || l.shape[k] == 1 || l.stride[k] % N as isize == 0);
    macro_rules! go {
        ($t:expr, $ptr:expr, $nocopy:expr) => {{
            let t = $t;
            let p0 = $ptr;
            match t.into_pack_array_f::<N>(axis) {
                Err(e) => if must { Err(format!("rejected: {e:?}")) } else { Ok(Out::Rej) },
                Ok(b) => {
                    if !fits { return Err(format!("accepted with shape {:?}", b.shape())) }
                    let mut s = l.shape.clone();
                    s.remove(ax);
                    if b.shape().as_ref() as &[usize] != s { return Err(format!("shape {:?}", b.shape())) }
                    let got = seen(&b, ax)?;
                    if got.data != want.data { return Err(format!("packed elements {:?}, expected {:?}", got.data, want.data)) }
                    if $nocopy && b.raw().as_ptr() as usize != p0 { return Err("the elements have been copied".into()) }
                    // back, at every position of the new axis
                    for back in (-(nd as isize) - 1)..=(nd as isize) {
                        let pos = if back < 0 { back + nd as isize } else { back };
                        let u = b.view().into_unpack_array_f(back);
                        if pos < 0 || pos >= nd as isize {
                            if u.is_ok() { return Err(format!("unpack accepts axis {back}")) }
                            continue;
                        }
                        let u = u.map_err(|e| format!("unpack to axis {back}: {e:?}"))?;
                        let perm: Vec<usize> = { let mut p: Vec<usize> = (0..nd).filter(|k| *k != ax).collect(); p.insert(pos as usize, ax); p };
                        let w = want.permute(&perm);
                        let got = logical(&u)?;
                        same_nd(&got, &w)?;
                    }
                    let u = b.into_unpack_array_f(axis).map_err(|e| format!("unpack: {e:?}"))?;
                    same_nd(&logical(&u)?, &want)?;
                    if $nocopy && u.raw().as_ptr() as usize != p0 { return Err("the elements have been copied back".into()) }
                    Ok(Out::Val)
                },
            }
        }};
    }
    let y = layout(l);
    match form {
        0 => {
            let p = v.as_ptr() as usize;
            watch(p, l.len * 8);
            let r = (|| go!(tensor(v, l, &d), p, true))();
            match watched() { Some(false) => return Err("the buffer is released with another size than it was allocated with".into()), _ => r }
        },
        1 => {
            // a vector with spare capacity
            let mut w = Vec::with_capacity(l.len + 3 * N.max(1) + 1);
            w.extend(&v);
            watch(w.as_ptr() as usize, w.capacity() * 8);
            let r = (|| go!(tensor(w, l, &d), 0, false))();
            match watched() { Some(false) => return Err("the buffer is released with another size than it was allocated with".into()), _ => r }
        },
        2 => { let t = tensor(v, l, &d); let p = t.raw().as_ptr() as usize; go!(t.view(), p, true) },
        3 => { let mut t = tensor(v, l, &d); let p = t.raw().as_ptr() as usize; go!(t.view_mut(), p, true) },
        4 => { let t = tensor(v, l, &d); let p = t.raw().as_ptr() as usize; go!(t.into_cow(), p, true) },
        5 => { let t = tensor(v, l, &d); let p = t.raw().as_ptr() as usize; go!(t.view().into_cow(), p, true) },
        6 => { let p = v.as_ptr() as usize; go!(rt::asarray((v.as_slice(), y, &d)), p, true) },
        _ => {
            // writing through packed and unpacked mutable views reaches the same elements
            let mut t = tensor(v.clone(), l, &d);
            let mut want = v.clone();
            {
                let m = match t.view_mut().into_pack_array_f::<N>(axis) { Ok(m) => m, Err(_) => return Ok(if must { return Err("rejected".into()) } else { Out::Rej }) };
                let mut u = m.into_unpack_array_f(axis).map_err(|e| format!("{e:?}"))?;
                let y = u.layout().clone();
                if l.has_bcast() { return Ok(Out::Skip) }
                let r = u.raw_mut();
                let mut bad = None;
                each_index(&l.shape, |i| {
                    let j: Vec<isize> = i.iter().map(|x| *x as isize).collect();
                    match y.index_f(&j) { Ok(p) if p < r.len() => r[p] += 1000, o => { bad.get_or_insert(format!("index {i:?} is at {o:?}")); } }
                });
                if let Some(b) = bad { return Err(b) }
            }
            for p in l.positions() { want[p] += 1000 }
            if *t.raw() != want { return Err(format!("buffer {:?}, expected {want:?}", t.raw())) }
            Ok(Out::Val)
        },
    }
}

fn same_nd(a: &Nd<i64>, b: &Nd<i64>) -> Result<(), String> {
    if a.shape != b.shape || a.data != b.data { return Err(format!("unpacked is {a:?}, expected {b:?}")) }
    Ok(())
}

fn vec_case<const N: usize>(len: usize, spare: usize) -> Res {
    let v = raw_i64(len, 9);
    let ok = N > 0 && len % N == 0;
    let flat = |a: &[[i64; N]]| a.iter().flat_map(|x| x.iter().cloned()).collect::<Vec<i64>>();
    macro_rules! check {
        ($what:expr, $r:expr) => {
            match $r {
                Err(e) => if ok { return Err(format!("{}: rejected {e:?}", $what)) },
                Ok(a) => {
                    if !ok { return Err(format!("{}: accepted", $what)) }
                    if flat(&a[..]) != v { return Err(format!("{}: {:?}", $what, &a[..])) }
                    if a.unpack_array()[..] != v[..] { return Err(format!("{}: unpacked differs", $what)) }
                },
            }
        };
    }
    let mut w = Vec::with_capacity(len + spare);
    w.extend(&v);
    watch(w.as_ptr() as usize, w.capacity() * 8);
    { check!("vector", w.pack_array_f::<N>()); }
    if watched() == Some(false) { return Err("vector: released with another size than it was allocated with".into()) }
    check!("slice", v.as_slice().pack_array_f::<N>());
    let mut w = v.clone();
    check!("mutable slice", w.as_mut_slice().pack_array_f::<N>());
    Ok(if ok { Out::Val } else { Out::Rej })
}

fn main() {
    fw::main("P28", |r| {
        let th = r.thorough();
        r.bound(&format!("arrays of length 0-4 over tensors of 1-{} axes of extents 0-4 (the packed axis included), all memory orders and axis kinds plus every axis of stride 1 with the other strides around multiples of the length, offsets and buffer lengths that do or do not fit; every axis number also negative and out of range; owned (exact and spare capacity), views, mutable views, copy-on-write; every position of the axis when unpacking", r.pick(3, 4)));
        let shapes_: Vec<Vec<usize>> = shapes(1, 2, &[0, 1, 2, 3, 4]).into_iter().chain(shapes(3, 3, &[1, 2, 3])).chain(if th { shapes(4, 4, &[1, 2]) } else { vec![] }).collect();
        let items: Vec<(Vec<usize>, usize)> = shapes_.iter().flat_map(|s| (0..=4).map(move |n| (s.clone(), n))).filter(|(s, n)| *n < 2 || s.contains(n) || s.len() == 1).collect();
        r.par("tensors", &items, |cx, (s, n)| {
            let all = layouts(s, *n, th);
            let nd = s.len() as isize;
            for l in &all {
                cx.state(&(l, n));
                for axis in -nd - 1..=nd {
                    // without a matching extent there is only a rejection to see
                    let a = if axis < 0 { axis + nd } else { axis };
                    let hit = a >= 0 && a < nd && s[a as usize] == *n;
                    if !hit && !th && l.offset % 2 == 1 { continue }
                    for form in if hit { 0..8 } else { 0..1 } {
                        cx.case(format_args!("pack|{n}|{l:?}|axis={axis}|form={form}"), || match n { 0 => tensor_case::<0>(l, axis, form), 1 => tensor_case::<1>(l, axis, form), 2 => tensor_case::<2>(l, axis, form), 3 => tensor_case::<3>(l, axis, form), _ => tensor_case::<4>(l, axis, form) });
                    }
                }
            }
        });
        let vs: Vec<(usize, usize, usize)> = (0..=4).flat_map(|n| (0..14).flat_map(move |l| (0..6).map(move |s| (n, l, s)))).collect();
        r.par("vectors and slices", &vs, |cx, (n, len, spare)| {
            cx.state(&(n, len, spare));
            cx.case(format_args!("vec|{n}|len={len}|spare={spare}"), || match n { 0 => vec_case::<0>(*len, *spare), 1 => vec_case::<1>(*len, *spare), 2 => vec_case::<2>(*len, *spare), 3 => vec_case::<3>(*len, *spare), _ => vec_case::<4>(*len, *spare) });
        });
    });
}
