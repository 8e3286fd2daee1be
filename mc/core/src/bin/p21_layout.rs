//! P21: layouts that are accepted address only their buffer and never alias; what they report about
//! themselves is exact; rearrangements used for traversal address the same positions.
use core_mc::*;
use rstsr_common::prelude_dev::{
    get_axes_composition, get_layout_for_binary_op, greedy_layout, layout_for_array_copy, translate_to_col_major, translate_to_col_major_unary,
    translate_to_col_major_with_contig, DimDevAPI,
};
use TensorIterOrder as O;

thread_local! { static FAER: DeviceFaer = faer(true, 1); }

/// What the definition of a layout says, independent of the code.
struct Facts {
    /// positions in row-major order (may be negative)
    pos: Vec<i128>,
    min: i128,
    max: i128,
    /// distinct indices (up to broadcast axes) have distinct positions
    injective: bool,
    /// every axis (sorted by stride) steps over everything the smaller ones cover; this holds for every
    /// layout made from a dense array by taking views
    nested: bool,
}

fn facts(l: &Lay) -> Facts {
    let mut pos = vec![];
    each_index(&l.shape, |i| pos.push(l.offset as i128 + i.iter().zip(&l.stride).map(|(a, b)| *a as i128 * *b as i128).sum::<i128>()));
    let distinct: std::collections::BTreeSet<i128> = pos.iter().cloned().collect();
    let want: usize = if pos.is_empty() { 0 } else { (0..l.ndim()).filter(|k| l.stride[*k] != 0 || l.shape[*k] == 1).map(|k| l.shape[k]).product() };
    let mut ax: Vec<(i128, i128)> = (0..l.ndim()).filter(|k| l.shape[*k] > 1 && l.stride[*k] != 0).map(|k| (l.stride[k].unsigned_abs() as i128, l.shape[k] as i128)).collect();
    ax.sort();
    let (mut span, mut nested) = (0, true);
    for (s, n) in ax {
        nested &= s > span;
        span += s * (n - 1);
    }
    Facts { min: pos.iter().cloned().min().unwrap_or(l.offset as i128), max: pos.iter().cloned().max().unwrap_or(l.offset as i128 - 1), injective: distinct.len() == want, nested: nested || pos.is_empty(), pos }
}

/// accept / reject of one constructor against the facts
fn verdict<T>(what: &str, r: &Result<T, rstsr_common::prelude_dev::Error>, ok: bool, must: bool) -> Result<(), String> {
    match r {
        Ok(_) if !ok => Err(format!("{what} accepts it")),
        Err(e) if must => Err(format!("{what} rejects it: {e:?}")),
        _ => Ok(()),
    }
}

fn reports<D: DimDevAPI>(l: &Lay, y: &Layout<D>, f: &Facts) -> Result<(), String> {
    let e = |a: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| Err(format!("{a} is {got:?}, expected {want:?}"));
    if y.shape().as_ref() != l.shape || y.stride().as_ref() != l.stride || y.offset() != l.offset || y.ndim() != l.ndim() { return e("layout", &y, &l) }
    if y.size() != f.pos.len() { return e("size", &y.size(), &f.pos.len()) }
    let b = y.bounds_index().map_err(|e| format!("bounds_index fails: {e:?}"))?;
    let want = (f.min as usize, (f.max + 1) as usize);
    if b != want { return e("bounds_index", &b, &want) }
    let dense = f.pos.iter().enumerate().all(|(k, p)| *p == l.offset as i128 + k as i128);
    if y.c_contig() != dense { return e("c_contig", &y.c_contig(), &dense) }
    let mut col = vec![];
    each_index_col(&l.shape, |i| col.push(i.iter().zip(&l.stride).map(|(a, b)| *a as i128 * *b as i128).sum::<i128>()));
    let dense_f = col.iter().enumerate().all(|(k, p)| *p == k as i128);
    if y.f_contig() != dense_f { return e("f_contig", &y.f_contig(), &dense_f) }
    if (dense && !y.c_prefer()) || (dense_f && !y.f_prefer()) { return Err("contiguous but not preferred".into()) }
    // the first k axes (in column-major reading) lie dense in memory, and k is the most there are
    let nf = (0..=l.ndim()).take_while(|k| {
        let mut v = vec![];
        each_index_col(&l.shape[..*k], |i| v.push(i.iter().zip(&l.stride).map(|(a, b)| *a as isize * *b).sum::<isize>()));
        v.iter().enumerate().all(|(a, b)| a as isize == *b)
    }).last().unwrap();
    if f.pos.is_empty() { if y.ndim_of_f_contig() != l.ndim() { return e("ndim_of_f_contig", &y.ndim_of_f_contig(), &l.ndim()) } }
    else if y.ndim_of_f_contig() != nf { return e("ndim_of_f_contig", &y.ndim_of_f_contig(), &nf) }
    let nc = y.reverse_axes().ndim_of_f_contig();
    if y.ndim_of_c_contig() != nc { return e("ndim_of_c_contig", &y.ndim_of_c_contig(), &nc) }
    if y.is_broadcasted() != l.has_bcast() { return e("is_broadcasted", &y.is_broadcasted(), &l.has_bcast()) }
    let distinct: std::collections::BTreeSet<i128> = f.pos.iter().cloned().collect();
    if y.size_non_broadcast() != distinct.len() && (0..l.ndim()).all(|k| l.stride[k] != 0 || l.shape[k] > 1) { return e("size_non_broadcast", &y.size_non_broadcast(), &distinct.len()) }
    // every index, also from the end and one too far
    let mut bad = None;
    let ranges: Vec<Vec<isize>> = l.shape.iter().map(|n| (-(*n as isize) - 1..=*n as isize).collect()).collect();
    product(&ranges, &mut |i| {
        let norm: Option<Vec<usize>> = i.iter().zip(&l.shape).map(|(i, n)| { let j = if *i < 0 { *i + *n as isize } else { *i }; (j >= 0 && j < *n as isize).then_some(j as usize) }).collect();
        let got = y.index_f(i).ok();
        if got != norm.map(|j| l.at(&j)) { bad.get_or_insert(format!("index {i:?} gives {got:?}")); }
    });
    if let Some(b) = bad { return Err(b) }
    if *y != y.clone() { return Err("not equal to itself".into()) }
    Ok(())
}

fn product(r: &[Vec<isize>], f: &mut dyn FnMut(&[isize])) {
    fn go(r: &[Vec<isize>], cur: &mut Vec<isize>, f: &mut dyn FnMut(&[isize])) {
        if cur.len() == r.len() { return f(cur) }
        for x in &r[cur.len()] { cur.push(*x); go(r, cur, f); cur.pop(); }
    }
    go(r, &mut vec![], f)
}

fn construct<D: DimDevAPI + rstsr_common::prelude_dev::DimAPI>(l: &Lay, dyn_too: bool) -> Res
where IxD: rstsr_common::prelude_dev::DimIntoAPI<D>
{
    let f = facts(l);
    let shape: D = l.shape.clone().try_into().ok().ok_or("shape")?;
    let stride: D::Stride = l.stride.clone().try_into().ok().ok_or("stride")?;
    let inb = f.pos.is_empty() || f.min >= 0;
    let got = Layout::<D>::new(shape.clone(), stride.clone(), l.offset);
    verdict("Layout::new", &got, inb && f.injective, inb && f.nested)?;
    if let Ok(y) = &got { reports(l, y, &f)?; }
    // the same layout, unchecked, given to everything that puts it over a buffer
    let y = || unsafe { Layout::<D>::new_unchecked(shape.clone(), stride.clone(), l.offset) };
    let fits = inb && f.max < l.len as i128;
    let (ok, must) = (fits && f.injective, fits && f.nested && (!f.pos.is_empty() || l.offset <= l.len));
    let v: Vec<i64> = raw_i64(l.len, 5);
    let d = serial(true);
    let want = if fits { Some(l.nd(&v)) } else { None };
    let mut seen = false;
    let (mut v2, mut v3) = (v.clone(), v.clone());
    macro_rules! over {
        ($what:expr, $e:expr) => {{
            let r = $e;
            verdict($what, &r, ok, must)?;
            if let Ok(t) = r {
                seen = true;
                if t.layout().shape().as_ref() != l.shape { return Err(format!("{}: shape {:?}", $what, t.shape())) }
                let mut got = vec![];
                each_index(&l.shape, |i| got.push(t.raw()[t.layout().index_f(&i.iter().map(|x| *x as isize).collect::<Vec<_>>()).unwrap()]));
                if Some(&got) != want.as_ref().map(|w| &w.data) { return Err(format!("{}: elements {got:?}", $what)) }
            }
        }};
    }
    over!("Tensor::new_f", Tensor::new_f(Storage::new(v.clone().into(), d.clone()), y()));
    over!("asarray of a vector", rt::asarray_f((v.clone(), y(), &d)));
    over!("asarray of a slice", rt::asarray_f((v.as_slice(), y(), &d)));
    over!("asarray of a vector reference", rt::asarray_f((&v, y(), &d)));
    over!("asarray of a mutable slice", rt::asarray_f((v2.as_mut_slice(), y(), &d)));
    over!("asarray of a mutable vector reference", rt::asarray_f((&mut v3, y(), &d)));
    if dyn_too {
        let fr = FAER.with(|f| f.clone());
        over!("asarray of a vector on the faer device", rt::asarray_f((v.clone(), y(), &fr)));
        over!("asarray of a slice on the faer device", rt::asarray_f((&v, y(), &fr)));
    }
    Ok(if seen { Out::Val } else { Out::Rej })
}

fn sorted(mut v: Vec<i128>) -> Vec<i128> { v.sort(); v }
/// positions of a layout in column-major order
fn walk<D: DimDevAPI>(y: &Layout<D>) -> Vec<i128> {
    let mut v = vec![];
    let (s, t) = (y.shape().as_ref().to_vec(), y.stride().as_ref().to_vec());
    each_index_col(&s, |i| v.push(y.offset() as i128 + i.iter().zip(&t).map(|(a, b)| *a as i128 * *b as i128).sum::<i128>()));
    v
}

fn is_perm(ix: &[isize], n: usize) -> bool { let mut v = ix.to_vec(); v.sort(); v == (0..n as isize).collect::<Vec<_>>() }

/// rearrangements of one layout
fn unary(l: &Lay) -> Result<(), String> {
    let y = layout(l);
    let all = sorted(l.positions().iter().map(|p| *p as i128).collect());
    let row: Vec<i128> = l.positions().iter().map(|p| *p as i128).collect();
    let col = walk(&y);
    let distinct: std::collections::BTreeSet<i128> = all.iter().cloned().collect();
    let dense = all.windows(2).all(|w| w[1] == w[0] + 1);
    for o in [O::C, O::F, O::A, O::K, O::G, O::B] {
        let r = translate_to_col_major_unary(&y, o);
        match (o, r) {
            (O::B, Err(_)) if dense && l.size() > 0 => return Err("order B rejects a layout without gaps".into()),
            (O::B, Err(_)) => {}
            (_, Err(e)) => return Err(format!("order {o:?} is rejected: {e:?}")),
            (_, Ok(z)) => {
                let w = walk(&z);
                let ok = match o {
                    O::C => w == row,
                    O::F => w == col,
                    O::G => sorted(w.clone()) == distinct.iter().cloned().collect::<Vec<_>>(),
                    O::B => w == all,
                    _ => sorted(w.clone()) == all,
                };
                if !ok { return Err(format!("order {o:?} walks {w:?}, the elements lie at {row:?}")) }
                // the contiguous head of the walk
                let (q, n) = translate_to_col_major_with_contig(&[&z]);
                contig(&format!("order {o:?}"), &[w], &q, n)?;
            }
        }
    }
    for keep in [true, false] {
        let (g, ix) = greedy_layout(&y, keep);
        let w = walk(&g);
        if !is_perm(&ix, l.ndim()) { return Err(format!("greedy_layout: {ix:?} is not a permutation")) }
        let want = if keep { all.clone() } else { distinct.iter().cloned().collect() };
        if sorted(w.clone()) != want { return Err(format!("greedy_layout(keep_shape = {keep}) walks {w:?}, the elements lie at {row:?}")) }
        for (k, i) in ix.iter().enumerate() {
            let (a, b) = (g.shape()[k], l.shape[*i as usize]);
            if a != b && !(!keep && a == 1) { return Err(format!("greedy_layout: axis {k} has extent {a}, axis {i} of the input {b}")) }
        }
        // smallest steps first, so that the walk is greedy
        let st: Vec<isize> = (0..l.ndim()).filter(|k| g.shape()[*k] > 1 && g.stride()[*k] != 0).map(|k| g.stride()[k].abs()).collect();
        if l.size() > 0 && st.windows(2).any(|w| w[0] > w[1]) { return Err(format!("greedy_layout: strides {st:?} do not ascend")) }
    }
    for o in [O::C, O::F, O::A, O::K] {
        let z = layout_for_array_copy(&y, o).map_err(|e| format!("layout_for_array_copy {o:?}: {e:?}"))?;
        let w = walk(&z);
        if z.shape().as_ref() != l.shape || sorted(w.clone()) != (0..l.size() as i128).collect::<Vec<_>>() { return Err(format!("layout_for_array_copy {o:?} gives {z:?}")) }
        if (o == O::C && !z.c_contig()) || (o == O::F && !z.f_contig()) { return Err(format!("layout_for_array_copy {o:?} gives {z:?}")) }
        // K keeps a dense layout as it is
        if o == O::K && l.size() > 0 && distinct.len() == l.size() && dense && l.stride.iter().all(|s| *s > 0) {
            let keep: Vec<i128> = col.iter().map(|p| p - all[0]).collect();
            if w != keep { return Err(format!("layout_for_array_copy K gives {z:?} for {l:?}")) }
        }
    }
    let (i, b, c, d) = get_axes_composition(&y);
    if !is_perm(&[&i, &b, &c, &d].iter().flat_map(|v| v.iter().map(|x| *x as isize)).collect::<Vec<_>>(), l.ndim()) { return Err(format!("get_axes_composition {:?}", (i, b, c, d))) }
    if i.iter().any(|k| l.shape[*k] != 1) || b.iter().any(|k| l.stride[*k] != 0) || c.iter().chain(&d).any(|k| l.stride[*k] == 0) { return Err(format!("get_axes_composition {:?}", (i, b, c, d))) }
    let mut cur = 1;
    for k in &c { if l.stride[*k] != cur { return Err(format!("get_axes_composition: axes {c:?} are not contiguous")) } cur *= l.shape[*k] as isize; }
    Ok(())
}

/// `q` with a contiguous head of `n` elements covers exactly the walks `w`, in the same sequence
fn contig(what: &str, w: &[Vec<i128>], q: &[Layout<IxD>], n: usize) -> Result<(), String> {
    if n == 0 { return Ok(()) } // no contiguous head: callers walk the layouts as they are
    for (w, q) in w.iter().zip(q) {
        let mut v = vec![];
        for p in walk(q) { v.extend((0..n as i128).map(|k| p + k)) }
        if *w != v { return Err(format!("{what}: contiguous form walks {v:?} instead of {w:?}")) }
    }
    Ok(())
}

/// rearrangements of several layouts of the same shape: they stay paired
fn several(ls: &[&Lay]) -> Result<(), String> {
    let ys: Vec<Layout<IxD>> = ls.iter().map(|l| layout(l)).collect();
    let yr: Vec<&Layout<IxD>> = ys.iter().collect();
    let tuples = |w: &[Vec<i128>]| -> Vec<Vec<i128>> { (0..w[0].len()).map(|k| w.iter().map(|v| v[k]).collect()).collect() };
    let row = tuples(&ls.iter().map(|l| l.positions().iter().map(|p| *p as i128).collect()).collect::<Vec<_>>());
    let col = tuples(&ys.iter().map(walk).collect::<Vec<_>>());
    for o in [O::C, O::F, O::A, O::K] {
        let z = translate_to_col_major(&yr, o).map_err(|e| format!("order {o:?} is rejected: {e:?}"))?;
        let w: Vec<Vec<i128>> = z.iter().map(walk).collect();
        let t = tuples(&w);
        let ok = match o { O::C => t == row, O::F => t == col, _ => { let (mut a, mut b) = (t.clone(), row.clone()); a.sort(); b.sort(); a == b } };
        if !ok { return Err(format!("order {o:?} walks {t:?}, the elements pair as {row:?}")) }
        let zr: Vec<&Layout<IxD>> = z.iter().collect();
        let (q, n) = translate_to_col_major_with_contig(&zr);
        contig(&format!("order {o:?}"), &w, &q, n)?;
    }
    if ls.len() == 2 {
        for (order, row) in [(ROW, true), (COL, false)] {
            let z = get_layout_for_binary_op(&ys[0], &ys[1], order).map_err(|e| format!("get_layout_for_binary_op: {e:?}"))?;
            if z.shape().as_ref() != ls[0].shape || sorted(walk(&z)) != (0..ls[0].size() as i128).collect::<Vec<_>>() { return Err(format!("get_layout_for_binary_op row={row} gives {z:?}")) }
        }
    }
    Ok(())
}

fn main() {
    fw::main("P21", |r| {
        let th = r.thorough();
        // construction: every shape, stride vector, offset and buffer length within bounds
        let smax: isize = r.pick(7, 13);
        let s3max: isize = r.pick(3, 6);
        r.bound(&format!("construction: up to 2 axes of extents 0-4 with every stride in -{smax}..={smax}, 3 axes of extents 0-3 with every stride in -{s3max}..={s3max} and {{8,-9}}, 4 axes of extents 1-2 with strides from a fixed set; offsets and buffer lengths around every bound (exact fit, one short, one long)"));
        r.bound("rearrangements: all orders on every layout of up to 3 axes of extents 0-3 (all memory orders x axis kinds); pairs and triples of layouts of the same shape");
        let mut items: Vec<(Vec<usize>, Vec<isize>)> = vec![(vec![], vec![])];
        for s in shapes(1, 2, &[0, 1, 2, 3, 4]) { for st in words(&(-smax..=smax).collect::<Vec<_>>(), s.len()) { items.push((s.clone(), st)); } }
        let s3: Vec<isize> = (-s3max..=s3max).chain([8, -9]).collect();
        for s in shapes(3, 3, &[0, 1, 2, 3]) {
            if !th && s.iter().filter(|n| **n == 0).count() > 1 { continue }
            for st in words(&s3, 3) { items.push((s.clone(), st)); }
        }
        for s in shapes(4, 4, &[1, 2]) { for st in words(&[1, 2, -3, 0, 4, 8, 7][..r.pick(6, 7)], 4) { items.push((s.clone(), st)); } }
        r.par("construction", &items, |cx, (s, st)| {
            // the span decides which offsets and lengths are interesting
            let lo: isize = s.iter().zip(st).map(|(n, t)| if *n > 0 { (*n as isize - 1) * (*t).min(0) } else { 0 }).sum();
            let hi: isize = s.iter().zip(st).map(|(n, t)| if *n > 0 { (*n as isize - 1) * (*t).max(0) } else { 0 }).sum();
            let o0 = (-lo) as usize;
            for off in [o0.saturating_sub(1), o0, o0 + 2, 0] {
                let need = off as isize + hi + 1;
                for len in [0, need - 1, need, need + 1, off as isize, off as isize - 1] {
                    if len < 0 { continue }
                    let l = Lay { shape: s.clone(), stride: st.clone(), offset: off, len: len as usize };
                    cx.state(&l);
                    cx.case(format_args!("construct|dyn|{l:?}"), || construct::<IxD>(&l, true));
                    match l.ndim() {
                        1 => cx.case(format_args!("construct|Ix1|{l:?}"), || construct::<Ix1>(&l, false)),
                        2 => cx.case(format_args!("construct|Ix2|{l:?}"), || construct::<Ix2>(&l, false)),
                        3 => cx.case(format_args!("construct|Ix3|{l:?}"), || construct::<Ix3>(&l, false)),
                        0 => cx.case(format_args!("construct|Ix0|{l:?}"), || construct::<Ix<0>>(&l, false)),
                        _ => {}
                    }
                }
            }
        });
        let sh = shapes(0, 3, &[0, 1, 2, 3]);
        r.par("rearrangement", &sh, |cx, s| {
            let full = layouts_full(s, &ALL_KINDS);
            for l in &full { cx.state(l); cx.case(format_args!("unary|{l:?}"), || unary(l).map(|_| Out::Val)); }
            let some = if s.len() <= 2 { full } else { layouts_dev(s, &ALL_KINDS, if th { 2 } else { 1 }) };
            for (i, a) in some.iter().enumerate() {
                for (j, b) in some.iter().enumerate() {
                    cx.case(format_args!("pair|{a:?}|{b:?}"), || several(&[a, b]).map(|_| Out::Val));
                    let c = &some[(i * 7 + j * 5) % some.len()];
                    cx.case(format_args!("triple|{a:?}|{b:?}|{c:?}"), || several(&[a, b, c]).map(|_| Out::Val));
                }
            }
        });
        let s4: Vec<Vec<usize>> = shapes(4, 4, &[1, 2, 3]).into_iter().filter(|s| th || prod(s) <= 24).collect();
        r.par("rearrangement of 4 axes", &s4, |cx, s| {
            for l in layouts_dev(s, &ALL_KINDS, if th { 3 } else { 2 }) { cx.state(&l); cx.case(format_args!("unary|{l:?}"), || unary(&l).map(|_| Out::Val)); }
        });
    });
}
