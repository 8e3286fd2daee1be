//! P05: copies, layout conversion, ownership conversion, device conversion.
use core_mc::*;
use std::sync::Arc;

/// distinct indices live at distinct places, inside the buffer
fn dense_ok(shape: &[usize], stride: &[isize], offset: usize, len: usize) -> Result<(), String> {
    let l = Lay { shape: shape.to_vec(), stride: stride.to_vec(), offset, len };
    let mut p = l.positions();
    let n = p.len();
    p.sort();
    p.dedup();
    if p.len() != n {
        return Err(format!("an owned result maps distinct indices to one element: {l:?}"));
    }
    Ok(())
}

fn is_contig(shape: &[usize], stride: &[isize], row: bool) -> bool {
    let w = if row { c_contig(shape) } else { f_contig(shape) };
    prod(shape) == 0 || (0..shape.len()).all(|k| shape[k] == 1 || stride[k] == w.stride[k])
}

fn source_shapes(r: &Runner) -> Vec<Vec<usize>> {
    let mut v = shapes(0, 3, &[0, 1, 2, 3]);
    v.extend([vec![15], vec![16], vec![17], vec![40], vec![3, 16], vec![16, 2], vec![2, 17], vec![17, 3], vec![2, 2, 16], vec![2, 8, 2], vec![4, 4, 3]]);
    if r.thorough() {
        v.extend(shapes(4, 4, &[1, 2, 3]));
        v.extend([vec![2, 2, 2, 2, 2], vec![2, 1, 3, 2, 17], vec![64, 3], vec![3, 64], vec![33, 2, 3]]);
    } else {
        v.extend(shapes(4, 4, &[1, 2]));
    }
    v
}

macro_rules! owned_forms {
    ($cx:expr, $l:expr, $d:expr, $name:expr, $row:expr) => {{
        let l: &Lay = $l;
        let d = $d;
        let raw = raw_i64(l.len, 21);
        let m = l.nd(&raw);
        // every way to get an independent copy
        $cx.case(format_args!("{}|row={}|{l:?}", $name, $row), || {
            let t = tensor(raw.clone(), l, &d);
            let base = t.raw().as_ptr();
            macro_rules! fresh {
                ($what:expr, $e:expr, $contig:expr, $consumed:expr) => {{
                    let g = $e;
                    check_t(&g, &m).map_err(|e| format!("{}: {e}", $what))?;
                    dense_ok(g.shape().as_ref(), g.stride().as_ref(), g.offset(), g.raw().len()).map_err(|e| format!("{}: {e}", $what))?;
                    if !$consumed && g.raw().as_ptr() == base && !g.raw().is_empty() {
                        return Err(format!("{}: result shares the source buffer", $what));
                    }
                    let want: Option<bool> = $contig;
                    if let Some(rw) = want {
                        if !is_contig(g.shape().as_ref(), g.stride().as_ref(), rw) {
                            return Err(format!("{}: stride {:?} is not {} contiguous", $what, g.stride(), if rw { "row-major" } else { "column-major" }));
                        }
                        let flag = if rw { g.c_contig() } else { g.f_contig() };
                        if !flag {
                            return Err(format!("{}: contiguity query disagrees", $what));
                        }
                    }
                    g
                }};
            }
            fresh!("to_owned", t.to_owned(), None, false);
            fresh!("clone", t.clone(), None, false);
            fresh!("view.into_owned", t.view().into_owned(), None, false);
            fresh!("view.into_shared", t.view().into_shared(), None, false);
            fresh!("into_owned", t.clone().into_owned(), None, true);
            fresh!("cow.into_owned", t.view().into_cow().into_owned(), None, false);
            fresh!("cow.clone", t.view().into_cow().clone(), None, false);
            fresh!("asarray K", rt::asarray((&t, TensorIterOrder::K)), None, false);
            fresh!("asarray A", rt::asarray((&t, TensorIterOrder::A)), None, false);
            fresh!("asarray C", rt::asarray((&t, TensorIterOrder::C)), Some(true), false);
            fresh!("asarray F", rt::asarray((&t, TensorIterOrder::F)), Some(false), false);
            fresh!("into_contig C", t.view().into_contig(ROW), Some(true), false);
            fresh!("into_contig F", t.view().into_contig(COL), Some(false), false);
            fresh!("into_prefer C", t.view().into_prefer(ROW), None, false);
            fresh!("into_prefer F", t.view().into_prefer(COL), None, false);
            for (rw, o) in [(true, ROW), (false, COL)] {
                let g = t.to_contig(o);
                check_t(&g, &m)?;
                if !is_contig(g.shape().as_ref(), g.stride().as_ref(), rw) {
                    return Err(format!("to_contig({o:?}) has stride {:?}", g.stride()));
                }
                if g.is_owned() && g.raw().as_ptr() == base && !g.raw().is_empty() {
                    return Err("to_contig owned result shares the buffer".into());
                }
                let g = t.to_prefer(o);
                check_t(&g, &m)?;
                let ok = if rw { g.c_prefer() } else { g.f_prefer() };
                if !ok && m.size() > 1 {
                    return Err(format!("to_prefer({o:?}) result has stride {:?}", g.stride()));
                }
                check_t(&t.view().change_contig(o), &m)?;
                check_t(&t.view().change_prefer(o), &m)?;
                fresh!("owned.into_contig", t.clone().into_contig(o), Some(rw), true);
                let g = tensor(raw.clone(), l, &d).into_contig(o);
                fresh!("source.into_contig", g, Some(rw), true);
                fresh!("shared.into_contig", t.view().into_shared().into_contig(o), Some(rw), true);
            }
            // forms that keep the layout keep values
            check_t(&t.view().into_owned_keep_layout(), &m)?;
            check_t(&t.view().into_shared_keep_layout(), &m)?;
            check_t(&t.view().into_cow(), &m)?;
            check_t(&t.view().into_dyn(), &m)?;
            if l.ndim() == 1 {
                let want = m.data.clone();
                if t.to_vec() != want { return Err(format!("to_vec {:?}, expected {want:?}", t.to_vec())) }
                let v = t.to_raw_f().map_err(|e| format!("{e:?}"))?;
                if v != want { return Err(format!("to_raw {v:?}, expected {want:?}")) }
                let v = tensor(raw.clone(), l, &d).into_vec();
                if v != want { return Err(format!("into_vec {v:?}, expected {want:?}")) }
                let v = tensor(raw.clone(), l, &d).into_raw();
                if v != want { return Err(format!("into_raw {v:?}, expected {want:?}")) }
            } else if t.to_raw_f().is_ok() || t.clone().into_vec_f().is_ok() || t.clone().into_raw_f().is_ok() {
                return Err("vector extraction accepted an array that is not one-dimensional".into());
            }
            match (t.to_scalar_f(), m.size()) {
                (Ok(x), 1) if x == m.data[0] => {},
                (Err(_), n) if n != 1 => {},
                (x, n) => return Err(format!("to_scalar of {n} elements gives {x:?}")),
            }
            // nothing above may have touched the source
            if *t.raw() != raw {
                return Err("source buffer changed".into());
            }
            fresh!("source.into_owned", t.into_owned(), None, true);
            fresh!("source.into_shared", tensor(raw.clone(), l, &d).into_shared(), None, true);
            Ok(Out::Val)
        });
    }};
}

macro_rules! to_layouts {
    ($cx:expr, $l:expr, $targets:expr, $d:expr, $name:expr, $row:expr) => {{
        let l: &Lay = $l;
        let d = $d;
        let raw = raw_i64(l.len, 31);
        let m = l.nd(&raw);
        for tl in $targets {
            let tl: &Lay = tl;
            // elements are re-read in the device's order when the shape changes
            let w = m.reshape(&tl.shape, $row);
            $cx.case(format_args!("{}|row={}|{l:?}->{tl:?}", $name, $row), || {
                let t = tensor(raw.clone(), l, &d);
                let g = t.to_layout(layout(tl));
                check_t(&g, &w).map_err(|e| format!("to_layout: {e}"))?;
                let gl = lay_of(g.layout(), tl.len);
                if gl.shape != tl.shape || gl.stride != tl.stride || gl.offset != tl.offset {
                    return Err(format!("to_layout gives layout {gl:?}"));
                }
                check_t(&t.view().into_layout(layout(tl)), &w).map_err(|e| format!("into_layout: {e}"))?;
                check_t(&t.view().change_layout(layout(tl)), &w).map_err(|e| format!("change_layout: {e}"))?;
                if *t.raw() != raw {
                    return Err("source buffer changed".into());
                }
                check_t(&t.into_layout(layout(tl)), &w).map_err(|e| format!("owned into_layout: {e}"))?;
                Ok(Out::Val)
            });
        }
    }};
}

/// Histories over two handles on one reference-counted buffer plus copy-on-write views of it.
#[derive(Clone, Copy, Debug)]
enum Step {
    WriteA,
    WriteB,
    AddA,
    FillB,
    OwnA,
    CloneA,
    ShareB,
    ContigA,
    CowA,
    DropB,
}
const STEPS: [Step; 10] = [Step::WriteA, Step::WriteB, Step::AddA, Step::FillB, Step::OwnA, Step::CloneA, Step::ShareB, Step::ContigA, Step::CowA, Step::DropB];

fn arc_tensor(raw: &Arc<Vec<i64>>, l: &Lay, d: &DeviceCpuSerial) -> TensorArc<i64, DeviceCpuSerial, IxD> {
    let data: rstsr_core::prelude_dev::DataArc<Vec<i64>> = raw.clone().into();
    TensorArc::new(Storage::new(data, d.clone()), layout(l))
}

fn history(l: &Lay, h: &[Step]) -> Res {
    let d = serial(true);
    let raw = Arc::new(raw_i64(l.len, 41));
    let mut a = arc_tensor(&raw, l, &d);
    let mut b = Some(arc_tensor(&raw, l, &d));
    let (mut ma, mut mb) = (l.nd(&raw), l.nd(&raw));
    let orig = raw.to_vec();
    let first = vec![0usize; l.ndim()];
    let mut made: Vec<(Tensor<i64, DeviceCpuSerial, IxD>, Nd<i64>)> = vec![];
    for (k, s) in h.iter().enumerate() {
        let v = 1000 + k as i64;
        match s {
            Step::WriteA => {
                a.view_mut()[first.as_slice()] = v;
                ma.data[0] = v;
            },
            Step::WriteB => {
                if let Some(b) = b.as_mut() {
                    b.view_mut()[first.as_slice()] = v;
                    mb.data[0] = v;
                }
            },
            Step::AddA => {
                a += v;
                ma = ma.map(|x| x + v);
            },
            Step::FillB => {
                if let Some(b) = b.as_mut() {
                    b.fill(v);
                    mb = mb.map(|_| v);
                }
            },
            Step::OwnA => {
                let o = a.into_owned();
                check_t(&o, &ma).map_err(|e| format!("step {k} into_owned: {e}"))?;
                a = o.into_shared();
            },
            Step::CloneA => {
                let mut o = a.to_owned();
                check_t(&o, &ma)?;
                o[first.as_slice()] = -1;
                let mut w = ma.clone();
                w.data[0] = -1;
                made.push((o, w));
            },
            Step::ShareB => {
                if let Some(x) = b.take() {
                    b = Some(x.into_shared());
                }
            },
            Step::ContigA => {
                let o = a.into_contig(COL);
                check_t(&o, &ma).map_err(|e| format!("step {k} into_contig: {e}"))?;
                a = o.into_shared();
            },
            Step::CowA => {
                let o = a.into_cow();
                check_t(&o, &ma).map_err(|e| format!("step {k} into_cow: {e}"))?;
                a = o.into_owned().into_shared();
            },
            Step::DropB => b = None,
        }
        check_t(&a, &ma).map_err(|e| format!("after step {k} {s:?}: first handle: {e}"))?;
        if let Some(b) = &b {
            check_t(b, &mb).map_err(|e| format!("after step {k} {s:?}: second handle: {e}"))?;
        }
        for (o, w) in &made {
            check_t(o, w).map_err(|e| format!("after step {k} {s:?}: earlier copy: {e}"))?;
        }
        if *raw != orig {
            return Err(format!("after step {k} {s:?}: the caller's own reference-counted buffer changed"));
        }
    }
    Ok(Out::Val)
}

fn main() {
    fw::main("P05", |r| {
        let src = source_shapes(r);
        let k = r.pick(2, 3);
        r.bound(format!("shapes of rank 0..=4 (extents 0..=3) plus sizes around the 16-element switch, all layouts within {k} deviations of contiguous (rank 4: one fewer); every conversion of each; target layouts: all non-aliasing layouts within 2 deviations for every shape with equal count; all histories of length <= {} over ten operations on two reference-counted handles; element type i64", r.pick(4, 5)));
        r.par("copies", &src, |cx, s| {
            for l in layouts_dev(s, &ALL_KINDS, if s.len() >= 4 { k - 1 } else { k }) {
                cx.state(&l);
                owned_forms!(cx, &l, serial(true), "serial", true);
                owned_forms!(cx, &l, serial(false), "serial", false);
            }
            for l in layouts_dev(s, &ALL_KINDS, 1) {
                owned_forms!(cx, &l, faer(true, 1), "faer", true);
                owned_forms!(cx, &l, faer(false, 1), "faer", false);
            }
        });
        // layouts that alias on purpose, whose extent happens to equal the element count
        r.par("coincidences", &shapes(1, 3, &[2, 3, 4]), |cx, s| {
            for st in words(&[0isize, 1, 2, 3, 4, -1, -2], s.len()) {
                let lo: isize = s.iter().zip(&st).map(|(d, t)| (*d as isize - 1) * t).filter(|x| *x < 0).sum();
                let hi: isize = s.iter().zip(&st).map(|(d, t)| (*d as isize - 1) * t).filter(|x| *x > 0).sum();
                for tail in 0..=1 {
                    let l = Lay { shape: s.clone(), stride: st.clone(), offset: (-lo) as usize, len: (hi - lo + 1) as usize + tail };
                    if Layout::new(s.clone(), st.clone(), l.offset).is_err() {
                        continue; // overlapping: not constructible
                    }
                    for len in [l.len, l.len.max(prod(s))] {
                        let l = Lay { len, ..l.clone() };
                        cx.state(&l);
                        owned_forms!(cx, &l, serial(true), "serial", true);
                    }
                }
            }
        });
        let small: Vec<Vec<usize>> = shapes(0, 3, &[1, 2, 3]).into_iter().filter(|s| prod(s) <= 12).collect();
        r.par("layouts", &small, |cx, s| {
            let mut targets = vec![];
            for t in &small {
                if prod(t) == prod(s) {
                    targets.extend(layouts_dev(t, &NOB_KINDS, if t == s { 2 } else { 1 }));
                }
            }
            for l in layouts_dev(s, &ALL_KINDS, r.pick(1, 2)) {
                to_layouts!(cx, &l, &targets, serial(true), "serial", true);
                to_layouts!(cx, &l, &targets, serial(false), "serial", false);
            }
        });
        r.par("layouts-faer", &small, |cx, s| {
            let mut targets = vec![];
            for t in &small {
                if prod(t) == prod(s) {
                    targets.extend(layouts_dev(t, &NOB_KINDS, 1));
                }
            }
            for l in layouts_dev(s, &ALL_KINDS, 1) {
                to_layouts!(cx, &l, &targets, faer(true, 1), "faer", true);
                to_layouts!(cx, &l, &targets, faer(false, 1), "faer", false);
            }
        });
        r.par("devices", &src, |cx, s| {
            for l in layouts_dev(s, &ALL_KINDS, 1) {
                for row in [true, false] {
                    let raw = raw_i64(l.len, 51);
                    let m = l.nd(&raw);
                    cx.case(format_args!("row={row}|{l:?}"), || {
                        let (ds, df) = (serial(row), faer(row, 1));
                        let t = tensor(raw.clone(), &l, &ds);
                        check_t(&t.to_device(&df), &m).map_err(|e| format!("serial to faer: {e}"))?;
                        check_t(&t.view().change_device(&df), &m).map_err(|e| format!("serial change to faer: {e}"))?;
                        check_t(&t.view().into_device(&df), &m).map_err(|e| format!("serial view into faer: {e}"))?;
                        if *t.raw() != raw {
                            return Err("source changed".into());
                        }
                        let f = t.into_device(&df);
                        check_t(&f, &m).map_err(|e| format!("serial into faer: {e}"))?;
                        check_t(&f.to_device(&ds), &m).map_err(|e| format!("faer to serial: {e}"))?;
                        check_t(&f.view().into_device(&ds), &m)?;
                        check_t(&f.into_device(&ds), &m).map_err(|e| format!("faer into serial: {e}"))?;
                        Ok(Out::Val)
                    });
                }
            }
        });
        let depth = r.pick(4, 5);
        let hl: Vec<Lay> = vec![c_contig(&[2]), f_contig(&[2, 2]), build(&[2], &[0], &[FLIPSTEP], 1, 1), build(&[2, 2], &[1, 0], &[PLAIN, STEP], 0, 1), c_contig(&[1, 3]), build(&[], &[], &[], 1, 1)];
        let mut items = vec![];
        for l in &hl {
            for s in STEPS {
                for s2 in STEPS {
                    items.push((l.clone(), vec![s, s2]));
                }
            }
        }
        r.par("shared-histories", &items, |cx, (l, pre)| {
            for n in 0..=depth - 2 {
                for w in words(&STEPS, n) {
                    let mut h = pre.clone();
                    h.extend(w);
                    cx.state(&(l, format!("{h:?}")));
                    cx.case(format_args!("{l:?}|{h:?}"), || history(l, &h));
                }
            }
        });
    })
}
