//! P16: index_select, take and bool_select return exactly the chosen slices, in the given order.
use core_mc::*;

fn norm_axis(a: isize, nd: usize) -> Option<usize> {
    let b = if a < 0 { a + nd as isize } else { a };
    (b >= 0 && b < nd as isize).then_some(b as usize)
}

fn m_select(m: &Nd<i64>, axis: isize, ix: &[isize]) -> Option<Nd<i64>> {
    let ax = norm_axis(axis, m.ndim())?;
    let n = m.shape[ax] as isize;
    let ix: Vec<usize> = ix.iter().map(|&i| if i < 0 { i + n } else { i }).map(|i| (i >= 0 && i < n).then_some(i as usize)).collect::<Option<_>>()?;
    let mut s = m.shape.clone();
    s[ax] = ix.len();
    Some(Nd::from_fn(&s, |i| {
        let mut j = i.to_vec();
        j[ax] = ix[i[ax]];
        *m.at(&j)
    }))
}

fn m_mask(m: &Nd<i64>, axis: isize, mask: &[bool]) -> Option<Nd<i64>> {
    let ax = norm_axis(axis, m.ndim())?;
    if mask.len() != m.shape[ax] {
        return None;
    }
    m_select(m, axis, &mask.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as isize).collect::<Vec<_>>())
}

/// every word over the in-range indices up to the given length, plus words with one out-of-range entry
fn index_words(n: usize, len: usize, far: bool) -> Vec<Vec<isize>> {
    let n = n as isize;
    let alpha: Vec<isize> = (-n - 1..=n).collect();
    let mut out = vec![];
    for k in 0..=len {
        out.extend(words(&alpha, k));
    }
    if far {
        for f in [isize::MAX, isize::MIN, n + 5, -n - 7] {
            out.push(vec![f]);
            out.push(vec![0, f]);
        }
    }
    out
}

macro_rules! select {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $l:expr, $len:expr) => {{
        let d = $d;
        let l: &Lay = $l;
        $cx.state(l);
        $cx.case(format_args!("{}|row={}|{l:?}", $name, $row), || {
            let raw = raw_i64(l.len, 17);
            let m = l.nd(&raw);
            let t = tensor(raw.clone(), l, &d);
            let nd = l.ndim() as isize;
            let (mut some, mut n) = (false, 0u64);
            macro_rules! chk {
                ($w:expr, $e:expr, $what:expr) => {{
                    n += 1;
                    let w: Option<Nd<i64>> = $w;
                    some |= w.is_some();
                    let g = call(|| $e).map_err(|p| format!("{}: panicked: {p}", $what))?;
                    if let (Ok(g), Some(w)) = (&g, &w) {
                        let c = if $row { c_contig(&w.shape) } else { f_contig(&w.shape) };
                        if w.size() > 0 && (0..w.ndim()).any(|k| w.shape[k] > 1 && g.stride()[k] != c.stride[k]) {
                            return Err(format!("{}: result layout {:?}", $what, g.layout()));
                        }
                    }
                    expect(g, w.as_ref()).map_err(|e| format!("{}: {e}", $what))?;
                }};
            }
            for ax in -nd - 1..=nd {
                let ext = norm_axis(ax, l.ndim()).map_or(1, |k| l.shape[k]);
                for ix in index_words(ext, $len, true) {
                    chk!(m_select(&m, ax, &ix), t.index_select_f(ax, ix.clone()), format!("index_select axis {ax} {ix:?}"));
                    if ix.len() <= 1 {
                        chk!(m_select(&m, ax, &ix), t.take_f(&ix, ax), format!("take axis {ax} {ix:?}"));
                        chk!(m_select(&m, ax, &ix), t.view().index_select_f(ax, ix.as_slice()), format!("index_select of a view axis {ax} {ix:?}"));
                        if ix.iter().all(|&i| i >= 0) {
                            let u: Vec<usize> = ix.iter().map(|&i| i as usize).collect();
                            chk!(m_select(&m, ax, &ix), rt::index_select_f(&t, ax, &u), format!("index_select usize axis {ax} {ix:?}"));
                            chk!(m_select(&m, ax, &ix), rt::take_f(&t, u.clone(), ax), format!("take usize axis {ax} {ix:?}"));
                        }
                    }
                }
                for k in 0..=ext + 1 {
                    for mask in words(&[false, true], k.min(6)) {
                        if ext > 6 && k <= 6 && k != 0 { continue }
                        chk!(m_mask(&m, ax, &mask), t.bool_select_f(ax, mask.clone()), format!("bool_select axis {ax} {mask:?}"));
                    }
                }
                if ext > 4 {
                    // long axes: runs and periodic patterns
                    for p in 1..=4usize {
                        for q in 0..p {
                            let mask: Vec<bool> = (0..ext).map(|i| i % p == q).collect();
                            chk!(m_mask(&m, ax, &mask), t.bool_select_f(ax, &mask), format!("bool_select axis {ax} {mask:?}"));
                            let ix: Vec<isize> = (0..2 * ext as isize).map(|i| (i * p as isize + q as isize) % ext as isize - if i % 3 == 0 { ext as isize } else { 0 }).collect();
                            chk!(m_select(&m, ax, &ix), t.index_select_f(ax, &ix), format!("index_select axis {ax} {ix:?}"));
                        }
                    }
                }
            }
            if *t.raw() != raw { return Err("source changed".into()) }
            let _ = n;
            Ok(if some { Out::Val } else { Out::Rej })
        });
    }};
}

fn main() {
    fw::main("P16", |r| {
        let mut items: Vec<(bool, Lay, usize)> = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) {
            let ls = if s.len() <= 2 { layouts_full(&s, &ALL_KINDS) } else { layouts_dev(&s, &ALL_KINDS, r.pick(1, 2)) };
            for l in ls {
                // index lists one element longer than the axis where that stays affordable
                let len = if s.len() <= 1 { r.pick(4, 5) } else if s.len() == 2 { r.pick(2, 3) } else { 2 };
                for row in [true, false] {
                    items.push((row, l.clone(), len));
                }
            }
        }
        for s in shapes(4, 4, &[1, 2]) {
            for l in layouts_dev(&s, &NOB_KINDS, r.pick(1, 2)) {
                for row in [true, false] {
                    items.push((row, l.clone(), 2));
                }
            }
        }
        r.par("small arrays", &items, |cx, (row, l, len)| {
            select!(cx, "serial", serial(*row), *row, l, *len);
            select!(cx, "faer1", faer(*row, 1), *row, l, *len);
            select!(cx, "faer3", faer(*row, 3), *row, l, *len);
        });
        let small = items.len() / 2;
        // sizes on both sides of the length where the parallel device starts to divide the work
        let mut items: Vec<(bool, Lay)> = vec![];
        for s in [vec![9], vec![70], vec![5, 70], vec![70, 5], vec![9, 9, 9], vec![33, 3, 11], vec![2, 3, 90], vec![90, 2, 3]] {
            for l in layouts_dev(&s, &ALL_KINDS, r.pick(1, 2)) {
                for row in [true, false] {
                    items.push((row, l.clone()));
                }
            }
        }
        r.par("larger arrays", &items, |cx, (row, l)| {
            select!(cx, "serial", serial(*row), *row, l, 1);
            select!(cx, "faer3", faer(*row, 3), *row, l, 1);
        });
        r.bound(format!("{small} layouts of rank 0..=4; every axis from -rank-1 to rank; every index list over -n-1..=n of length 0..={} (rank 1), 0..={} (rank 2), 0..=2 (rank >= 3) and lists with far-out entries; every mask of length 0..=n+1; {} larger layouts with periodic lists and masks; both conventions; serial device and rayon device with 1 and 3 threads", r.pick(4, 5), r.pick(2, 3), items.len() / 2));
    });
}
