//! P15: concat, stack, hstack, vstack, unstack, meshgrid, atleast_nd, split place every element where specified.
use core_mc::*;

/// one logical source of the given shape, its elements unique across sources (source number in the high digits)
fn src(shape: &[usize], k: usize) -> Nd<i64> {
    let mut c = 1000 * (k as i64 + 1);
    Nd::from_fn(shape, |_| {
        c += 1;
        c
    })
}

/// a buffer holding the given logical content under the layout, with other values elsewhere
fn raw_for(l: &Lay, m: &Nd<i64>) -> Vec<i64> {
    let mut raw = vec![-77; l.len];
    each_index(&l.shape, |i| raw[l.at(i)] = *m.at(i));
    raw
}

fn norm_axis(a: isize, nd: usize) -> Option<usize> {
    let b = if a < 0 { a + nd as isize } else { a };
    (b >= 0 && b < nd as isize).then_some(b as usize)
}

fn m_concat(ms: &[Nd<i64>], axis: isize) -> Option<Nd<i64>> {
    let f = ms.first()?;
    let ax = norm_axis(axis, f.ndim())?;
    let mut shape = f.shape.clone();
    shape[ax] = 0;
    for m in ms {
        if m.ndim() != f.ndim() || (0..f.ndim()).any(|k| k != ax && m.shape[k] != f.shape[k]) {
            return None;
        }
        shape[ax] += m.shape[ax];
    }
    Some(Nd::from_fn(&shape, |i| {
        let mut j = i.to_vec();
        for m in ms {
            if j[ax] < m.shape[ax] {
                return *m.at(&j);
            }
            j[ax] -= m.shape[ax];
        }
        unreachable!()
    }))
}

fn insert_axis(m: &Nd<i64>, ax: usize) -> Nd<i64> {
    let mut s = m.shape.clone();
    s.insert(ax, 1);
    Nd::new(&s, m.data.clone())
}

fn m_stack(ms: &[Nd<i64>], axis: isize) -> Option<Nd<i64>> {
    let f = ms.first()?;
    let ax = norm_axis(axis, f.ndim() + 1)?;
    if ms.iter().any(|m| m.shape != f.shape) {
        return None;
    }
    m_concat(&ms.iter().map(|m| insert_axis(m, ax)).collect::<Vec<_>>(), ax as isize)
}

fn atleast(m: &Nd<i64>, n: usize) -> Nd<i64> {
    let s = match (n, m.ndim()) {
        (1, 0) => vec![1],
        (2, 0) => vec![1, 1],
        (3, 0) => vec![1, 1, 1],
        (2, 1) => vec![1, m.shape[0]],
        (3, 1) => vec![1, m.shape[0], 1],
        (3, 2) => vec![m.shape[0], m.shape[1], 1],
        _ => m.shape.clone(),
    };
    Nd::new(&s, m.data.clone())
}

fn m_unstack(m: &Nd<i64>, axis: isize) -> Option<Vec<Nd<i64>>> {
    let ax = norm_axis(axis, m.ndim())?;
    let mut s = m.shape.clone();
    s.remove(ax);
    Some(
        (0..m.shape[ax])
            .map(|k| {
                Nd::from_fn(&s, |i| {
                    let mut j = i.to_vec();
                    j.insert(ax, k);
                    *m.at(&j)
                })
            })
            .collect(),
    )
}

fn m_mesh(ms: &[Nd<i64>], xy: bool) -> Vec<Nd<i64>> {
    let n = ms.len();
    let place = |k: usize| if xy && n >= 2 && k < 2 { 1 - k } else { k };
    let mut shape = vec![0; n];
    for k in 0..n {
        shape[place(k)] = ms[k].size();
    }
    (0..n).map(|k| Nd::from_fn(&shape, |i| ms[k].data[i[place(k)]])).collect()
}

fn contig(s: &[usize], st: &[isize], row: bool) -> bool {
    let w = if row { c_contig(s) } else { f_contig(s) };
    prod(s) == 0 || (0..s.len()).all(|k| s[k] == 1 || st[k] == w.stride[k])
}

macro_rules! join {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $ls:expr) => {{
        let d = $d;
        let ls: &Vec<Lay> = $ls;
        $cx.state(ls);
        $cx.case(format_args!("{}|row={}|join {ls:?}", $name, $row), || {
            let ms: Vec<Nd<i64>> = ls.iter().enumerate().map(|(k, l)| if l.has_bcast() { l.nd(&raw_i64(l.len, 1000 * (k as i64 + 1))) } else { src(&l.shape, k) }).collect();
            let raws: Vec<Vec<i64>> = ls.iter().zip(&ms).map(|(l, m)| raw_for(l, m)).collect();
            let ts: Vec<_> = ls.iter().zip(&raws).map(|(l, r)| tensor(r.clone(), l, &d)).collect();
            let views = || ts.iter().map(|t| t.view()).collect::<Vec<_>>();
            let refs: Vec<_> = ts.iter().collect();
            macro_rules! chk {
                ($what:expr, $e:expr, $w:expr) => {{
                    let w: Option<Nd<i64>> = $w;
                    let g = call(|| $e).map_err(|p| format!("{}: panicked: {p}", $what))?;
                    if let Ok(t) = &g {
                        if !contig(t.shape(), t.stride(), $row) { return Err(format!("{}: result layout {:?}", $what, t.layout())) }
                    }
                    expect(g, w.as_ref()).map_err(|e| format!("{}: {e}", $what))?;
                }};
            }
            let nd = ls.iter().map(|l| l.ndim()).max().unwrap_or(0) as isize;
            let mut any = false;
            for ax in -nd - 2..=nd + 1 {
                let w = m_concat(&ms, ax);
                any |= w.is_some();
                chk!(format!("concat axis {ax}"), rt::concat_f((views(), ax)), w.clone());
                chk!(format!("concat refs axis {ax}"), rt::concat_f((&refs, ax as i32)), w.clone());
                if ax >= 0 { chk!(format!("concat usize axis {ax}"), rt::concat_f((refs.clone(), ax as usize)), w) }
                let w = m_stack(&ms, ax);
                any |= w.is_some();
                chk!(format!("stack axis {ax}"), rt::stack_f((views(), ax)), w.clone());
                chk!(format!("stack refs axis {ax}"), rt::stack_f((&refs, ax as i32)), w);
            }
            chk!("concat", rt::concat_f(views()), m_concat(&ms, 0));
            chk!("stack", rt::stack_f(&refs), m_stack(&ms, 0));
            let a1: Vec<_> = ms.iter().map(|m| atleast(m, 1)).collect();
            chk!("hstack", rt::hstack_f(views()), m_concat(&a1, if a1.first().is_some_and(|m| m.ndim() == 1) { 0 } else { 1 }));
            chk!("hstack refs", rt::hstack_f(&refs), m_concat(&a1, if a1.first().is_some_and(|m| m.ndim() == 1) { 0 } else { 1 }));
            let a2: Vec<_> = ms.iter().map(|m| atleast(m, 2)).collect();
            chk!("vstack", rt::vstack_f(views()), m_concat(&a2, 0));
            chk!("vstack refs", rt::vstack_f(&refs), m_concat(&a2, 0));
            // coordinate grids
            let flat = ms.iter().all(|m| m.ndim() == 1);
            for xy in [true, false] {
                for copy in [true, false] {
                    let what = format!("meshgrid xy={xy} copy={copy}");
                    let g = call(|| rt::meshgrid_f((refs.clone(), if xy { "xy" } else { "ij" }, copy))).map_err(|p| format!("{what}: panicked: {p}"))?;
                    match (g, flat) {
                        (Ok(g), true) => {
                            let w = m_mesh(&ms, xy);
                            if g.len() != w.len() { return Err(format!("{what}: {} grids", g.len())) }
                            for (k, (g, w)) in g.iter().zip(&w).enumerate() {
                                check_t(g, w).map_err(|e| format!("{what} grid {k}: {e}"))?;
                            }
                        }
                        (Err(_), false) => {},
                        (Ok(g), false) => return Err(format!("{what}: accepted, giving {:?}", g.iter().map(|t| t.shape().clone()).collect::<Vec<_>>())),
                        (Err(e), true) => return Err(format!("{what}: rejected: {e:?}")),
                    }
                }
            }
            if flat && !ms.is_empty() {
                for (k, (g, w)) in rt::meshgrid(&refs).iter().zip(&m_mesh(&ms, true)).enumerate() {
                    check_t(g, w).map_err(|e| format!("meshgrid default grid {k}: {e}"))?;
                }
            }
            if !ms.is_empty() && rt::meshgrid_f((refs.clone(), "yx", true)).is_ok() { return Err("unknown indexing accepted".into()) }
            for (t, r) in ts.iter().zip(&raws) {
                if t.raw() != r { return Err("a source was changed".into()) }
            }
            Ok(if any { Out::Val } else { Out::Rej })
        });
    }};
}

macro_rules! apart {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $l:expr) => {{
        let d = $d;
        let l: &Lay = $l;
        $cx.state(l);
        $cx.case(format_args!("{}|row={}|apart {l:?}", $name, $row), || {
            let raw = raw_i64(l.len, 17);
            let m = l.nd(&raw);
            let t = tensor(raw.clone(), l, &d);
            let nd = l.ndim() as isize;
            for ax in -nd - 2..=nd + 1 {
                let w = m_unstack(&m, ax);
                let g = call(|| rt::unstack_f((&t, ax))).map_err(|p| format!("unstack axis {ax}: panicked: {p}"))?;
                match (g, w) {
                    (Ok(g), Some(w)) => {
                        if g.len() != w.len() { return Err(format!("unstack axis {ax}: {} parts instead of {}", g.len(), w.len())) }
                        for (k, (g, w)) in g.iter().zip(&w).enumerate() {
                            check_t(g, w).map_err(|e| format!("unstack axis {ax} part {k}: {e}"))?;
                            if g.raw().as_ptr() != t.raw().as_ptr() { return Err("unstack copied".into()) }
                        }
                    }
                    (Err(_), None) => {},
                    (Ok(_), None) => return Err(format!("unstack axis {ax} accepted")),
                    (Err(e), Some(_)) => return Err(format!("unstack axis {ax} rejected: {e:?}")),
                }
                // taking apart and joining again is the identity
                if norm_axis(ax, l.ndim()).is_some() {
                    let g = rt::unstack((&t, ax));
                    if !g.is_empty() {
                        let back = rt::stack_f((g, ax)).map_err(|e| format!("stack of unstack axis {ax}: {e:?}"))?;
                        check_t(&back, &m).map_err(|e| format!("stack of unstack axis {ax}: {e}"))?;
                    }
                }
            }
            for n in 1..=3 {
                let w = atleast(&m, n);
                let g = match n { 1 => t.atleast_1d(), 2 => t.atleast_2d(), _ => t.atleast_3d() };
                check_t(&g, &w).map_err(|e| format!("atleast_{n}d: {e}"))?;
                let g = match n { 1 => rt::into_atleast_1d(t.view()), 2 => rt::into_atleast_2d(t.view()), _ => rt::into_atleast_3d(t.view()) };
                check_t(&g, &w).map_err(|e| format!("into_atleast_{n}d: {e}"))?;
            }
            if *t.raw() != raw { return Err("source changed".into()) }
            Ok(Out::Val)
        });
    }};
}

fn main() {
    fw::main("P15", |r| {
        let rows = [true, false];
        // pairs and triples of shapes over plain layouts, valid and invalid
        let base = shapes(0, 2, &[0, 1, 2]);
        let b3 = shapes(0, r.pick(3, 3), &[0, 1, 2, 3]);
        let mut items: Vec<(bool, Vec<Lay>)> = vec![];
        for row in rows {
            items.push((row, vec![]));
            for s in &b3 {
                items.push((row, vec![c_contig(s)]));
            }
            for w in words(&b3, 2) {
                if w[0].len().abs_diff(w[1].len()) <= 1 {
                    let close = w[0].len() == w[1].len() && w[0].iter().zip(&w[1]).filter(|(a, b)| a != b).count() <= 2;
                    if close || w.iter().all(|s| s.len() <= 2) {
                        items.push((row, vec![c_contig(&w[0]), f_contig(&w[1])]));
                    }
                }
            }
            for n in 3..=r.pick(3, 4) {
                for w in words(&base, n) {
                    items.push((row, w.iter().enumerate().map(|(k, s)| if k % 2 == 0 { c_contig(s) } else { f_contig(s) }).collect()));
                }
            }
        }
        r.par("lists of shapes", &items, |cx, (row, ls)| {
            join!(cx, "serial", serial(*row), *row, ls);
        });
        r.bound(format!("joins: no input, one input of every shape of rank 0..=3 with extents 0..=3, pairs of those, every {} of shapes of rank 0..=2 with extents 0..=2, every axis from -rank-2 to rank+1: {} lists", r.pick("triple", "triple and quadruple"), items.len() / 2));
        // pairs of layouts
        let mut items: Vec<(bool, Vec<Lay>)> = vec![];
        let mut ns = 0;
        for s in shapes(0, 3, &[1, 2, 3]) {
            let ls = if s.len() <= 2 { layouts_full(&s, &ALL_KINDS) } else { layouts_dev(&s, &ALL_KINDS, r.pick(1, 2)) };
            ns += ls.len();
            for (k, l) in ls.iter().enumerate() {
                let other = &ls[(k * 7 + 3) % ls.len()];
                for row in rows {
                    items.push((row, vec![l.clone(), other.clone()]));
                    items.push((row, vec![l.clone(), c_contig(&s), other.clone()]));
                }
            }
        }
        for s in [vec![17], vec![3, 17], vec![17, 3], vec![2, 16, 2]] {
            for l in layouts_dev(&s, &ALL_KINDS, 1) {
                for row in rows {
                    items.push((row, vec![l.clone(), c_contig(&s), f_contig(&s)]));
                }
            }
        }
        r.par("lists of layouts", &items, |cx, (row, ls)| {
            join!(cx, "serial", serial(*row), *row, ls);
            join!(cx, "faer2", faer(*row, 2), *row, ls);
        });
        r.bound(format!("layouts: {} lists of two or three over {ns} layouts", items.len() / 2));
        let mut items: Vec<(bool, Lay)> = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]).into_iter().chain(shapes(4, 4, &[1, 2])) {
            for l in if s.len() <= 2 { layouts_full(&s, &ALL_KINDS) } else { layouts_dev(&s, &ALL_KINDS, r.pick(1, 2)) } {
                items.push((true, l.clone()));
                items.push((false, l));
            }
        }
        r.par("unstack and atleast", &items, |cx, (row, l)| {
            apart!(cx, "serial", serial(*row), *row, l);
            apart!(cx, "faer2", faer(*row, 2), *row, l);
        });
        r.bound(format!("unstack and atleast_nd: {} layouts of rank 0..=4, every axis", items.len() / 2));
    });
}
