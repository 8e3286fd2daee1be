//! P17: pack_tri, unpack_tri, tril and triu give the matrix the definition states at every index and batch position.
use core_mc::*;
use FlagSymm::*;
type Z = Complex<f64>;

/// position in the packed list of the matrix element (i, j) of the triangle, in the traversal order of the convention
fn packed_order(n: usize, lower: bool, row: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            let (i, j) = if row { (a, b) } else { (b, a) };
            if if lower { i >= j } else { i <= j } {
                v.push((i, j));
            }
        }
    }
    v
}

fn split(i: &[usize], k: usize, row: bool) -> (Vec<usize>, Vec<usize>) {
    let n = i.len();
    if row { (i[n - k..].to_vec(), i[..n - k].to_vec()) } else { (i[..k].to_vec(), i[k..].to_vec()) }
}

fn join(inner: &[usize], rest: &[usize], row: bool) -> Vec<usize> {
    if row { [rest, inner].concat() } else { [inner, rest].concat() }
}

fn m_pack<T: Clone>(m: &Nd<T>, lower: bool, row: bool) -> Option<Nd<T>> {
    if m.ndim() < 2 {
        return None;
    }
    let (s, rest) = split(&m.shape, 2, row);
    if s[0] != s[1] {
        return None;
    }
    let ord = packed_order(s[0], lower, row);
    Some(Nd::from_fn(&join(&[ord.len()], &rest, row), |i| {
        let (p, r) = split(i, 1, row);
        let (a, b) = ord[p[0]];
        m.at(&join(&[a, b], &r, row)).clone()
    }))
}

fn tri_root(len: usize) -> Option<usize> {
    (0..=len).find(|n| n * (n + 1) / 2 == len)
}

trait El: Copy {
    fn conj_(self) -> Self;
    fn neg_(self) -> Self;
    fn zero_() -> Self;
    /// the diagonal entry of the packed matrix that is consistent with the symmetry
    fn diag_ok(self, s: FlagSymm) -> Self;
}
impl El for Z {
    fn conj_(self) -> Self { Z::new(self.re, -self.im) }
    fn neg_(self) -> Self { Z::new(-self.re, -self.im) }
    fn zero_() -> Self { Z::new(0., 0.) }
    fn diag_ok(self, s: FlagSymm) -> Self {
        match s { He => Z::new(self.re, 0.), Ah => Z::new(0., self.im), Ay => Z::new(0., 0.), _ => self }
    }
}
impl El for f64 {
    fn conj_(self) -> Self { self }
    fn neg_(self) -> Self { -self }
    fn zero_() -> Self { 0. }
    fn diag_ok(self, s: FlagSymm) -> Self { if matches!(s, Ay | Ah) { 0. } else { self } }
}

fn m_unpack<T: El>(m: &Nd<T>, lower: bool, row: bool, symm: FlagSymm) -> Option<Nd<T>> {
    if m.ndim() < 1 {
        return None;
    }
    let (p, rest) = split(&m.shape, 1, row);
    let n = tri_root(p[0])?;
    let ord = packed_order(n, lower, row);
    Some(Nd::from_fn(&join(&[n, n], &rest, row), |i| {
        let (ij, r) = split(i, 2, row);
        let get = |a: usize, b: usize| ord.iter().position(|x| *x == (a, b)).map(|q| *m.at(&join(&[q], &r, row)));
        match get(ij[0], ij[1]) {
            Some(v) => v,
            None => {
                let o = get(ij[1], ij[0]).unwrap();
                match symm { Sy => o, He => o.conj_(), Ay => o.neg_(), Ah => o.neg_().conj_(), N => T::zero_() }
            }
        }
    }))
}

/// the packed data with its diagonal entries made consistent with the symmetry (also the documented result of unpacking)
fn fix_diag<T: El>(m: &Nd<T>, lower: bool, row: bool, symm: FlagSymm) -> Nd<T> {
    let (p, _) = split(&m.shape, 1, row);
    let Some(n) = tri_root(p[0]) else { return m.clone() };
    let ord = packed_order(n, lower, row);
    Nd::from_fn(&m.shape, |i| {
        let (q, _) = split(i, 1, row);
        let (a, b) = ord[q[0]];
        if a == b { m.at(i).diag_ok(symm) } else { *m.at(i) }
    })
}

fn raw_z(len: usize) -> Vec<Z> {
    (0..len).map(|p| Z::new(3.0 + p as f64, 0.25 * (p as f64) + 0.5)).collect()
}

macro_rules! pack {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $l:expr) => {{
        let (d, row) = ($d, $row);
        let l: &Lay = $l;
        $cx.state(l);
        $cx.case(format_args!("{}|row={row}|pack {l:?}", $name), || {
            let raw = raw_i64(l.len, 17);
            let m = l.nd(&raw);
            let t = tensor(raw.clone(), l, &d);
            let mut r = Out::Rej;
            for lower in [true, false] {
                let w = m_pack(&m, lower, row);
                let up = if lower { FlagUpLo::L } else { FlagUpLo::U };
                let g = call(|| t.pack_tri_f(up)).map_err(|p| format!("pack_tri {up:?}: panicked: {p}"))?;
                r = expect(g, w.as_ref()).map_err(|e| format!("pack_tri {up:?}: {e}"))?;
                let g = call(|| if lower { t.view().pack_tril_f() } else { t.view().pack_triu_f() }).map_err(|p| format!("pack_tri[lu] {up:?}: panicked: {p}"))?;
                expect(g, w.as_ref()).map_err(|e| format!("pack_tri[lu] {up:?}: {e}"))?;
            }
            if *t.raw() != raw { return Err("source changed".into()) }
            Ok(r)
        });
    }};
}

macro_rules! unpack {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $l:expr, $T:ty, $rawf:expr) => {{
        let (d, row) = ($d, $row);
        let l: &Lay = $l;
        $cx.state(l);
        $cx.case(format_args!("{}|row={row}|unpack {} {l:?}", $name, stringify!($T)), || {
            let mut r = Out::Rej;
            for symm in [Sy, He, Ay, Ah, N] {
                for lower in [true, false] {
                    let mut raw: Vec<$T> = $rawf(l.len);
                    let m0 = l.nd(&raw);
                    let w = if l.ndim() == 0 { None } else {
                        let m = fix_diag(&m0, lower, row, symm);
                        // the hermitian form of a matrix with a non-real diagonal is not defined: give it a consistent one
                        if symm == He {
                            if l.has_bcast() { continue }
                            each_index(&l.shape, |i| raw[l.at(i)] = *m.at(i));
                        }
                        m_unpack(&m, lower, row, symm)
                    };
                    let t = tensor(raw.clone(), l, &d);
                    let up = if lower { FlagUpLo::L } else { FlagUpLo::U };
                    let g = call(|| t.unpack_tri_f(up, symm)).map_err(|p| format!("unpack_tri {up:?} {symm:?}: panicked: {p}"))?;
                    r = expect(g, w.as_ref()).map_err(|e| format!("unpack_tri {up:?} {symm:?}: {e}"))?;
                    let g = call(|| if lower { t.view().unpack_tril_f(symm) } else { t.view().unpack_triu_f(symm) }).map_err(|p| format!("unpack_tri[lu] {up:?} {symm:?}: panicked: {p}"))?;
                    if let Ok(g) = &g {
                        // packing again gives the packed data back
                        let back = if lower { g.pack_tril_f() } else { g.pack_triu_f() };
                        let m = fix_diag(&l.nd(&raw), lower, row, symm);
                        check_t(&back.map_err(|e| format!("pack of unpack {up:?} {symm:?}: {e:?}"))?, &m).map_err(|e| format!("pack of unpack {up:?} {symm:?}: {e}"))?;
                    }
                    expect(g, w.as_ref()).map_err(|e| format!("unpack_tri[lu] {up:?} {symm:?}: {e}"))?;
                    if *t.raw() != raw { return Err("source changed".into()) }
                }
            }
            Ok(r)
        });
    }};
}

fn m_tri(m: &Nd<i64>, k: isize, lower: bool, ax: usize) -> Nd<i64> {
    Nd::from_fn(&m.shape, |i| {
        let (a, b) = (i[ax] as i128, i[ax + 1] as i128);
        let keep = if lower { b <= a + k as i128 } else { b >= a + k as i128 };
        if keep { *m.at(i) } else { 0 }
    })
}

macro_rules! tri {
    ($cx:expr, $name:expr, $d:expr, $row:expr, $l:expr) => {{
        let (d, row) = ($d, $row);
        let l: &Lay = $l;
        $cx.state(l);
        $cx.case(format_args!("{}|row={row}|tri {l:?}", $name), || {
            let raw = raw_i64(l.len, 17);
            let m = l.nd(&raw);
            let big = l.shape.iter().copied().max().unwrap_or(0) as isize;
            let mut ks: Vec<isize> = (-big - 2..=big + 2).collect();
            ks.extend([isize::MAX, isize::MAX - 1, isize::MIN, isize::MIN + 1]);
            for k in ks {
                for lower in [true, false] {
                    let what = format!("{} k={k}", if lower { "tril" } else { "triu" });
                    // a stack of matrices in the column-major convention: either pair of axes counts as "the matrix"
                    let mut ws = vec![];
                    if l.ndim() >= 2 {
                        ws.push(m_tri(&m, k, lower, l.ndim() - 2));
                        if !row { ws.push(m_tri(&m, k, lower, 0)) }
                    }
                    let t = tensor(raw.clone(), l, &d);
                    macro_rules! one {
                        ($form:expr, $e:expr, $may_reject:expr) => {{
                            let g = call(|| $e).map_err(|p| format!("{what} of {}: panicked: {p}", $form))?;
                            match g {
                                Ok(g) => {
                                    let v = logical(&g).map_err(|e| format!("{what} of {}: {e}", $form))?;
                                    if !ws.contains(&v) { return Err(format!("{what} of {}: {v:?}, expected {ws:?}", $form)) }
                                }
                                Err(_) if ws.is_empty() || $may_reject => {},
                                Err(e) => return Err(format!("{what} of {}: rejected: {e:?}", $form)),
                            }
                        }};
                    }
                    if lower {
                        one!("a reference", rt::tril_f((&t, k)), false);
                        one!("a view", rt::tril_f((t.view(), k)), false);
                        one!("an owned array", rt::tril_f((tensor(raw.clone(), l, &d), k)), l.has_bcast());
                        if k == 0 {
                            one!("a reference, default k", rt::tril_f(&t), false);
                            one!("a view, default k", rt::tril_f(t.view()), false);
                            one!("an owned array, default k", rt::tril_f(tensor(raw.clone(), l, &d)), l.has_bcast());
                        }
                    } else {
                        one!("a reference", rt::triu_f((&t, k)), false);
                        one!("a view", rt::triu_f((t.view(), k)), false);
                        one!("an owned array", rt::triu_f((tensor(raw.clone(), l, &d), k)), l.has_bcast());
                        if k == 0 {
                            one!("a reference, default k", rt::triu_f(&t), false);
                            one!("a view, default k", rt::triu_f(t.view()), false);
                            one!("an owned array, default k", rt::triu_f(tensor(raw.clone(), l, &d)), l.has_bcast());
                        }
                    }
                    if *t.raw() != raw { return Err(format!("{what}: source changed")) }
                    if !l.has_bcast() {
                        // in place: exactly the addressed elements on the wrong side become zero
                        let mut t = tensor(raw.clone(), l, &d);
                        if lower { one!("a mutable view", rt::tril_f((t.view_mut(), k)), false) } else { one!("a mutable view", rt::triu_f((t.view_mut(), k)), false) }
                        let pos: Vec<usize> = l.positions();
                        for (p, (a, b)) in raw.iter().zip(t.raw()).enumerate() {
                            if a != b && !pos.contains(&p) { return Err(format!("{what} of a mutable view: buffer position {p} outside the view changed")) }
                        }
                        if !ws.is_empty() {
                            let v = logical(&t)?;
                            if !ws.contains(&v) { return Err(format!("{what} of a mutable view: array is {v:?}")) }
                        } else if *t.raw() != raw { return Err(format!("{what}: rejected but changed the array")) }
                    }
                }
            }
            Ok(if l.ndim() >= 2 { Out::Val } else { Out::Rej })
        });
    }};
}

fn main() {
    fw::main("P17", |r| {
        let mut items: Vec<(bool, Lay)> = vec![];
        let mut ss = shapes(0, 3, &[0, 1, 2, 3]);
        ss.extend([vec![4, 4], vec![5, 5], vec![4, 4, 2], vec![2, 4, 4]]);
        ss.extend(shapes(4, 4, &[1, 2]));
        ss.extend([vec![7, 7], vec![3, 3, 2, 2], vec![2, 2, 3, 3], vec![70, 2, 2], vec![2, 2, 70], vec![5, 9, 3, 3], vec![3, 3, 9, 5]]);
        for s in &ss {
            for l in if s.len() <= 2 && prod(s) <= 30 { layouts_full(s, &ALL_KINDS) } else { layouts_dev(s, &ALL_KINDS, r.pick(1, 2)) } {
                items.push((true, l.clone()));
                items.push((false, l));
            }
        }
        r.par("pack", &items, |cx, (row, l)| {
            pack!(cx, "serial", serial(*row), *row, l);
            pack!(cx, "faer1", faer(*row, 1), *row, l);
            pack!(cx, "faer3", faer(*row, 3), *row, l);
        });
        let npack = items.len() / 2;
        let tri: Vec<_> = items.iter().filter(|(_, l)| l.ndim() <= r.pick(3, 4) && l.size() <= 200).cloned().collect();
        r.par("tril and triu", &tri, |cx, (row, l)| {
            tri!(cx, "serial", serial(*row), *row, l);
            tri!(cx, "faer3", faer(*row, 3), *row, l);
        });
        let mut items: Vec<(bool, Lay)> = vec![];
        let mut ss = shapes(0, 0, &[0]);
        for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 10, 15, 21, 28] {
            ss.push(vec![n]);
            for b in [0usize, 1, 2, 3] {
                ss.push(vec![b, n]);
                ss.push(vec![n, b]);
                if n <= 6 {
                    ss.push(vec![b, 2, n]);
                    ss.push(vec![n, 2, b]);
                }
            }
        }
        ss.extend([vec![70, 3], vec![3, 70], vec![5, 9, 6], vec![6, 9, 5], vec![2, 3, 2, 3], vec![3, 2, 2, 3]]);
        ss.sort();
        ss.dedup();
        for s in &ss {
            for l in if s.len() <= 2 && prod(s) <= 30 { layouts_full(s, &ALL_KINDS) } else { layouts_dev(s, &ALL_KINDS, r.pick(1, 2)) } {
                items.push((true, l.clone()));
                items.push((false, l));
            }
        }
        r.par("unpack", &items, |cx, (row, l)| {
            unpack!(cx, "serial", serial(*row), *row, l, Z, raw_z);
            unpack!(cx, "faer3", faer(*row, 3), *row, l, Z, raw_z);
            unpack!(cx, "serial", serial(*row), *row, l, f64, |n: usize| (0..n).map(|p| p as f64 + 2.5).collect::<Vec<f64>>());
            unpack!(cx, "faer1", faer(*row, 1), *row, l, f64, |n: usize| (0..n).map(|p| p as f64 + 2.5).collect::<Vec<f64>>());
        });
        r.assume("unpacking as Hermitian is checked for packed matrices whose diagonal is real (anything else is not Hermitian); in the column-major convention tril/triu of a stack may take either the first or the last two axes as the matrix");
        r.bound(format!("pack: {npack} layouts of shapes of rank 0..=4 (square and not); tril/triu: {} layouts, every k from -extent-2 to extent+2 and the extreme values, all four ownership forms; unpack: {} layouts of packed arrays of length 0..=7, 10, 15, 21, 28 with up to two batch axes in front or behind, five symmetries, both triangles, complex and real; both conventions; serial device and rayon device", tri.len() / 2, items.len() / 2));
    });
}
