//! P01: histories of view operations. Breadth-first search over layouts; each transition calls the real
//! view operation on a real view and is compared with the same operation on the reference array.
use core_mc::*;
use std::collections::HashMap;

type V<'a> = TensorView<'a, i64, DeviceCpuSerial, IxD>;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Slice(usize, Option<isize>, Option<isize>, Option<isize>),
    Select(usize, isize),
    NewAxis(usize),
    Flip(Vec<isize>),
    FlipAll,
    Perm(Vec<isize>),
    Rev,
    Swap(isize, isize),
    Move(Vec<isize>, Vec<isize>),
    Expand(Vec<isize>),
    Squeeze(Vec<isize>),
    Bcast(Vec<usize>),
    Diag(isize, isize, isize),
    Mix(Vec<MixI>),
}
#[derive(Clone, Debug, PartialEq)]
enum MixI {
    S(Option<isize>, Option<isize>, Option<isize>),
    I(isize),
    N,
    E,
}

fn ops(shape: &[usize], rich: bool) -> Vec<Op> {
    let n = shape.len();
    let mut v = vec![];
    for k in 0..n {
        let d = shape[k];
        let mut sl = vec![(Some(1), None, None), (None, Some(-1), None), (None, None, Some(2)), (None, None, Some(-1)), (None, None, Some(-2)), (Some(1), Some(1), None)];
        if rich {
            sl.extend([(Some(1), None, Some(2)), (Some(-1), Some(0), Some(-1)), (Some(-2), None, None), (Some(d as isize), None, None)]);
        }
        for (a, b, c) in sl {
            v.push(Op::Slice(k, a, b, c));
        }
        v.push(Op::Select(k, 0));
        if d > 1 || rich {
            v.push(Op::Select(k, -1));
        }
        v.push(Op::Flip(vec![k as isize]));
        if d == 1 {
            v.push(Op::Squeeze(vec![k as isize - if k % 2 == 0 { 0 } else { n as isize }]));
        }
    }
    if n >= 1 {
        v.push(Op::FlipAll);
        v.push(Op::Rev);
    }
    if n >= 2 {
        v.push(Op::Flip((0..n as isize).rev().collect()));
        for p in permutations(n) {
            // one negative axis number per permutation, to exercise both spellings
            let mut p: Vec<isize> = p.iter().map(|x| *x as isize).collect();
            p[0] -= n as isize;
            v.push(Op::Perm(p));
        }
        for a in 0..n as isize {
            for b in 0..n as isize {
                if a < b {
                    v.push(Op::Swap(a, b - n as isize));
                }
                if a != b {
                    v.push(Op::Move(vec![a], vec![b]));
                }
            }
        }
        v.push(Op::Move(vec![0, -1], vec![-1, 0]));
        for (a, b) in [(0, 1), (1, 0), (0, n as isize - 1)] {
            if a == b {
                continue;
            }
            for o in [0isize, 1, -1] {
                v.push(Op::Diag(o, a, b));
            }
        }
    }
    if n < 4 {
        for k in 0..=n {
            v.push(Op::NewAxis(k));
            v.push(Op::Expand(vec![k as isize]));
        }
        if n <= 2 {
            v.push(Op::Expand(vec![0, -1]));
        }
        let mut s = shape.to_vec();
        s.insert(0, 2);
        v.push(Op::Bcast(s));
    }
    for k in 0..n {
        if shape[k] == 1 {
            let mut s = shape.to_vec();
            s[k] = 2;
            v.push(Op::Bcast(s));
        }
    }
    let ones: Vec<isize> = (0..n).filter(|&k| shape[k] == 1).map(|k| k as isize).collect();
    if ones.len() >= 2 {
        v.push(Op::Squeeze(ones));
    }
    if n >= 1 {
        v.push(Op::Mix(vec![MixI::E, MixI::S(None, None, Some(-1))]));
        v.push(Op::Mix(vec![MixI::I(0), MixI::N, MixI::E]));
        v.push(Op::Mix(vec![MixI::E, MixI::N, MixI::I(-1)]));
    }
    if n >= 2 {
        v.push(Op::Mix(vec![MixI::S(Some(1), None, None), MixI::E, MixI::S(None, None, Some(2))]));
        v.push(Op::Mix(vec![MixI::N, MixI::S(None, Some(1), None), MixI::N, MixI::I(0)]));
    }
    v
}

fn norm(a: isize, n: usize) -> usize {
    (if a < 0 { a + n as isize } else { a }) as usize
}

/// reference semantics on the array of buffer positions
fn model(m: &Nd<i64>, op: &Op) -> Option<Nd<i64>> {
    let n = m.ndim();
    Some(match op {
        Op::Slice(k, a, b, c) => {
            let ix = py_slice(m.shape[*k], *a, *b, *c)?;
            take(m, *k, &ix)
        },
        Op::Select(k, i) => {
            let d = m.shape[*k] as isize;
            let j = if *i < 0 { *i + d } else { *i };
            if j < 0 || j >= d {
                return None;
            }
            drop_axis(&take(m, *k, &[j as usize]), *k)
        },
        Op::NewAxis(k) => insert_axis(m, *k),
        Op::Flip(ax) => ax.iter().fold(m.clone(), |m, a| m.flip(norm(*a, n))),
        Op::FlipAll => (0..n).fold(m.clone(), |m, a| m.flip(a)),
        Op::Perm(p) => m.permute(&p.iter().map(|a| norm(*a, n)).collect::<Vec<_>>()),
        Op::Rev => m.t(),
        Op::Swap(a, b) => {
            let mut p: Vec<usize> = (0..n).collect();
            p.swap(norm(*a, n), norm(*b, n));
            m.permute(&p)
        },
        Op::Move(s, d) => {
            let s: Vec<usize> = s.iter().map(|a| norm(*a, n)).collect();
            let d: Vec<usize> = d.iter().map(|a| norm(*a, n)).collect();
            let mut p: Vec<usize> = (0..n).filter(|k| !s.contains(k)).collect();
            let mut pairs: Vec<_> = d.iter().zip(&s).collect();
            pairs.sort();
            for (d, s) in pairs {
                p.insert(*d, *s);
            }
            m.permute(&p)
        },
        Op::Expand(ax) => {
            let tot = n + ax.len();
            let mut ax: Vec<usize> = ax.iter().map(|a| norm(*a, tot)).collect();
            ax.sort();
            ax.iter().fold(m.clone(), |m, a| insert_axis(&m, *a))
        },
        Op::Squeeze(ax) => {
            let mut ax: Vec<usize> = ax.iter().map(|a| norm(*a, n)).collect();
            ax.sort();
            ax.iter().rev().fold(m.clone(), |m, a| drop_axis(&m, *a))
        },
        Op::Bcast(s) => m.broadcast(s, true)?,
        Op::Diag(o, a, b) => diag(m, *o, norm(*a, n), norm(*b, n)),
        Op::Mix(ix) => {
            let used = ix.iter().filter(|x| matches!(x, MixI::S(..) | MixI::I(_))).count();
            if used > n {
                return None;
            }
            let mut ix = ix.clone();
            match ix.iter().position(|x| *x == MixI::E) {
                Some(p) => {
                    ix.remove(p);
                    for _ in 0..n - used {
                        ix.insert(p, MixI::S(None, None, None));
                    }
                },
                None => {
                    for _ in 0..n - used {
                        ix.push(MixI::S(None, None, None));
                    }
                },
            }
            let mut cur = m.clone();
            let mut ax = 0;
            for i in &ix {
                match i {
                    MixI::S(a, b, c) => {
                        let l = py_slice(cur.shape[ax], *a, *b, *c)?;
                        cur = take(&cur, ax, &l);
                        ax += 1;
                    },
                    MixI::I(i) => {
                        let d = cur.shape[ax] as isize;
                        let j = if *i < 0 { *i + d } else { *i };
                        if j < 0 || j >= d {
                            return None;
                        }
                        cur = drop_axis(&take(&cur, ax, &[j as usize]), ax);
                    },
                    MixI::N => {
                        cur = insert_axis(&cur, ax);
                        ax += 1;
                    },
                    MixI::E => unreachable!(),
                }
            }
            cur
        },
    })
}

/// every argument of the axis-list operations over a range that includes out-of-range values
fn all_args(shape: &[usize]) -> Vec<Op> {
    let n = shape.len() as isize;
    let alpha: Vec<isize> = (-n - 2..=n + 1).collect();
    let mut v = vec![];
    for k in 0..=if n <= 3 { 3 } else { 2 } {
        for w in words(&alpha, k) {
            v.push(Op::Flip(w.clone()));
            v.push(Op::Squeeze(w.clone()));
            if n <= 2 {
                v.push(Op::Expand(w));
            }
        }
    }
    if n > 2 {
        for k in 0..=2 {
            for w in words(&(-n - 3..=n + 2).collect::<Vec<_>>(), k) {
                v.push(Op::Expand(w));
            }
        }
    }
    for w in words(&alpha, 2) {
        v.push(Op::Swap(w[0], w[1]));
        for o in -4..=4 {
            v.push(Op::Diag(o, w[0], w[1]));
        }
    }
    for o in [isize::MAX, isize::MIN] {
        v.push(Op::Diag(o, 0, 1));
    }
    for k in (n - 1).max(0)..=n + 1 {
        if k <= 3 {
            for w in words(&(-n - 1..=n).collect::<Vec<_>>(), k as usize) {
                v.push(Op::Perm(w));
            }
        }
    }
    if n <= 3 {
        let small: Vec<isize> = (-n - 1..=n).collect();
        for a in 0..=2 {
            for b in 0..=2 {
                if a + b > 3 && n == 3 {
                    continue;
                }
                for w in words(&small, a + b) {
                    v.push(Op::Move(w[..a].to_vec(), w[a..].to_vec()));
                }
            }
        }
    }
    for s in shapes(0, (shape.len() + 1).min(3), &[0, 1, 2, 3]) {
        v.push(Op::Bcast(s));
    }
    v
}

fn model_args(m: &Nd<i64>, op: &Op) -> Option<Nd<i64>> {
    let n = m.ndim() as isize;
    let ok = |ax: &[isize], n: isize| {
        let mut a: Vec<isize> = ax.iter().map(|&x| if x < 0 { x + n } else { x }).collect();
        a.sort();
        let len = a.len();
        a.dedup();
        (a.len() == len && a.iter().all(|&x| x >= 0 && x < n)).then_some(a)
    };
    let fine = match op {
        Op::Flip(a) => ok(a, n).is_some(),
        Op::Squeeze(a) => ok(a, n).is_some_and(|a| a.iter().all(|&x| m.shape[x as usize] == 1)),
        Op::Expand(a) => ok(a, n + a.len() as isize).is_some(),
        Op::Swap(a, b) => ok(&[*a], n).is_some() && ok(&[*b], n).is_some(),
        Op::Diag(_, a, b) => ok(&[*a, *b], n).is_some(),
        Op::Perm(p) => p.len() as isize == n && ok(p, n).is_some(),
        Op::Move(s, d) => s.len() == d.len() && ok(s, n).is_some() && ok(d, n).is_some(),
        _ => true,
    };
    fine.then(|| model(m, op)).flatten()
}

fn take(m: &Nd<i64>, k: usize, ix: &[usize]) -> Nd<i64> {
    let mut s = m.shape.clone();
    s[k] = ix.len();
    let mut src = vec![0; m.ndim()];
    Nd::from_fn(&s, |i| {
        src.copy_from_slice(i);
        src[k] = ix[i[k]];
        *m.at(&src)
    })
}
fn drop_axis(m: &Nd<i64>, k: usize) -> Nd<i64> {
    let mut s = m.shape.clone();
    assert_eq!(s.remove(k), 1);
    Nd::new(&s, m.data.clone())
}
fn insert_axis(m: &Nd<i64>, k: usize) -> Nd<i64> {
    let mut s = m.shape.clone();
    s.insert(k, 1);
    Nd::new(&s, m.data.clone())
}
fn diag(m: &Nd<i64>, o: isize, a: usize, b: usize) -> Nd<i64> {
    let (da, db) = (m.shape[a] as isize, m.shape[b] as isize);
    let pairs: Vec<(usize, usize)> = (0..da).filter_map(|i| {
        let j = i.saturating_add(o);
        (0 <= j && j < db).then_some((i as usize, j as usize))
    }).collect();
    let rest: Vec<usize> = (0..m.ndim()).filter(|k| *k != a && *k != b).collect();
    let mut s: Vec<usize> = rest.iter().map(|k| m.shape[*k]).collect();
    s.push(pairs.len());
    let mut src = vec![0; m.ndim()];
    Nd::from_fn(&s, |i| {
        for (x, k) in rest.iter().enumerate() {
            src[*k] = i[x];
        }
        let (p, q) = pairs[i[rest.len()]];
        src[a] = p;
        src[b] = q;
        *m.at(&src)
    })
}

fn apply<'a>(v: V<'a>, op: &Op) -> Result<V<'a>, String> {
    let e = |x: rstsr_common::prelude_dev::Error| format!("{x:?}");
    match op {
        Op::Slice(k, a, b, c) => {
            let n = v.ndim();
            let mut ix = vec![Indexer::Slice(SliceI::new(None, None, None)); n];
            ix[*k] = Indexer::Slice(SliceI::new(*a, *b, *c));
            v.into_slice_f(AxesIndex::Vec(ix)).map_err(e)
        },
        Op::Select(k, i) => {
            let mut ix = vec![Indexer::Slice(SliceI::new(None, None, None)); *k];
            ix.push(Indexer::Select(*i));
            v.into_slice_f(AxesIndex::Vec(ix)).map_err(e)
        },
        Op::NewAxis(k) => {
            let mut ix = vec![Indexer::Slice(SliceI::new(None, None, None)); *k];
            ix.push(Indexer::Insert);
            v.into_slice_f(AxesIndex::Vec(ix)).map_err(e)
        },
        Op::Flip(ax) => v.into_flip_f(ax.clone()).map_err(e),
        Op::FlipAll => v.into_flip_f(None).map_err(e),
        Op::Perm(p) => v.into_transpose_f(p.clone()).map_err(e),
        Op::Rev => Ok(v.into_reverse_axes()),
        Op::Swap(a, b) => v.into_swapaxes_f(*a, *b).map_err(e),
        Op::Move(s, d) => v.into_moveaxis_f(s.clone(), d.clone()).map_err(e),
        Op::Expand(ax) => v.into_expand_dims_f(ax.clone()).map_err(e),
        Op::Squeeze(ax) => v.into_squeeze_f(ax.clone()).map_err(e),
        Op::Bcast(s) => v.into_broadcast_f(s.clone()).map_err(e),
        Op::Diag(o, a, b) => v.into_diagonal_f((*o, *a, *b)).map_err(e),
        Op::Mix(ix) => {
            let ix = ix.iter().map(|i| match i {
                MixI::S(a, b, c) => Indexer::Slice(SliceI::new(*a, *b, *c)),
                MixI::I(i) => Indexer::Select(*i),
                MixI::N => Indexer::Insert,
                MixI::E => Indexer::Ellipsis,
            }).collect();
            v.into_slice_f(AxesIndex::Vec(ix)).map_err(e)
        },
    }
}

/// properties of a single reached view that the user can observe
fn state_checks(v: &V, want: &Nd<i64>, raw: &[i64]) -> Result<(), String> {
    check_t(v, want)?;
    if v.size() != want.size() || v.ndim() != want.ndim() {
        return Err("size()/ndim() disagree with the shape".into());
    }
    // an owned copy of the view is always available and equal
    check_t(&v.to_owned(), want).map_err(|e| format!("to_owned: {e}"))?;
    check_t(&v.view().into_contig(ROW), want).map_err(|e| format!("into_contig: {e}"))?;
    let (lo, hi) = v.layout().bounds_index().map_err(|e| format!("bounds_index: {e:?}"))?;
    if hi > raw.len() && want.size() > 0 {
        return Err(format!("bounds {lo}..{hi} leave the buffer"));
    }
    // contiguity flags promise that the elements lie one after the other from the offset on
    if v.c_contig() && want.size() > 0 {
        let w: Vec<i64> = raw[v.offset()..v.offset() + want.size()].to_vec();
        if w != want.data {
            return Err("claims to be row-major contiguous, but the buffer order differs".into());
        }
    }
    if v.f_contig() && want.size() > 0 {
        let w: Vec<i64> = raw[v.offset()..v.offset() + want.size()].to_vec();
        if w != want.col_data() {
            return Err("claims to be column-major contiguous, but the buffer order differs".into());
        }
    }
    // element access by multi-index, positive and negative, and rejection just outside
    let mut bad = None;
    each_index(&want.shape, |i| {
        let pi: Vec<isize> = i.iter().map(|x| *x as isize).collect();
        let ni: Vec<isize> = i.iter().zip(&want.shape).map(|(x, d)| *x as isize - *d as isize).collect();
        if v[i] != *want.at(i) {
            bad.get_or_insert(format!("indexing {i:?} gives {} instead of {}", v[i], want.at(i)));
        }
        for ix in [pi, ni] {
            match v.layout().index_f(&ix) {
                Ok(p) if raw[p] == *want.at(i) => {},
                o => {
                    bad.get_or_insert(format!("index {ix:?} resolves to {o:?}"));
                },
            }
        }
    });
    if let Some(b) = bad {
        return Err(b);
    }
    for k in 0..want.ndim() {
        for out in [want.shape[k] as isize, -(want.shape[k] as isize) - 1] {
            if want.size() == 0 {
                continue;
            }
            let mut ix = vec![0isize; want.ndim()];
            ix[k] = out;
            if v.layout().index_f(&ix).is_ok() {
                return Err(format!("index {ix:?} is outside the shape but is accepted"));
            }
        }
    }
    let it: Vec<i64> = v.iter_with_order(TensorIterOrder::C).copied().collect();
    if it != want.data {
        return Err(format!("row-major iteration gives {it:?}"));
    }
    Ok(())
}

fn main() {
    fw::main("P01", |r| {
        let depth = r.pick(4, 5);
        let starts: Vec<Lay> = r.pick(
            vec![c_contig(&[2, 3]), f_contig(&[3, 2]), c_contig(&[4]), c_contig(&[]), c_contig(&[3, 3]), c_contig(&[2, 1, 3]), build(&[3, 2, 2], &[1, 2, 0], &[PAD, FLIP, STEP], 3, 2)],
            vec![c_contig(&[2, 3]), f_contig(&[3, 2]), c_contig(&[4]), c_contig(&[]), c_contig(&[3, 3]), c_contig(&[2, 1, 3]), c_contig(&[0, 2]), build(&[3, 2, 2], &[1, 2, 0], &[PAD, FLIP, STEP], 3, 2), f_contig(&[2, 3, 2])],
        );
        r.bound(format!("histories of at most {depth} view operations from {} starting layouts, result rank <= 4, every operation of the alphabet at every state", starts.len()));
        r.assume("element values are the distinct integers stored in the buffer; view operations do not depend on values or element type");
        let d = serial(true);
        // one step, every argument: valid, negative, repeated and out of range
        let mut items: Vec<Lay> = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]).into_iter().chain(shapes(4, 4, &[1, 2])) {
            items.push(c_contig(&s));
            if s.len() >= 2 {
                let p: Vec<usize> = (0..s.len()).rev().collect();
                items.push(build(&s, &p, &vec![FLIP; s.len()], 2, 1));
            }
            if r.thorough() && s.len() <= 3 {
                items.extend(layouts_dev(&s, &ALL_KINDS, 1));
            }
        }
        r.par("arguments", &items, |cx, l| {
            cx.state(l);
            let raw = raw_i64(l.len, 100);
            let m = l.nd(&raw);
            let t = tensor(raw.clone(), l, &d);
            cx.case(format_args!("arguments {l:?}"), || {
                let mut some = Out::Rej;
                for op in all_args(&l.shape) {
                    let want = model_args(&m, &op);
                    let got = call(|| apply(t.view(), &op)).map_err(|p| format!("{op:?}: panicked: {p}"))?;
                    match (got, &want) {
                        (Err(_), None) => {},
                        (Ok(v), None) => return Err(format!("{op:?}: accepted, giving shape {:?}, but must be rejected", v.shape())),
                        (Err(e), Some(w)) => return Err(format!("{op:?}: rejected ({e}) but defined: {w:?}")),
                        (Ok(v), Some(w)) => {
                            state_checks(&v, w, &raw).map_err(|e| format!("{op:?}: {e}"))?;
                            some = Out::Val;
                        },
                    }
                }
                Ok(some)
            });
        });
        r.bound(format!("single operations with every argument (valid or not): {} layouts of rank 0..=4; axis lists of length 0..=3 over -rank-2..=rank+1 for flip, squeeze and expand_dims, all axis pairs for swapaxes, all words of length rank (and rank +- 1) for transpose, all moveaxis source/destination lists of length <= 2, all diagonals, all broadcast targets of rank <= rank+1", items.len()));
        for (si, st) in starts.iter().enumerate() {
            let raw = raw_i64(st.len, 100);
            let mut seen: HashMap<(Vec<usize>, Vec<isize>, usize), ()> = HashMap::new();
            let mut frontier: Vec<(Lay, String)> = vec![(st.clone(), String::new())];
            seen.insert((st.shape.clone(), st.stride.clone(), st.offset), ());
            for level in 0..depth {
                let rich = level == 0;
                let next = std::sync::Mutex::new(Vec::new());
                let fam = format!("start{si}-level{}", level + 1);
                let chunks: Vec<&[(Lay, String)]> = frontier.chunks(64).collect();
                let stop_rank = 4;
                r.par(&fam, &chunks, |cx, chunk| {
                    let mut local = vec![];
                    for (l, hist) in chunk.iter() {
                        cx.state(l);
                        let m = l.nd(&raw);
                        let t = tensor(raw.clone(), l, &d);
                        for op in ops(&l.shape, rich) {
                            let want = model(&m, &op);
                            let mut reached = None;
                            cx.case(format_args!("{l:?}|{hist}{op:?}"), || {
                                let got = apply(t.view(), &op);
                                match (got, &want) {
                                    (Err(_), None) => Ok(Out::Rej),
                                    (Ok(v), None) => Err(format!("accepted, giving shape {:?}, but must be rejected", v.shape())),
                                    (Err(e), Some(w)) => Err(format!("rejected ({e}) but defined: {w:?}")),
                                    (Ok(v), Some(w)) => {
                                        state_checks(&v, w, &raw)?;
                                        reached = Some(lay_of(v.layout(), raw.len()));
                                        Ok(Out::Val)
                                    },
                                }
                            });
                            if let (Some(n), true) = (reached, level + 1 < depth) {
                                if n.ndim() <= stop_rank && n.size() <= 200 {
                                    local.push((n, format!("{hist}{op:?};")));
                                }
                            }
                        }
                    }
                    next.lock().unwrap().append(&mut local);
                });
                let mut nf = vec![];
                let mut all = next.into_inner().unwrap();
                all.sort_by(|a, b| (a.1.len(), &a.1).cmp(&(b.1.len(), &b.1)));
                for (l, h) in all {
                    if seen.insert((l.shape.clone(), l.stride.clone(), l.offset), ()).is_none() {
                        nf.push((l, h));
                    }
                }
                frontier = nf;
            }
        }
    })
}
