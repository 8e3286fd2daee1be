//! P02: basic indexing. Every (length, start, stop, step) on one axis, and every indexer list up to a
//! length, against Python's rules evaluated on the reference array.
use core_mc::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum I {
    S(Option<isize>, Option<isize>, Option<isize>),
    X(isize),
    N,
    E,
}

fn real(i: &I) -> Indexer {
    match *i {
        I::S(a, b, c) => Indexer::Slice(SliceI::new(a, b, c)),
        I::X(x) => Indexer::Select(x),
        I::N => Indexer::Insert,
        I::E => Indexer::Ellipsis,
    }
}

fn model(m: &Nd<i64>, ix: &[I]) -> Option<Nd<i64>> {
    let n = m.ndim();
    let used = ix.iter().filter(|x| matches!(x, I::S(..) | I::X(_))).count();
    if used > n || ix.iter().filter(|x| **x == I::E).count() > 1 {
        return None;
    }
    let full = I::S(None, None, None);
    let mut v: Vec<I> = vec![];
    for i in ix {
        if *i == I::E {
            v.extend(vec![full; n - used]);
        } else {
            v.push(*i);
        }
    }
    if !ix.contains(&I::E) {
        v.extend(vec![full; n - used]);
    }
    // source positions per input axis, and output axes
    let mut src: Vec<Vec<usize>> = vec![];
    let mut out: Vec<Option<usize>> = vec![]; // Some(input axis) or None for a new axis
    for i in &v {
        match *i {
            I::S(a, b, c) => {
                out.push(Some(src.len()));
                src.push(py_slice(m.shape[src.len()], a, b, c)?);
            },
            I::X(x) => {
                let d = m.shape[src.len()] as isize;
                let y = if x < 0 { x + d } else { x };
                if y < 0 || y >= d {
                    return None;
                }
                src.push(vec![y as usize]);
            },
            I::N => out.push(None),
            I::E => unreachable!(),
        }
    }
    let shape: Vec<usize> = out.iter().map(|o| o.map_or(1, |k| src[k].len())).collect();
    let mut at = vec![0; n];
    for k in 0..n {
        if let Some(p) = src[k].first() {
            at[k] = *p;
        }
    }
    Some(Nd::from_fn(&shape, |i| {
        for (q, o) in out.iter().enumerate() {
            if let Some(k) = o {
                at[*k] = src[*k][i[q]];
            }
        }
        *m.at(&at)
    }))
}

fn run(cx: &mut Cx, l: &Lay, ix: &[I]) {
    let raw = raw_i64(l.len, 10);
    let m = l.nd(&raw);
    let want = model(&m, ix);
    let idx = || AxesIndex::Vec(ix.iter().map(real).collect::<Vec<Indexer>>());
    cx.state(&(l, format!("{ix:?}")));
    cx.case(format_args!("{l:?}|{ix:?}"), || {
        let mut t = tensor(raw.clone(), l, &serial(true));
        let a = expect(t.i_f(idx()), want.as_ref())?;
        expect(t.slice_f(idx()), want.as_ref()).map_err(|e| format!("slice: {e}"))?;
        expect(t.view().into_slice_f(idx()), want.as_ref()).map_err(|e| format!("into_slice of a view: {e}"))?;
        match (t.slice_mut_f(idx()), &want) {
            (Ok(v), Some(w)) => check_t(&v, w).map_err(|e| format!("slice_mut: {e}"))?,
            (Err(_), None) => {},
            _ => return Err("slice_mut disagrees with slice about validity".into()),
        }
        expect(t.into_slice_f(idx()), want.as_ref()).map_err(|e| format!("into_slice: {e}"))?;
        Ok(a)
    });
}

fn main() {
    fw::main("P02", |r| {
        let maxlen = r.pick(5, 7);
        let lim = maxlen as isize + 3;
        let opt = |lo: isize, hi: isize| -> Vec<Option<isize>> { std::iter::once(None).chain((lo..=hi).map(Some)).collect() };
        r.bound(format!("one axis of length 0..={maxlen}: all start/stop in [-{lim},{lim}] or absent, step in [-{0},{0}] or absent, as the first, middle and last axis over plain, reversed and stepped memory", r.pick(3, 5)));
        r.assume("slicing does not depend on element values; distinct values identify elements");
        let mut items: Vec<Lay> = vec![];
        for n in 0..=maxlen {
            for k in [PLAIN, FLIP, STEP] {
                items.push(build(&[n], &[0], &[k], 2, 1));
                items.push(build(&[2, n], &[1, 0], &[PLAIN, k], 0, 0));
                items.push(build(&[n, 2], &[1, 0], &[k, FLIP], 1, 0));
            }
        }
        let steps = opt(-(r.pick(3, 5)), r.pick(3, 5));
        r.par("one-axis", &items, |cx, l| {
            let ax = (0..l.ndim()).max_by_key(|k| if l.ndim() == 2 && l.shape[*k] == 2 && l.shape[1 - *k] != 2 { 0 } else { 1 + *k }).unwrap();
            for a in opt(-lim, lim) {
                for b in opt(-lim, lim) {
                    for c in &steps {
                        let mut ix = vec![I::S(None, None, None); ax];
                        ix.push(I::S(a, b, *c));
                        run(cx, l, &ix);
                    }
                }
            }
            for x in -lim..=lim {
                let mut ix = vec![I::S(None, None, None); ax];
                ix.push(I::X(x));
                run(cx, l, &ix);
            }
        });
        let alpha = [
            I::S(None, None, None), I::S(Some(1), None, None), I::S(None, Some(-1), None), I::S(None, None, Some(-1)),
            I::S(Some(0), Some(3), Some(2)), I::S(Some(1), Some(1), None), I::X(0), I::X(-1), I::X(2), I::N, I::E,
        ];
        let maxix = r.pick(4, 5);
        r.bound(format!("every list of at most {maxix} indexers from an alphabet of {} (slices, integers in and out of range, new axes, ellipsis)", alpha.len()));
        let mut items: Vec<(Lay, Vec<I>)> = vec![];
        for shape in r.pick(vec![vec![], vec![3], vec![2, 3], vec![3, 1, 2]], vec![vec![], vec![3], vec![2, 3], vec![3, 1, 2], vec![2, 3, 0], vec![2, 2, 2, 2]]) {
            for l in [c_contig(&shape), build(&shape, &(0..shape.len()).collect::<Vec<_>>(), &vec![FLIPSTEP; shape.len()], 1, 1)] {
                for n in 0..=1 {
                    for w in words(&alpha, n) {
                        items.push((l.clone(), w));
                    }
                }
            }
        }
        r.par("indexer-lists", &items, |cx, (l, pre)| {
            if pre.is_empty() {
                return run(cx, l, &[]);
            }
            for n in 0..maxix {
                for w in words(&alpha, n) {
                    let mut ix = pre.clone();
                    ix.extend(w);
                    run(cx, l, &ix);
                }
            }
        });
        // the index notations of the public API all denote the same selection
        let ls: Vec<Lay> = layouts_full(&[3, 4], &[PLAIN, FLIP, STEP]);
        r.par("notations", &ls, |cx, l| {
            let raw = raw_i64(l.len, 10);
            let m = l.nd(&raw);
            cx.state(l);
            macro_rules! n {
                ($e:expr, $ix:expr) => {
                    cx.case(format_args!("{l:?}|{}", stringify!($e)), || {
                        let t = tensor(raw.clone(), l, &serial(true));
                        expect(t.i_f($e), model(&m, &$ix).as_ref())
                    });
                };
            }
            let s = |a: isize, b: isize| I::S(Some(a), Some(b), None);
            n!(1, [I::X(1)]);
            n!(-1, [I::X(-1)]);
            n!(2usize, [I::X(2)]);
            n!(1..3, [s(1, 3)]);
            n!(0..2usize, [s(0, 2)]);
            n!(1.., [I::S(Some(1), None, None)]);
            n!(..2, [I::S(None, Some(2), None)]);
            n!(.., [I::S(None, None, None)]);
            n!(None, [I::N]);
            n!([1, 2], [I::X(1), I::X(2)]);
            n!((1, 2), [I::X(1), I::X(2)]);
            n!((1.., -1), [I::S(Some(1), None, None), I::X(-1)]);
            n!((.., 1..3), [I::S(None, None, None), s(1, 3)]);
            n!((None, 1, ..), [I::N, I::X(1), I::S(None, None, None)]);
            n!((Ellipsis, 1), [I::E, I::X(1)]);
            n!((1, Ellipsis), [I::X(1), I::E]);
            n!((.., None, 2), [I::S(None, None, None), I::N, I::X(2)]);
            n!(slice!(None, None, -1), [I::S(None, None, Some(-1))]);
            n!(slice!(1, 3), [s(1, 3)]);
            n!(slice!(2), [I::S(None, Some(2), None)]);
            n!((slice!(-1, 0, -1), slice!(0, 4, 2)), [I::S(Some(-1), Some(0), Some(-1)), I::S(Some(0), Some(4), Some(2))]);
            n!((1, 2, 3), [I::X(1), I::X(2), I::X(3)]);
        });
    })
}
