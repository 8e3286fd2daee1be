//! P12: iterators visit every element exactly once, from both ends, in the documented order.
use core_mc::*;
use rstsr_common::prelude_dev::{IndexedIterLayout, IterLayout, IterLayoutColMajor, IterLayoutRowMajor, IterSplitAtAPI, Ix1, Ix2, Ix3, Ix4, Ix5, Ix6};
use std::collections::VecDeque;
use std::fmt::Debug;
use rayon::prelude::*;

const ORDERS: [TensorIterOrder; 5] = [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K, TensorIterOrder::G];

/// Words of front / back calls: all of them up to 6 elements, switching patterns beyond.
fn words_for(n: usize) -> Vec<Vec<bool>> {
    if n <= 6 { return words(&[true, false], n) }
    let mut v = vec![];
    for k in [0, 1, 2, n / 2, n - 1, n] { v.push((0..n).map(|i| i < k).collect()); v.push((0..n).map(|i| i >= k).collect()); }
    v.push((0..n).map(|i| i % 2 == 0).collect());
    v.push((0..n).map(|i| i % 3 == 0).collect());
    v
}

fn step<X: PartialEq + Debug, I: DoubleEndedIterator<Item = X> + ExactSizeIterator>(it: &mut I, dq: &mut VecDeque<X>, front: bool, at: &dyn Debug) -> Result<(), String> {
    if it.len() != dq.len() { return Err(format!("len() is {} where {} remain (after {at:?})", it.len(), dq.len())) }
    if it.size_hint() != (dq.len(), Some(dq.len())) { return Err(format!("size_hint() is {:?} where {} remain (after {at:?})", it.size_hint(), dq.len())) }
    let (g, w) = if front { (it.next(), dq.pop_front()) } else { (it.next_back(), dq.pop_back()) };
    if g != w { return Err(format!("{} gave {g:?}, expected {w:?} (calls {at:?})", if front { "next" } else { "next_back" })) }
    Ok(())
}

/// Every word of calls from both ends; then every split into two and three parts, each consumed from both ends.
fn explore<X: PartialEq + Debug + Clone, I: DoubleEndedIterator<Item = X> + ExactSizeIterator + IterSplitAtAPI>(what: &str, want: &[X], mk: &mut dyn FnMut() -> Result<I, String>) -> Result<(), String> {
    let n = want.len();
    let run = |mut it: I, mut dq: VecDeque<X>, w: &[bool]| -> Result<(), String> {
        for (k, &f) in w.iter().enumerate() { step(&mut it, &mut dq, f, &&w[..=k])? }
        for f in [true, false, true] { step(&mut it, &mut dq, f, &"exhausted")? }
        Ok(())
    };
    for w in words_for(n) { run(mk()?, want.iter().cloned().collect(), &w).map_err(|e| format!("{what}: {e}"))? }
    for i in 0..=n {
        if n > 12 && i > 3 && i + 3 < n && i != n / 2 { continue }
        for (wl, wr) in [(true, true), (false, false)] {
            let (l, r) = mk()?.split_at(i);
            run(l, want[..i].iter().cloned().collect(), &vec![wl; i]).map_err(|e| format!("{what}: left of split {i}: {e}"))?;
            run(r, want[i..].iter().cloned().collect(), &vec![wr; n - i]).map_err(|e| format!("{what}: right of split {i}: {e}"))?;
        }
        // split again, and split after having taken one element from either end
        for j in 0..=n - i {
            if n > 8 && j % 3 != 0 { continue }
            let (_, r) = mk()?.split_at(i);
            let (m, r) = r.split_at(j);
            run(m, want[i..i + j].iter().cloned().collect(), &(0..j).map(|k| k % 2 == 0).collect::<Vec<_>>()).map_err(|e| format!("{what}: middle of splits {i}, {j}: {e}"))?;
            run(r, want[i + j..].iter().cloned().collect(), &(0..n - i - j).map(|k| k % 2 == 1).collect::<Vec<_>>()).map_err(|e| format!("{what}: end of splits {i}, {j}: {e}"))?;
        }
        if n >= 2 && i <= n - 2 {
            let mut it = mk()?;
            it.next();
            it.next_back();
            let (l, r) = it.split_at(i);
            run(l, want[1..1 + i].iter().cloned().collect(), &vec![false; i]).map_err(|e| format!("{what}: left of split {i} after both ends: {e}"))?;
            run(r, want[1 + i..n - 1].iter().cloned().collect(), &vec![true; n - 2 - i]).map_err(|e| format!("{what}: right of split {i} after both ends: {e}"))?;
        }
    }
    Ok(())
}

/// Indices in the order in which C / F iteration visits them.
fn idx_order(shape: &[usize], c: bool) -> Vec<Vec<usize>> {
    let mut v = vec![];
    if c { each_index(shape, |i| v.push(i.to_vec())) } else { each_index_col(shape, |i| v.push(i.to_vec())) }
    v
}

/// K and G choose their own order: each position as often as the array shows it, whatever the order; the
/// order is learned from one forward pass and all other uses must agree with it.
fn learn<X: PartialEq + Debug + Clone + Ord>(what: &str, got: Vec<X>, want: &[X]) -> Result<Vec<X>, String> {
    let (mut a, mut b) = (got.clone(), want.to_vec());
    a.sort();
    b.sort();
    if a == b { Ok(got) } else { Err(format!("{what}: visits {got:?}, the elements are {want:?}")) }
}

fn layouts_iter<D>(l: &Lay) -> Result<(), String>
where
    D: rstsr_common::prelude_dev::DimDevAPI,
    IxD: rstsr_common::prelude_dev::DimIntoAPI<D>,
{
    let lay = layout(l).into_dim::<D>().map_err(|e| format!("{e:?}"))?;
    let ci: Vec<Vec<usize>> = idx_order(&l.shape, true);
    let fi: Vec<Vec<usize>> = idx_order(&l.shape, false);
    let c: Vec<usize> = ci.iter().map(|i| l.at(i)).collect();
    let f: Vec<usize> = fi.iter().map(|i| l.at(i)).collect();
    let e = |e: rstsr_common::prelude_dev::Error| format!("{e:?}");
    explore("IterLayoutRowMajor", &c, &mut || IterLayoutRowMajor::new(&lay).map_err(e))?;
    explore("IterLayoutColMajor", &f, &mut || IterLayoutColMajor::new(&lay).map_err(e))?;
    for o in ORDERS {
        let what = format!("IterLayout {o:?}");
        let want = match o {
            TensorIterOrder::C => c.clone(),
            TensorIterOrder::F => f.clone(),
            _ => learn(&what, IterLayout::new(&lay, o).map_err(e)?.collect(), &c)?,
        };
        explore(&what, &want, &mut || IterLayout::new(&lay, o).map_err(e))?;
    }
    for row in [true, false] {
        let (ii, pp) = if row { (&ci, &c) } else { (&fi, &f) };
        let want: Vec<(Vec<usize>, usize)> = ii.iter().cloned().zip(pp.iter().cloned()).collect();
        let o = if row { ROW } else { COL };
        explore("IndexedIterLayout", &want, &mut || IndexedIterLayout::new(&lay, o).map(Plain).map_err(e))?;
    }
    Ok(())
}

/// (D, x) items turned into (Vec<usize>, x) items, leaving everything else alone
struct Plain<I>(I);
impl<D: AsRef<[usize]>, X, I: Iterator<Item = (D, X)>> Iterator for Plain<I> {
    type Item = (Vec<usize>, X);
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|(d, x)| (d.as_ref().to_vec(), x)) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<D: AsRef<[usize]>, X, I: DoubleEndedIterator<Item = (D, X)>> DoubleEndedIterator for Plain<I> {
    fn next_back(&mut self) -> Option<Self::Item> { self.0.next_back().map(|(d, x)| (d.as_ref().to_vec(), x)) }
}
impl<D: AsRef<[usize]>, X, I: ExactSizeIterator<Item = (D, X)>> ExactSizeIterator for Plain<I> {
    fn len(&self) -> usize { self.0.len() }
}
impl<I: IterSplitAtAPI> IterSplitAtAPI for Plain<I> {
    fn split_at(self, i: usize) -> (Self, Self) { let (a, b) = self.0.split_at(i); (Plain(a), Plain(b)) }
}

/// items read to a comparable value as soon as they are handed out
struct Read<I, F>(I, F);
impl<X, Y, I: Iterator<Item = X>, F: Fn(X) -> Y> Iterator for Read<I, F> {
    type Item = Y;
    fn next(&mut self) -> Option<Y> { self.0.next().map(&self.1) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<X, Y, I: DoubleEndedIterator<Item = X>, F: Fn(X) -> Y> DoubleEndedIterator for Read<I, F> {
    fn next_back(&mut self) -> Option<Y> { self.0.next_back().map(&self.1) }
}
impl<X, Y, I: ExactSizeIterator<Item = X>, F: Fn(X) -> Y> ExactSizeIterator for Read<I, F> {
    fn len(&self) -> usize { self.0.len() }
}
impl<I: IterSplitAtAPI, F: Clone> IterSplitAtAPI for Read<I, F> {
    fn split_at(self, i: usize) -> (Self, Self) { let (a, b) = self.0.split_at(i); (Read(a, self.1.clone()), Read(b, self.1)) }
}

fn e2<E: Debug>(e: E) -> String { format!("{e:?}") }

macro_rules! element_iters {
    ($fname:ident, $dev:ty) => {
        fn $fname(l: &Lay, row: bool, d: $dev) -> Result<(), String> {
            let raw = raw_i64(l.len, 100);
            let t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
            let ci: Vec<Vec<usize>> = idx_order(&l.shape, true);
            let fi: Vec<Vec<usize>> = idx_order(&l.shape, false);
            let val = |v: &Vec<Vec<usize>>| -> Vec<i64> { v.iter().map(|i| raw[l.at(i)]).collect() };
            let (c, f) = (val(&ci), val(&fi));
            let dflt = if row { &c } else { &f };
            explore("iter", dflt, &mut || t.iter_f().map(|i| Read(i, |x: &i64| *x)).map_err(e2))?;
            for o in ORDERS {
                let what = format!("iter {o:?}");
                let want = match o { TensorIterOrder::C => c.clone(), TensorIterOrder::F => f.clone(), _ => learn(&what, t.iter_with_order(o).cloned().collect(), &c)? };
                explore(&what, &want, &mut || t.iter_with_order_f(o).map(|i| Read(i, |x: &i64| *x)).map_err(e2))?;
            }
            if l.size() > 0 && t.indexed_iter_with_order_f(TensorIterOrder::K).is_ok() { return Err("indexed_iter_with_order accepts K, whose indices it cannot know".into()) }
            for (o, ii, vv) in [(None, if row { &ci } else { &fi }, dflt), (Some(TensorIterOrder::C), &ci, &c), (Some(TensorIterOrder::F), &fi, &f)] {
                let want: Vec<(Vec<usize>, i64)> = ii.iter().cloned().zip(vv.iter().cloned()).collect();
                explore(&format!("indexed_iter {o:?}"), &want, &mut || match o { None => t.indexed_iter_f(), Some(o) => t.indexed_iter_with_order_f(o) }.map(|i| Read(Plain(i), |(i, x): (Vec<usize>, &i64)| (i, *x))).map_err(e2))?;
            }
            // mutable: write what each item says, so that an element visited twice or not at all shows
            if !l.has_bcast() {
                for (name, o, w) in [("iter_mut", None, dflt), ("iter_mut C", Some(TensorIterOrder::C), &c), ("iter_mut F", Some(TensorIterOrder::F), &f)] {
                    let n = w.len();
                    for w2 in words_for(n) {
                        let mut t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                        {
                            let mut it = match o { None => t.iter_mut_f(), Some(o) => t.iter_mut_with_order_f(o) }.map_err(e2)?;
                            let mut dq: VecDeque<i64> = w.iter().cloned().collect();
                            for &fr in &w2 {
                                if it.len() != dq.len() || it.size_hint() != (dq.len(), Some(dq.len())) { return Err(format!("{name}: len() {} size_hint {:?} where {} remain", it.len(), it.size_hint(), dq.len())) }
                                let (g, e) = if fr { (it.next(), dq.pop_front()) } else { (it.next_back(), dq.pop_back()) };
                                match (g, e) { (Some(g), Some(e)) if *g == e => *g += 1000, (g, e) => return Err(format!("{name}: gave {g:?}, expected {e:?} (calls {w2:?})")) }
                            }
                            if it.next().is_some() || it.next_back().is_some() { return Err(format!("{name}: more items than elements")) }
                        }
                        let pos: std::collections::HashSet<usize> = l.positions().into_iter().collect();
                        for (p, x) in t.raw().iter().enumerate() { if *x != raw[p] + if pos.contains(&p) { 1000 } else { 0 } { return Err(format!("{name}: buffer position {p} holds {x} afterwards")) } }
                    }
                    for i in 0..=n {
                        let mut t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                        let (a, b) = match o { None => t.iter_mut_f(), Some(o) => t.iter_mut_with_order_f(o) }.map_err(e2)?.split_at(i);
                        let g: Vec<i64> = a.map(|x| { *x += 1000; *x - 1000 }).chain(b.rev().map(|x| { *x += 1000; *x - 1000 }).collect::<Vec<_>>().into_iter().rev()).collect();
                        if g != *w { return Err(format!("{name}: split at {i} gave {g:?}, expected {w:?}")) }
                    }
                }
                for (o, ii, vv) in [(None, if row { &ci } else { &fi }, dflt), (Some(TensorIterOrder::C), &ci, &c), (Some(TensorIterOrder::F), &fi, &f)] {
                    let n = vv.len();
                    for w2 in words_for(n) {
                        let mut t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                        let mut it = match o { None => t.indexed_iter_mut_f(), Some(o) => t.indexed_iter_mut_with_order_f(o) }.map_err(e2)?;
                        let mut dq: VecDeque<(&Vec<usize>, i64)> = ii.iter().zip(vv.iter().cloned()).collect();
                        for &fr in &w2 {
                            if it.size_hint() != (dq.len(), Some(dq.len())) { return Err(format!("indexed_iter_mut: size_hint {:?} where {} remain", it.size_hint(), dq.len())) }
                            let (g, e) = if fr { (it.next(), dq.pop_front()) } else { (it.next_back(), dq.pop_back()) };
                            match (g, e) { (Some((i, x)), Some((j, y))) if i == *j && *x == y => *x = 0, (g, e) => return Err(format!("indexed_iter_mut {o:?}: gave {g:?}, expected {e:?} (calls {w2:?})")) }
                        }
                    }
                }
            }
            // parallel iteration hands out the same items in the same order
            let g: Vec<i64> = t.iter().into_par_iter().map(|x| *x).collect();
            if g != *dflt { return Err(format!("par iter: {g:?}, expected {dflt:?}")) }
            let g: Vec<(Vec<usize>, i64)> = t.indexed_iter().into_par_iter().map(|(i, x)| (i.to_vec(), *x)).collect();
            let want: Vec<(Vec<usize>, i64)> = if row { &ci } else { &fi }.iter().cloned().zip(dflt.iter().cloned()).collect();
            if g != want { return Err(format!("par indexed iter: {g:?}, expected {want:?}")) }
            let g: Vec<i64> = t.iter().into_par_iter().rev().map(|x| *x).collect();
            let w: Vec<i64> = dflt.iter().rev().cloned().collect();
            if g != w { return Err(format!("par iter reversed: {g:?}, expected {w:?}")) }
            if !l.has_bcast() {
                let mut t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                t.iter_mut().into_par_iter().for_each(|x| *x += 1000);
                let pos: std::collections::HashSet<usize> = l.positions().into_iter().collect();
                for (p, x) in t.raw().iter().enumerate() { if *x != raw[p] + if pos.contains(&p) { 1000 } else { 0 } { return Err(format!("par iter_mut: buffer position {p} holds {x} afterwards")) } }
            }
            Ok(())
        }
    };
}
element_iters!(elem_s, DeviceCpuSerial);
element_iters!(elem_f, DeviceFaer);

fn norm(axes: &[isize], nd: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    for &a in axes {
        let a = if a < 0 { a + nd as isize } else { a };
        if a < 0 || a >= nd as isize || v.contains(&(a as usize)) { return None }
        v.push(a as usize);
    }
    Some(v)
}

macro_rules! axes_iters {
    ($fname:ident, $dev:ty) => {
        fn $fname(l: &Lay, axes: &[isize], row: bool, d: $dev) -> Res {
            let raw = raw_i64(l.len, 100);
            let t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
            let m = l.nd(&raw);
            let Some(ax) = norm(axes, l.ndim()) else {
                if t.axes_iter_f(axes.to_vec()).is_ok() || t.indexed_axes_iter_f(axes.to_vec()).is_ok() { return Err(format!("accepted axes {axes:?}")) }
                let mut t2: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                if t2.axes_iter_mut_f(axes.to_vec()).is_ok() { return Err(format!("axes_iter_mut accepted axes {axes:?}")) }
                let mut t2: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                if t2.indexed_axes_iter_mut_f(axes.to_vec()).is_ok() { return Err(format!("indexed_axes_iter_mut accepted axes {axes:?}")) }
                return Ok(Out::Rej);
            };
            let rest: Vec<usize> = (0..l.ndim()).filter(|i| !ax.contains(i)).collect();
            let ashape: Vec<usize> = ax.iter().map(|&i| l.shape[i]).collect();
            let rshape: Vec<usize> = rest.iter().map(|&i| l.shape[i]).collect();
            let sub = |ai: &Vec<usize>| -> Nd<i64> {
                Nd::from_fn(&rshape, |ri| {
                    let mut full = vec![0; l.ndim()];
                    for (k, &a) in ax.iter().enumerate() { full[a] = ai[k] }
                    for (k, &a) in rest.iter().enumerate() { full[a] = ri[k] }
                    *m.at(&full)
                })
            };
            let (ci, fi) = (idx_order(&ashape, true), idx_order(&ashape, false));
            type It = (Vec<usize>, Vec<i64>);
            let items = |v: &Vec<Vec<usize>>| -> Vec<It> { v.iter().map(|i| { let s = sub(i); (s.shape, s.data) }).collect() };
            let (c, f) = (items(&ci), items(&fi));
            fn rd<R: DataAPI<Data = Vec<i64>>>(t: TensorAny<R, i64, $dev, IxD>) -> It { match logical(&t) { Ok(n) => (n.shape, n.data), Err(e) => panic!("{e}") } }
            for o in ORDERS {
                let what = format!("axes_iter {o:?}");
                let want = match o { TensorIterOrder::C => c.clone(), TensorIterOrder::F => f.clone(), _ => learn(&what, t.axes_iter_with_order_f(axes.to_vec(), o).map_err(e2)?.map(rd).collect(), &c)? };
                explore(&what, &want, &mut || t.axes_iter_with_order_f(axes.to_vec(), o).map(|i| Read(i, |v: TensorView<'_, i64, $dev, IxD>| rd(v))).map_err(e2))?;
            }
            learn("axes_iter", t.axes_iter_f(axes.to_vec()).map_err(e2)?.map(rd).collect(), &c)?;
            for (o, ii, vv) in [(None, if row { &ci } else { &fi }, if row { &c } else { &f }), (Some(TensorIterOrder::C), &ci, &c), (Some(TensorIterOrder::F), &fi, &f)] {
                let want: Vec<(Vec<usize>, It)> = ii.iter().cloned().zip(vv.iter().cloned()).collect();
                explore(&format!("indexed_axes_iter {o:?}"), &want, &mut || match o { None => t.indexed_axes_iter_f(axes.to_vec()), Some(o) => t.indexed_axes_iter_with_order_f(axes.to_vec(), o) }.map(|i| Read(Plain(i), |(i, v): (Vec<usize>, TensorView<'_, i64, $dev, IxD>)| (i, rd(v)))).map_err(e2))?;
            }
            if !l.has_bcast() {
                for (o, ii, vv) in [(None, if row { &ci } else { &fi }, if row { &c } else { &f }), (Some(TensorIterOrder::C), &ci, &c), (Some(TensorIterOrder::F), &fi, &f)] {
                    for w2 in words_for(vv.len()) {
                        let mut t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                        {
                            let mut dq: VecDeque<(&Vec<usize>, &It)> = ii.iter().zip(vv).collect();
                            let mut it = match o { None => t.indexed_axes_iter_mut_f(axes.to_vec()), Some(o) => t.indexed_axes_iter_mut_with_order_f(axes.to_vec(), o) }.map_err(e2)?;
                            for &fr in &w2 {
                                if it.len() != dq.len() || it.size_hint() != (dq.len(), Some(dq.len())) { return Err(format!("indexed_axes_iter_mut: len {} size_hint {:?} where {} remain", it.len(), it.size_hint(), dq.len())) }
                                let (g, e) = if fr { (it.next(), dq.pop_front()) } else { (it.next_back(), dq.pop_back()) };
                                let (Some((gi, mut gv)), Some((ei, ev))) = (g, e) else { return Err("indexed_axes_iter_mut: ends early".into()) };
                                let n = logical(&gv)?;
                                if (&gi, (&n.shape, &n.data)) != (ei, (&ev.0, &ev.1)) { return Err(format!("indexed_axes_iter_mut {o:?}: gave {gi:?} {n:?}, expected {ei:?} {ev:?} (calls {w2:?})")) }
                                let lg = lay_of(gv.layout(), l.len);
                                for p in lg.positions() { gv.raw_mut()[p] += 1000 }
                            }
                            if it.next().is_some() { return Err("indexed_axes_iter_mut: more items than positions".into()) }
                        }
                        let pos: std::collections::HashSet<usize> = l.positions().into_iter().collect();
                        for (p, x) in t.raw().iter().enumerate() { if *x != raw[p] + if pos.contains(&p) { 1000 } else { 0 } { return Err(format!("indexed_axes_iter_mut: buffer position {p} holds {x} afterwards")) } }
                    }
                }
                for o in ORDERS {
                    let mut t: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                    let g = { let mut v: Vec<It> = vec![]; for x in t.axes_iter_mut_with_order_f(axes.to_vec(), o).map_err(e2)? { v.push(rd(x)) } v };
                    match o { TensorIterOrder::C => if g != c { return Err(format!("axes_iter_mut C: {g:?}, expected {c:?}")) }, TensorIterOrder::F => if g != f { return Err(format!("axes_iter_mut F: {g:?}, expected {f:?}")) }, _ => { learn("axes_iter_mut", g.clone(), &c)?; } }
                    let mut t2: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                    let mut b = vec![];
                    { let mut it = t2.axes_iter_mut_with_order_f(axes.to_vec(), o).map_err(e2)?; if it.size_hint() != (g.len(), Some(g.len())) { return Err(format!("axes_iter_mut: size_hint {:?} for {}", it.size_hint(), g.len())) } while let Some(x) = it.next_back() { b.push(rd(x)) } }
                    b.reverse();
                    if b != g { return Err(format!("axes_iter_mut {o:?} backwards: {b:?}, forwards {g:?}")) }
                    // an order whose indices are not those of the array must not be offered with indices
                    let mut t3: Tensor<i64, $dev, IxD> = tensor(raw.clone(), l, &d);
                    if let Ok(it) = t3.indexed_axes_iter_mut_with_order_f(axes.to_vec(), o) {
                        for (i, v) in it { let v = rd(v); if i.len() != ashape.len() || i.iter().zip(&ashape).any(|(a, b)| a >= b) || { let s = sub(&i); (s.shape, s.data) != v } { return Err(format!("indexed_axes_iter_mut {o:?}: {v:?} is not what index {i:?} shows")) } }
                    }
                }
            }
            let g: Vec<It> = t.axes_iter_with_order(axes.to_vec(), TensorIterOrder::C).into_par_iter().map(rd).collect();
            if g != c { return Err(format!("par axes_iter: {g:?}, expected {c:?}")) }
            let g: Vec<(Vec<usize>, It)> = t.indexed_axes_iter_with_order(axes.to_vec(), TensorIterOrder::F).into_par_iter().map(|(i, v)| (i.to_vec(), rd(v))).collect();
            let w: Vec<(Vec<usize>, It)> = fi.iter().cloned().zip(f.iter().cloned()).collect();
            if g != w { return Err(format!("par indexed_axes_iter: {g:?}, expected {w:?}")) }
            Ok(Out::Val)
        }
    };
}
axes_iters!(axes_s, DeviceCpuSerial);
axes_iters!(axes_f, DeviceFaer);

fn main() {
    fw::main("P12", |r| {
        r.bound("every shape of rank 0..=3 with extents 0..=3 (and rank 4..=6 with extents 1..=2), every layout within the stated deviations of contiguous; every interleaving of calls from the front and the back up to 6 elements (switching patterns beyond), three calls past the end, len and size_hint before every call; every split position, splits of splits and splits after consumption from both ends; orders C, F, A, K, G; plain, mutable, indexed, by-axes and layout-level iterators with static and dynamic rank; rayon iteration of the same");
        r.assume("orders K, G (and A) may choose their own order, but visit each element exactly once and agree with themselves from both ends and under splitting; mutable iteration only over layouts that do not show an element twice");
        let mut items = vec![];
        for s in shapes(0, 2, &[0, 1, 2, 3]) { items.extend(layouts_dev(&s, &ALL_KINDS, r.pick(2, 3))); }
        for s in shapes(3, 3, &[0, 1, 2, 3]) { items.extend(layouts_dev(&s, &ALL_KINDS, r.pick(1, 2))); }
        for s in shapes(4, 6, &[1, 2]) { items.extend(layouts_dev(&s, &ALL_KINDS, if s.len() < 5 { 1 } else { 0 })); items.push(f_contig(&s)); }
        for s in [vec![2, 0, 1, 2], vec![1, 2, 0, 1, 2], vec![2, 1, 3, 1, 2], vec![1, 2, 1, 0, 1, 2], vec![2, 1, 1, 1, 1, 1], vec![1, 1, 1, 1, 1, 3], vec![1, 2, 1, 1, 1, 1, 2]] { items.push(c_contig(&s)); items.push(f_contig(&s)); items.push(build(&s, &(0..s.len()).collect::<Vec<_>>(), &vec![FLIP; s.len()], 1, 1)); }
        r.par("layout iterators", &items, |cx, l| {
            cx.state(l);
            cx.case(format_args!("dyn|{l:?}"), || layouts_iter::<IxD>(l).map(|_| Out::Val));
            cx.case(format_args!("static|{l:?}"), || match l.ndim() {
                1 => layouts_iter::<Ix1>(l),
                2 => layouts_iter::<Ix2>(l),
                3 => layouts_iter::<Ix3>(l),
                4 => layouts_iter::<Ix4>(l),
                5 => layouts_iter::<Ix5>(l),
                6 => layouts_iter::<Ix6>(l),
                _ => Ok(()),
            }.map(|_| Out::Val));
        });
        r.par("element iterators", &items, |cx, l| {
            for row in [true, false] { cx.case(format_args!("serial|row={row}|{l:?}"), || elem_s(l, row, serial(row)).map(|_| Out::Val)); }
            if l.ndim() < 3 { cx.case(format_args!("faer|{l:?}"), || elem_f(l, true, faer(true, 2)).map(|_| Out::Val)); }
        });
        r.par("axes iterators", &items, |cx, l| {
            let nd = l.ndim();
            let mut axes: Vec<Vec<isize>> = vec![];
            for s in subsets(nd) {
                if nd > 3 && s.len() != 1 && s.len() + 1 != nd { continue }
                for p in permutations(s.len()) { if s.len() > 3 && p != (0..s.len()).collect::<Vec<_>>() { continue } axes.push(p.iter().map(|&k| s[k] as isize).collect()); }
                axes.push(s.iter().map(|&k| k as isize - nd as isize).collect());
            }
            let n = nd as isize;
            axes.extend([vec![n], vec![-n - 1], vec![0, 0], vec![0, -n], vec![0, n], vec![0, -n - 1], vec![-n - 1, 0]]);
            for a in &axes {
                for row in [true, false] { if row || nd < 3 { cx.case(format_args!("serial|row={row}|{l:?}|{a:?}"), || axes_s(l, a, row, serial(row))); } }
                if nd < 3 { cx.case(format_args!("faer|{l:?}|{a:?}"), || axes_f(l, a, true, faer(true, 2))); }
            }
        });
    });
}
