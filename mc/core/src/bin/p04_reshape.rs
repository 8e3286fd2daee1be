//! P04: reshape. Source layouts x target shapes (with and without an inferred extent) x orders x copy modes.
use core_mc::*;

/// every target shape of rank <= n with the given number of elements; ones are allowed
fn factorizations(size: usize, n: usize) -> Vec<Vec<usize>> {
    fn rec(rest: usize, n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest == 1 {
            out.push(cur.clone());
        }
        if cur.len() == n {
            return;
        }
        for d in 1..=rest {
            if rest % d == 0 {
                cur.push(d);
                rec(rest / d, n, cur, out);
                cur.pop();
            }
        }
    }
    if size == 0 {
        return shapes(1, n.min(3), &[0, 1, 2]).into_iter().filter(|s| prod(s) == 0).collect();
    }
    let mut out = vec![];
    rec(size, n, &mut vec![], &mut out);
    out
}

/// Is there a strided layout of `target` that lists exactly these buffer positions in this order?
fn affine(pos: &[usize], target: &[usize], row: bool) -> bool {
    if pos.len() <= 1 {
        return true;
    }
    let m = Nd::from_ordered(target, pos.to_vec(), row);
    let base = m.data[0] as isize;
    let mut st = vec![0isize; target.len()];
    for k in 0..target.len() {
        if target[k] > 1 {
            let mut i = vec![0; target.len()];
            i[k] = 1;
            st[k] = *m.at(&i) as isize - base;
        }
    }
    let mut ok = true;
    each_index(target, |i| {
        let p = base + i.iter().zip(&st).map(|(a, b)| *a as isize * b).sum::<isize>();
        ok &= *m.at(i) as isize == p;
    });
    ok
}

/// All the ways to write the target: literal, or one extent replaced by -1, with the expected outcome.
fn spellings(size: usize, t: &[usize]) -> Vec<(Vec<isize>, Option<Vec<usize>>)> {
    let lit: Vec<isize> = t.iter().map(|&x| x as isize).collect();
    let mut v = vec![(lit.clone(), if prod(t) == size { Some(t.to_vec()) } else { None })];
    for k in 0..t.len() {
        let mut s = lit.clone();
        s[k] = -1;
        let rest: usize = t.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, x)| *x).product();
        let want = if rest == 0 || size % rest != 0 {
            None
        } else {
            let mut w = t.to_vec();
            w[k] = size / rest;
            Some(w)
        };
        v.push((s, want));
    }
    v
}

fn run<B>(cx: &mut Cx, l: &Lay, spell: &[isize], want: &Option<Vec<usize>>, dev_row: bool, d: &B, name: &str)
where
    B: DeviceAPI<i64, Raw = Vec<i64>> + DeviceRawAPI<i64, Raw = Vec<i64>> + Clone,
    B: DeviceRawAPI<std::mem::MaybeUninit<i64>> + DeviceCreationAnyAPI<i64> + OpAssignArbitaryAPI<i64, IxD, IxD> + OpAssignAPI<i64, IxD>,
{
    let raw = raw_i64(l.len, 11);
    let m = l.nd(&raw);
    for ord in [None, Some(true), Some(false)] {
        let row = ord.unwrap_or(dev_row);
        let fo = ord.map(|r| if r { ROW } else { COL });
        let w = want.as_ref().map(|s| m.reshape(s, row));
        cx.case(format_args!("{name}|dev_row={dev_row}|order={ord:?}|{l:?}->{spell:?}"), || {
            let t = tensor(raw.clone(), l, d);
            let sp = || spell.to_vec();
            let Some(w) = &w else {
                let mut acc = vec![];
                for copy in [None, Some(true), Some(false)] {
                    if t.reshape_with_args_f(sp(), ReshapeArgs { order: fo, copy }).is_ok() {
                        acc.push(format!("reshape copy={copy:?}"));
                    }
                }
                if t.reshape_f(sp()).is_ok() { acc.push("reshape".into()) }
                if t.to_compatible_shape_f(sp(), fo).is_ok() { acc.push("to_compatible_shape".into()) }
                if t.reshapeable_without_copy(sp(), fo).is_ok() { acc.push("reshapeable".into()) }
                if t.into_shape_f(sp()).is_ok() { acc.push("into_shape".into()) }
                return if acc.is_empty() { Ok(Out::Rej) } else { Err(format!("accepted by {acc:?}, but the element count cannot match")) };
            };
            let shape = &w.shape;
            let pos = Nd::new(&l.shape, l.positions()).ordered(row);
            let possible = affine(&pos, shape, row);
            let base = t.raw().as_ptr();
            let mut views = vec![];
            for copy in [None, Some(true), Some(false)] {
                match t.reshape_with_args_f(sp(), ReshapeArgs { order: fo, copy }) {
                    Ok(g) => {
                        check_t(&g, w).map_err(|e| format!("copy={copy:?}: {e}"))?;
                        let shares = g.raw().as_ptr() == base && g.raw().len() == l.len && g.is_ref();
                        if g.is_ref() != (g.raw().as_ptr() == base) && !g.raw().is_empty() {
                            return Err("ownership flag disagrees with the buffer".into());
                        }
                        if copy == Some(true) && shares && prod(shape) > 0 {
                            return Err("copy=true returned a view".into());
                        }
                        if copy == Some(false) && !shares {
                            return Err("copy=false returned a copy".into());
                        }
                        if shares && !possible {
                            return Err("a view was returned although none can exist".into());
                        }
                        if copy != Some(true) {
                            views.push(shares);
                        }
                    },
                    Err(e) if copy == Some(false) => {
                        if possible {
                            return Err(format!("copy=false rejected although a view exists: {e:?}"));
                        }
                        views.push(false);
                    },
                    Err(e) => return Err(format!("rejected (copy={copy:?}): {e:?}")),
                }
            }
            let nocopy = t.reshapeable_without_copy(sp(), fo).map_err(|e| format!("reshapeable_without_copy: {e:?}"))?;
            views.push(nocopy.is_some());
            if let Some(nl) = &nocopy {
                same(&read(t.raw(), nl.shape().as_ref(), nl.stride().as_ref(), nl.offset())?, w)?;
            }
            match t.to_compatible_shape_f(sp(), fo) {
                Ok(g) => {
                    check_t(&g, w)?;
                    if g.raw().as_ptr() != base {
                        return Err("compatible-shape view does not share the buffer".into());
                    }
                    views.push(true);
                },
                Err(_) => views.push(false),
            }
            if views.iter().any(|v| *v != views[0]) || views[0] != possible {
                return Err(format!("view decisions disagree: {views:?}, possible={possible}"));
            }
            if ord.is_none() {
                check_t(&t.reshape_f(sp()).map_err(|e| format!("{e:?}"))?, w)?;
                check_t(&t.reshape(sp()), w)?;
                check_t(&t.to_shape(sp()), w)?;
                check_t(&t.view().change_shape(sp()), w)?;
                check_t(&t.view().into_shape(sp()), w)?;
                check_t(&t.clone().change_shape_f(sp()).map_err(|e| format!("{e:?}"))?, w)?;
                check_t(&t.into_shape_f(sp()).map_err(|e| format!("{e:?}"))?, w)?;
            } else {
                check_t(&t.clone().into_shape_with_args_f(sp(), ReshapeArgs { order: fo, copy: None }).map_err(|e| format!("{e:?}"))?, w)?;
                check_t(&t.change_shape_with_args_f(sp(), ReshapeArgs { order: fo, copy: None }).map_err(|e| format!("{e:?}"))?, w)?;
            }
            Ok(Out::Val)
        });
    }
}

fn main() {
    fw::main("P04", |r| {
        let maxr = r.pick(3, 4);
        let src: Vec<Vec<usize>> = shapes(0, maxr, &[0, 1, 2, 3, 4, 6])
            .into_iter()
            .filter(|s| prod(s) <= r.pick(12, 24) && (s.len() < 4 || s.iter().all(|d| *d <= 3)))
            .collect();
        let kinds = [PLAIN, STEP, FLIP, FLIPSTEP, BCAST, PAD];
        r.bound(format!("source shapes of rank 0..={maxr} with at most {} elements (extents 0,1,2,3,4,6), layouts within {} deviations of contiguous (any axis order; stepped, flipped, broadcast, padded axes; offset), all target shapes of rank 0..=4 with the right count, mismatching targets, every position of -1, both device conventions, explicit and default order, three copy modes", r.pick(12, 24), r.pick(2, 3)));
        r.assume("reshape does not look at element values");
        r.par("same-count", &src, |cx, s| {
            for l in layouts_dev(s, &kinds, r.pick(2, 3)) {
                cx.state(&l);
                for t in factorizations(prod(s), if s.len() <= 2 { 4 } else { 3 }) {
                    let ws: Vec<(Vec<isize>, Option<Vec<usize>>)> = spellings(prod(s), &t);
                    for (i, (sp, want)) in ws.iter().enumerate() {
                        // the inferred forms only need the shape logic: two layouts per shape
                        if i > 0 && l.offset != 0 {
                            continue;
                        }
                        run(cx, &l, sp, want, true, &serial(true), "serial");
                        if i == 0 {
                            run(cx, &l, sp, want, false, &serial(false), "serial");
                        }
                    }
                }
            }
        });
        r.par("any-target", &src, |cx, s| {
            for l in [c_contig(s), f_contig(s)] {
                for t in shapes(0, 3, &[0, 1, 2, 3, 5, 6]) {
                    for (sp, want) in spellings(prod(s), &t) {
                        run(cx, &l, &sp, &want, true, &serial(true), "serial");
                    }
                }
                for sp in [vec![-1, -1], vec![-2], vec![2, -3], vec![-1, 2, -1], vec![isize::MAX, 2], vec![-1, isize::MAX, 2], vec![isize::MAX, isize::MAX, isize::MAX], vec![isize::MIN], vec![-1, 0, isize::MAX, 2]] {
                    run(cx, &l, &sp, &None, true, &serial(true), "serial");
                }
            }
        });
        r.par("faer", &src, |cx, s| {
            for l in layouts_dev(s, &kinds, 1) {
                for t in factorizations(prod(s), 3) {
                    for row in [true, false] {
                        run(cx, &l, &t.iter().map(|x| *x as isize).collect::<Vec<_>>(), &Some(t.clone()), row, &faer(row, 1), "faer");
                    }
                }
            }
        });
        let big: Vec<Vec<usize>> = vec![vec![2, 2, 2, 2], vec![2, 1, 3, 2], vec![2, 2, 2, 2, 2], vec![1, 2, 2, 1, 2], vec![2, 2, 1, 2, 1, 2]];
        r.par("high-rank", &big, |cx, s| {
            for l in layouts_dev(s, &[PLAIN, FLIP, BCAST, PAD], if s.len() >= 5 { 1 } else { 2 }) {
                cx.state(&l);
                for t in factorizations(prod(s), 5) {
                    if s.len() >= 5 && t.iter().filter(|x| **x == 1).count() > 1 {
                        continue;
                    }
                    run(cx, &l, &t.iter().map(|x| *x as isize).collect::<Vec<_>>(), &Some(t.clone()), true, &serial(true), "serial");
                }
            }
        });
    })
}
