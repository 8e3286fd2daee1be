//! P03: broadcasting. All pairs (and triples) of small shapes, both conventions.
use core_mc::*;
use rstsr_core::prelude::rt;

fn fold(shapes: &[&[usize]], row: bool) -> Option<Vec<usize>> {
    let mut cur = shapes.first()?.to_vec();
    for s in &shapes[1..] {
        cur = bshape(&cur, s, row)?;
    }
    Some(cur)
}

fn lays(shape: &[usize], k: usize) -> Vec<Lay> {
    layouts_dev(shape, &[PLAIN, FLIP, STEP, BCAST], k)
}

fn main() {
    fw::main("P03", |r| {
        let sizes: &[usize] = &[0, 1, 2, 3];
        let all = shapes(0, 3, sizes);
        r.bound(format!("every pair of shapes of rank 0..=3 with extents in {sizes:?}, both conventions; source layouts within {} deviations of contiguous; every triple of shapes of rank 0..=2 with extents 0..=2; rank 4-6 shapes with extents 1..=2 against all targets one rank up", r.pick(1, 2)));
        r.assume("broadcasting is independent of element values and device");
        let pairs: Vec<(Vec<usize>, Vec<usize>)> = all.iter().flat_map(|a| all.iter().map(move |b| (a.clone(), b.clone()))).collect();
        let kk = r.pick(1, 2);
        r.par("to-shape", &pairs, |cx, (a, b)| {
            for row in [true, false] {
                for l in if bshape(a, b, row).is_some() { lays(a, kk) } else { vec![c_contig(a)] } {
                    let raw = raw_i64(l.len, 5);
                    let m = l.nd(&raw);
                    let want = m.broadcast(b, row);
                    cx.state(&(&l, b));
                    cx.case(format_args!("row={row}|{l:?}->{b:?}"), || {
                        let t = tensor(raw.clone(), &l, &serial(row));
                        let o = expect(t.to_broadcast_f(b.clone()), want.as_ref())?;
                        expect(t.view().into_broadcast_f(b.clone()), want.as_ref())?;
                        if let Some(w) = &want {
                            let v = t.broadcast_to(b.clone());
                            check_t(&v, w)?;
                            // a broadcast view still owns nothing: it shares the source buffer
                            if v.raw().as_ptr() != t.raw().as_ptr() {
                                return Err("broadcast view does not share the source".into());
                            }
                            check_t(&v.to_owned(), w).map_err(|e| format!("copy of the broadcast view: {e}"))?;
                            check_t(&v.into_contig(COL), w).map_err(|e| format!("column-major copy: {e}"))?;
                            expect(t.into_broadcast_f(b.clone()), want.as_ref())?;
                        }
                        Ok(o)
                    });
                }
            }
        });
        r.par("two-arrays", &pairs, |cx, (a, b)| {
            for row in [true, false] {
                let want = fold(&[a, b], row);
                cx.state(&(a, b, row));
                cx.case(format_args!("row={row}|{a:?},{b:?}"), || {
                    let o = if row { ROW } else { COL };
                    let got = rt::broadcast_shapes_f(&[a.clone(), b.clone()], o);
                    match (&got, &want) {
                        (Ok(g), Some(w)) if g == w => {},
                        (Err(_), None) => {},
                        _ => return Err(format!("broadcast_shapes gives {got:?}, expected {want:?}")),
                    }
                    let d = serial(row);
                    let (la, lb) = (c_contig(a), f_contig(b));
                    let (ra, rb) = (raw_i64(la.len, 5), raw_i64(lb.len, 1000));
                    let v = vec![tensor(ra.clone(), &la, &d), tensor(rb.clone(), &lb, &d)];
                    match (rt::broadcast_arrays_f(v), &want) {
                        (Err(_), None) => Ok(Out::Rej),
                        (Ok(g), Some(w)) => {
                            check_t(&g[0], &la.nd(&ra).broadcast(w, row).unwrap())?;
                            check_t(&g[1], &lb.nd(&rb).broadcast(w, row).unwrap())?;
                            Ok(Out::Val)
                        },
                        (g, w) => Err(format!("broadcast_arrays: {:?}, expected {w:?}", g.map(|v| v.len()))),
                    }
                });
            }
        });
        let small = shapes(0, 2, &[0, 1, 2]);
        let trip: Vec<Vec<Vec<usize>>> = words(&small, 3);
        r.par("three-arrays", &trip, |cx, t3| {
            for row in [true, false] {
                let s: Vec<&[usize]> = t3.iter().map(|v| v.as_slice()).collect();
                let want = fold(&s, row);
                cx.state(&(t3, row));
                cx.case(format_args!("row={row}|{t3:?}"), || {
                    let got = rt::broadcast_shapes_f(t3, if row { ROW } else { COL });
                    match (&got, &want) {
                        (Ok(g), Some(w)) if g == w => {},
                        (Err(_), None) => {},
                        _ => return Err(format!("broadcast_shapes gives {got:?}, expected {want:?}")),
                    }
                    let d = serial(row);
                    let v: Vec<_> = t3.iter().map(|s| tensor(raw_i64(prod(s), 7), &c_contig(s), &d)).collect();
                    match (rt::broadcast_arrays_f(v), &want) {
                        (Err(_), None) => Ok(Out::Rej),
                        (Ok(g), Some(w)) => {
                            if g.len() != 3 {
                                return Err("wrong number of results".into());
                            }
                            for (k, s) in t3.iter().enumerate() {
                                let l = c_contig(s);
                                check_t(&g[k], &l.nd(&raw_i64(l.len, 7)).broadcast(w, row).unwrap())?;
                            }
                            Ok(Out::Val)
                        },
                        (g, w) => Err(format!("broadcast_arrays: {:?}, expected {w:?}", g.map(|v| v.len()))),
                    }
                });
            }
        });
        let high = shapes(4, r.pick(5, 6), &[1, 2]);
        r.par("high-rank", &high, |cx, a| {
            for row in [true, false] {
                for m in 0..1usize << (a.len() + 1) {
                    // target: one more axis; bit k chooses extent 2 (else 1)
                    let b: Vec<usize> = (0..=a.len()).map(|k| 1 + (m >> k & 1)).collect();
                    let l = c_contig(a);
                    let raw = raw_i64(l.len, 5);
                    let want = l.nd(&raw).broadcast(&b, row);
                    cx.state(&(a, &b, row));
                    cx.case(format_args!("row={row}|{a:?}->{b:?}"), || expect(tensor(raw.clone(), &l, &serial(row)).to_broadcast_f(b.clone()), want.as_ref()));
                }
            }
        });
        // fixed-rank types follow the same rules as dynamic rank
        let two = shapes(2, 2, sizes);
        r.par("fixed-rank", &two, |cx, a| {
            for b in shapes(3, 3, sizes) {
                for row in [true, false] {
                    let l = c_contig(a);
                    let raw = raw_i64(l.len, 5);
                    let want = l.nd(&raw).broadcast(&b, row);
                    cx.case(format_args!("row={row}|{a:?}->{b:?}"), || {
                        let t = tensor(raw.clone(), &l, &serial(row)).into_dim::<Ix2>();
                        expect(t.to_broadcast_f([b[0], b[1], b[2]]), want.as_ref())
                    });
                }
            }
        });
    })
}
