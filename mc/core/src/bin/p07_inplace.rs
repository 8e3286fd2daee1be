//! P07: in-place operations write exactly the addressed elements; everything else is untouched.
use core_mc::*;
use std::mem::MaybeUninit;

/// What the destination's whole buffer must look like afterwards (None: must be rejected).
fn want(ld: &Lay, rd: &[i64], src: Option<&Nd<i64>>, row: bool, f: impl Fn(i64, i64) -> i64) -> Option<Vec<i64>> {
    let m = src?.broadcast(&ld.shape, row)?;
    let mut out = rd.to_vec();
    each_index(&ld.shape, |i| {
        let p = ld.at(i);
        out[p] = f(rd[p], *m.at(i));
    });
    Some(out)
}

/// (some element is shown at several indices, some stride is zero)
#[derive(Clone, Copy)]
struct Alias(bool, bool);
const NO_ALIAS: Alias = Alias(false, false);
fn alias(l: &Lay) -> Alias {
    let z = l.stride.contains(&0);
    Alias(l.has_bcast(), z)
}

fn judge<E: std::fmt::Debug>(what: &str, res: Result<(), E>, raw: &[i64], before: &[i64], want: &Option<Vec<i64>>, aliased: Alias) -> Res {
    let Alias(aliased, zero) = aliased;
    match (res, want) {
        // a zero stride on an axis with at most one element aliases nothing: accepting and rejecting are both fine
        (Err(_), Some(_)) if zero && raw == before => Ok(Out::Rej),
        (Ok(()), Some(w)) if aliased => {
            // a destination that shows one element at several indices may only be accepted if the result is consistent
            let _ = w;
            Err(format!("{what}: accepted a destination whose elements alias"))
        },
        (Ok(()), Some(w)) => {
            if raw == w.as_slice() {
                Ok(Out::Val)
            } else {
                Err(format!("{what}: buffer is {raw:?}, expected {w:?} (before: {before:?})"))
            }
        },
        (Err(_), None) => {
            if raw == before {
                Ok(Out::Rej)
            } else {
                Err(format!("{what}: rejected, but the buffer changed: {before:?} -> {raw:?}"))
            }
        },
        (Err(_), Some(_)) if aliased => {
            if raw == before {
                Ok(Out::Rej)
            } else {
                Err(format!("{what}: rejected, but the buffer changed: {before:?} -> {raw:?}"))
            }
        },
        (Ok(()), None) => Err(format!("{what}: accepted although the source does not broadcast to the destination; buffer {raw:?}")),
        (Err(e), Some(_)) => Err(format!("{what}: rejected: {e:?}")),
    }
}

macro_rules! array_src {
    (@fnmut yes, $($e:tt)*) => { $($e)* };
    (@fnmut no, $($e:tt)*) => {};
    ($cx:expr, $name:expr, $row:expr, $ld:expr, $ls:expr, $d:expr, $fm:ident) => {{
        let (ld, ls): (&Lay, &Lay) = ($ld, $ls);
        let d = $d;
        let row: bool = $row;
        $cx.case(format_args!("{}|row={row}|{ld:?}<-{ls:?}", $name), || {
            let rd = raw_i64(ld.len, 500);
            let rs = raw_i64(ls.len, 9);
            let ns = ls.nd(&rs);
            let al = alias(ld);
            let s = tensor(rs.clone(), ls, &d);
            let mut last = Out::Val;
            macro_rules! go {
                ($what:expr, $f:expr, |$t:ident| $e:expr) => {{
                    let mut $t = tensor(rd.clone(), ld, &d);
                    let w = want(ld, &rd, Some(&ns), row, $f);
                    let r = $e;
                    last = judge($what, r, $t.raw(), &rd, &w, al)?;
                }};
            }
            go!("assign", |_, b| b, |t| t.assign_f(&s));
            go!("assign view", |_, b| b, |t| t.assign_f(s.view()));
            go!("assign to view_mut", |_, b| b, |t| t.view_mut().assign_f(&s));
            go!("sub_assign", |a, b| a - b, |t| rt::sub_assign_f(&mut t, &s));
            go!("add_assign", |a, b| a + b, |t| rt::add_assign_f(&mut t, s.view()));
            go!("mul_assign view_mut", |a, b| a * b, |t| rt::mul_assign_f(&mut t.view_mut(), &s));
            go!("sub_with_output", |_, b| b - 2, |t| rt::sub_with_output_f(s.view(), (&s / &s) * 2, t.view_mut()));
            go!("op_muta_refb_func", |a, b| a * 7 + b, |t| op_muta_refb_func(t.view_mut(), &s, &mut |x: &mut MaybeUninit<i64>, y: &i64| unsafe { *x.assume_init_mut() = x.assume_init_read() * 7 + y; }));
            go!("op_mutc_refa_refb_func", |_, b| b * 5, |t| op_mutc_refa_refb_func(t.view_mut(), &s, s.view(), &mut |c: &mut MaybeUninit<i64>, x: &i64, y: &i64| { c.write(x + 4 * y); }));
            let w = want(ld, &rd, Some(&ns), row, |a, b| a - b);
            if w.is_some() && !al.1 {
                let mut t = tensor(rd.clone(), ld, &d);
                t -= &s;
                if t.raw() != w.as_ref().unwrap() { return Err(format!("t -= &s: buffer {:?}, expected {w:?}", t.raw())) }
                let mut t = tensor(rd.clone(), ld, &d);
                *&mut t.view_mut() -= s.view();
                if t.raw() != w.as_ref().unwrap() { return Err(format!("view_mut -= view: buffer {:?}, expected {w:?}", t.raw())) }
            }
            if *s.raw() != rs { return Err("the source changed".into()) }
            Ok(last)
        });
    }};
}

macro_rules! scalar_src {
    (@fnmut yes, $($e:tt)*) => { $($e)* };
    (@fnmut no, $($e:tt)*) => {};
    ($cx:expr, $name:expr, $row:expr, $ld:expr, $d:expr, $fm:ident) => {{
        let ld: &Lay = $ld;
        let d = $d;
        let row: bool = $row;
        $cx.case(format_args!("{}|scalar|row={row}|{ld:?}", $name), || {
            let rd: Vec<i64> = (0..ld.len as i64).map(|p| p * 3 + 40).collect();
            let k = Nd::new(&[], vec![3i64]);
            let al = alias(ld);
            macro_rules! go {
                ($what:expr, $f:expr, |$t:ident| $e:expr) => {{
                    let mut $t = tensor(rd.clone(), ld, &d);
                    // on an aliased destination every distinct element is changed once
                    let w = want(ld, &rd, Some(&k), row, $f);
                    let r: Result<(), rstsr_common::prelude_dev::Error> = $e;
                    match r {
                        Err(_) if al.1 && *$t.raw() == rd => {},
                        r => { judge($what, r, $t.raw(), &rd, &w, NO_ALIAS)?; },
                    }
                }};
            }
            go!("fill", |_, _| 77, |t| t.fill_f(77i64));
            go!("fill i32", |_, _| -5, |t| t.view_mut().fill_f(-5i32));
            go!("add", |a, _| a + 3, |t| rt::add_assign_f(&mut t, 3i64));
            go!("sub", |a, _| a - 3, |t| rt::sub_assign_f(&mut t.view_mut(), 3i64));
            go!("mul", |a, _| a * 3, |t| rt::mul_assign_f(&mut t, 3i64));
            go!("div", |a, _| a / 3, |t| rt::div_assign_f(&mut t, 3i64));
            go!("rem", |a, _| a % 3, |t| rt::rem_assign_f(&mut t, 3i64));
            go!("bitor", |a, _| a | 3, |t| rt::bitor_assign_f(&mut t, 3i64));
            go!("bitand", |a, _| a & 3, |t| rt::bitand_assign_f(&mut t, 3i64));
            go!("bitxor", |a, _| a ^ 3, |t| rt::bitxor_assign_f(&mut t, 3i64));
            go!("shl", |a, _| a << 3, |t| rt::shl_assign_f(&mut t, 3i64));
            go!("shr", |a, _| a >> 3, |t| rt::shr_assign_f(&mut t, 3i64));
            go!("+=", |a, _| a + 3, |t| { t += 3i64; Ok(()) });
            go!("mapi", |a, _| a * 2 + 1, |t| t.mapi_f(|x| *x = *x * 2 + 1));
            go!("mapvi", |a, _| a * 2 + 1, |t| t.mapvi_f(|x| x * 2 + 1));
            go!("mapi view_mut", |a, _| a * 2 + 1, |t| t.view_mut().mapi_f(|x| *x = *x * 2 + 1));
            go!("op_muta_func", |a, _| a * 2 + 1, |t| op_muta_func(t.view_mut(), &mut |x: &mut MaybeUninit<i64>| unsafe { *x.assume_init_mut() = x.assume_init_read() * 2 + 1; }));
            scalar_src!(@fnmut $fm,
                go!("mapi_fnmut", |a, _| a * 2 + 1, |t| t.mapi_fnmut_f(|x| *x = *x * 2 + 1));
                go!("mapvi_fnmut", |a, _| a * 2 + 1, |t| t.mapvi_fnmut_f(|x| x * 2 + 1));
                let mut t = tensor(rd.clone(), ld, &d);
                let mut n = 0usize;
                t.mapi_fnmut(|_| n += 1);
                let mut p = ld.positions(); p.sort(); p.dedup();
                if n != p.len() { return Err(format!("mapi called its closure {n} times for {} distinct elements", p.len())) }
            );
            Ok(Out::Val)
        });
    }};
}

macro_rules! compound_ops {
    ($cx:expr, $name:expr, $row:expr, $ld:expr, $ls:expr, $d:expr, $( $op:ident $op_f:ident $out:ident $e:expr );* $(;)?) => {{
        let (ld, ls): (&Lay, &Lay) = ($ld, $ls);
        let d = ($d).clone();
        let row: bool = $row;
        $( $cx.case(format_args!("{}|{}|row={row}|{ld:?}<-{ls:?}", $name, stringify!($op)), || {
            let rd: Vec<i64> = (0..ld.len).map(|p| (p * 5 % 101 + 17) as i64).collect();
            let rs: Vec<i64> = (0..ls.len).map(|p| (p * 3 % 5 + 1) as i64).collect();
            let ns = ls.nd(&rs);
            let f: fn(i64, i64) -> i64 = $e;
            let w = want(ld, &rd, Some(&ns), row, f);
            let s = tensor(rs.clone(), ls, &d);
            let mut t = tensor(rd.clone(), ld, &d);
            let r = rt::$op_f(&mut t, &s);
            let o = judge(stringify!($op), r, t.raw(), &rd, &w, NO_ALIAS)?;
            let mut t = tensor(rd.clone(), ld, &d);
            let r = rt::$op_f(&mut t, tensor(rs.clone(), ls, &d));
            judge("owned source", r, t.raw(), &rd, &w, NO_ALIAS)?;
            // the three-operand form writes f(x, s) into a destination laid out like ld
            let x = tensor(rd.clone(), ld, &d);
            let mut t = tensor(vec![-9; ld.len], ld, &d);
            let before = vec![-9i64; ld.len];
            let w3 = w.map(|w| { let mut o = before.clone(); each_index(&ld.shape, |i| o[ld.at(i)] = w[ld.at(i)]); o });
            let r = rt::$out(&x, &s, t.view_mut());
            judge(stringify!($out), r, t.raw(), &before, &w3, NO_ALIAS)?;
            Ok(o)
        }); )*
    }};
}

macro_rules! dev_fns {
    ($D:ty, $fm:ident, $arr:ident, $sc:ident, $ops:ident, $hist:ident) => {
        fn $arr(cx: &mut Cx, name: &str, row: bool, ld: &Lay, ls: &Lay, d: $D) { array_src!(cx, name, row, ld, ls, d, $fm) }
        fn $sc(cx: &mut Cx, name: &str, row: bool, ld: &Lay, d: $D) { scalar_src!(cx, name, row, ld, d, $fm) }
        fn $ops(cx: &mut Cx, name: &str, row: bool, ld: &Lay, ls: &Lay, d: $D) {
            compound_ops!(cx, name, row, ld, ls, &d,
                add_assign add_assign_f add_with_output_f |a, b| a + b; sub_assign sub_assign_f sub_with_output_f |a, b| a - b; mul_assign mul_assign_f mul_with_output_f |a, b| a * b;
                div_assign div_assign_f div_with_output_f |a, b| a / b; rem_assign rem_assign_f rem_with_output_f |a, b| a % b; bitor_assign bitor_assign_f bitor_with_output_f |a, b| a | b;
                bitand_assign bitand_assign_f bitand_with_output_f |a, b| a & b; bitxor_assign bitxor_assign_f bitxor_with_output_f |a, b| a ^ b;
                shl_assign shl_assign_f shl_with_output_f |a, b| a << b; shr_assign shr_assign_f shr_with_output_f |a, b| a >> b;
            )
        }
        /// an owned result of any operation is an ordinary destination
        fn $hist(cx: &mut Cx, name: &str, row: bool, la: &Lay, lb: &Lay, d: $D) {
            cx.case(format_args!("{name}|row={row}|{la:?},{lb:?}"), || {
                let (ra, rb) = (raw_i64(la.len, 100), raw_i64(lb.len, 7));
                let (na, nb) = (la.nd(&ra), lb.nd(&rb));
                let Some(w) = zip_b(&na, &nb, row, |x, y| x - y) else { return Ok(Out::Skip) };
                let a = tensor(ra, la, &d);
                let b = tensor(rb, lb, &d);
                let lc = c_contig(&w.shape);
                let rc = raw_i64(lc.len, 1000);
                let nc = lc.nd(&rc);
                let c = tensor(rc, &lc, &d);
                let wd = zip_b(&w, &nc, row, |x, y| x + y).unwrap();
                let outs: Vec<(&str, Tensor<i64, $D, IxD>)> = vec![
                    ("sub", &a - &b), ("owned sub", tensor(a.raw().clone(), la, &d) - &b), ("sub owned", &a - tensor(b.raw().clone(), lb, &d)),
                    ("mapb", a.mapb(&b, |x, y| x - y)), ("minimum", rt::minimum(&(&a - &b), &(&a - &b))),
                ];
                for (n, mut t) in outs {
                    rt::add_assign_f(&mut t, &c).map_err(|e| format!("{n}: {e:?}"))?;
                    check_t(&t, &wd).map_err(|e| format!("{n} then += : {e}"))?;
                    t.assign_f(&c).map_err(|e| format!("{n}: {e:?}"))?;
                    check_t(&t, &nc).map_err(|e| format!("{n} then assign: {e}"))?;
                }
                for (n, mut t) in [("neg", -&a), ("map", a.map(|x| -x)), ("scalar", 0i64 - &a), ("scalar2", &a * -1i64), ("owned", -a.to_owned()), ("square/abs", -rt::abs(&a))] {
                    let w = na.map(|x| -x);
                    check_t(&t, &w).map_err(|e| format!("{n}: {e}"))?;
                    let lx = c_contig(&w.shape);
                    let x = tensor(raw_i64(lx.len, 1000), &lx, &d);
                    let wd = zip_b(&w, &lx.nd(x.raw()), row, |x, y| x + y).unwrap();
                    rt::add_assign_f(&mut t, &x).map_err(|e| format!("{n}: {e:?}"))?;
                    check_t(&t, &wd).map_err(|e| format!("{n} then += : {e}"))?;
                }
                Ok(Out::Val)
            });
        }
    };
}
dev_fns!(DeviceCpuSerial, yes, arr_s, sc_s, ops_s, hist_s);
dev_fns!(DeviceFaer, no, arr_f, sc_f, ops_f, hist_f);

fn main() {
    fw::main("P07", |r| {
        let sizes: &[usize] = r.pick(&[0, 1, 2], &[0, 1, 2, 3]);
        r.bound(format!("every pair of destination and source shapes of rank 0..=3 with extents in {sizes:?}; every layout of each within one deviation of contiguous (destinations additionally at an offset inside a larger buffer); both conventions; serial and 4-thread rayon/faer device"));
        r.bound("runs around the inner-loop switch (16), assignment (16384) and operator (4096) parallel thresholds; histories: any owned operation result used as an in-place destination");
        r.assume("a destination that shows one element at several indices is rejected by array-valued in-place operations (scalar ones change each element once)");
        let sh = shapes(0, 3, sizes);
        let mut items: Vec<(Lay, Vec<usize>)> = vec![];
        for a in &sh {
            for b in &sh {
                let ok = bshape(a, b, true).is_some() || bshape(a, b, false).is_some();
                for l in if ok { layouts_dev(a, &ALL_KINDS, r.pick(1, 2)) } else { layouts_dev(a, &[PLAIN, STEP], 1) } {
                    items.push((l, b.clone()));
                }
            }
        }
        r.par("array", &items, |cx, (ld, b)| {
            for row in [true, false] {
                let ok = bshape(&ld.shape, b, row).is_some();
                for ls in if ok { layouts_dev(b, &ALL_KINDS, 1) } else { vec![c_contig(b)] } {
                    cx.state(&(ld, &ls));
                    arr_s(cx, "serial", row, ld, &ls, serial(row));
                }
            }
        });
        let part: Vec<_> = items.iter().enumerate().filter(|(i, (l, _))| l.ndim() < 3 || i % r.pick(6, 1) == 0).map(|x| x.1.clone()).collect();
        r.par("array-faer", &part, |cx, (ld, b)| {
            for row in [true, false] {
                let ok = bshape(&ld.shape, b, row).is_some();
                for ls in if ok { layouts_dev(b, &ALL_KINDS, 1) } else { vec![c_contig(b)] } {
                    arr_f(cx, "faer", row, ld, &ls, faer(row, 4));
                }
            }
        });
        let mut long = vec![];
        for (a, b) in [(vec![15usize], vec![15usize]), (vec![16], vec![16]), (vec![17], vec![17]), (vec![17], vec![1]), (vec![2, 16], vec![16]), (vec![16, 2], vec![16, 2]), (vec![17, 2], vec![17, 1]), (vec![2, 2, 8], vec![2, 8]),
            (vec![3, 33], vec![3, 33]), (vec![2, 8, 2], vec![2, 8, 2]), (vec![2, 2, 2, 2], vec![2, 2, 1, 2]), (vec![1, 3, 1, 2, 2], vec![3, 1, 2, 2]), (vec![2, 1, 2, 2, 2, 3], vec![2, 2, 2, 3]), (vec![2, 2, 1, 2, 1, 2, 2], vec![2, 1, 2, 1, 2, 2])] {
            let lay = |s: &Vec<usize>| if s.len() > 3 { let mut v = layouts_dev(s, &NOB_KINDS, 1); v.truncate(60); v } else { layouts_dev(s, &ALL_KINDS, 2) };
            for l in lay(&a) { long.push((l, b.clone())); }
        }
        r.par("array-long", &long, |cx, (ld, b)| {
            for row in [true, false] {
                if bshape(&ld.shape, b, row).is_none() { continue }
                for ls in layouts_dev(b, if b.len() > 3 { &NOB_KINDS } else { &ALL_KINDS }, 1).into_iter().take(60) {
                    cx.state(&(ld, &ls));
                    arr_s(cx, "serial", row, ld, &ls, serial(row));
                    arr_f(cx, "faer", row, ld, &ls, faer(row, 4));
                }
            }
        });
        let mut big = vec![];
        for s in [vec![4095usize], vec![4096], vec![4097], vec![64, 65], vec![3, 1400], vec![16383], vec![16384], vec![16385], vec![128, 129], vec![6000, 3], vec![2, 91, 91]] {
            for l in layouts_dev(&s, &NOB_KINDS, 1) {
                for ls in layouts_dev(&s, &ALL_KINDS, 1) { big.push((l.clone(), ls)); }
                if s.len() > 1 { for t in [vec![s[0]], vec![s[s.len() - 1]]] { for ls in layouts_dev(&t, &ALL_KINDS, 1) { big.push((l.clone(), ls)); } } }
            }
        }
        let big: Vec<_> = big.into_iter().enumerate().filter(|(i, _)| i % r.pick(5, 1) == 0).map(|x| x.1).collect();
        r.par("array-parallel", &big, |cx, (ld, ls)| {
            for row in [true, false] {
                if bshape(&ld.shape, &ls.shape, row).is_none() { continue }
                arr_f(cx, "faer", row, ld, ls, faer(row, 4));
            }
        });
        let mut sc = vec![];
        for s in shapes(0, 4, &[0, 1, 2, 3]) { sc.extend(layouts_dev(&s, &ALL_KINDS, if s.len() > 3 { 1 } else { 2 })); }
        for s in [vec![15], vec![16], vec![17], vec![18], vec![2, 16], vec![17, 2], vec![4096], vec![4097], vec![64, 65], vec![16384], vec![16385], vec![3, 6000], vec![2, 3, 700]] { sc.extend(layouts_dev(&s, &ALL_KINDS, if prod(&s) > 1000 { 1 } else { 2 })); }
        for s in [vec![2, 1, 3, 1, 2], vec![2, 2, 2, 2, 2, 2], vec![2, 2, 1, 2, 2, 1, 2]] { sc.extend(layouts_dev(&s, &NOB_KINDS, 1).into_iter().take(200)); }
        r.par("scalar", &sc, |cx, l| {
            cx.state(l);
            for row in [true, false] { sc_s(cx, "serial", row, l, serial(row)); }
            sc_f(cx, "faer", true, l, faer(true, 4));
        });
        let mut lp = vec![];
        for (a, b) in [(vec![3usize, 4], vec![3usize, 4]), (vec![3, 3], vec![3]), (vec![20], vec![20]), (vec![2, 20], vec![2, 20]), (vec![5000], vec![5000]), (vec![2, 2], vec![3])] {
            for la in layouts_dev(&a, &NOB_KINDS, if a[0] > 100 { 1 } else { 2 }) {
                for lb in layouts_dev(&b, &ALL_KINDS, 1) { lp.push((la.clone(), lb)); }
            }
        }
        r.par("operators", &lp, |cx, (ld, ls)| {
            for row in [true, false] {
                if ld.len < 4000 { ops_s(cx, "serial", row, ld, ls, serial(row)); }
                ops_f(cx, "faer", row, ld, ls, faer(row, 4));
            }
        });
        let mut hp = vec![];
        for a in shapes(0, 3, &[1, 2, 3]) {
            for b in shapes(0, 3, &[1, 2, 3]) {
                if bshape(&a, &b, true).is_none() && bshape(&a, &b, false).is_none() { continue }
                for la in layouts_dev(&a, &[PLAIN, BCAST, FLIP], r.pick(1, 2)) {
                    for lb in layouts_dev(&b, &[PLAIN, BCAST, FLIP], 1) { hp.push((la.clone(), lb)); }
                }
            }
        }
        r.par("history", &hp, |cx, (la, lb)| {
            for row in [true, false] {
                hist_s(cx, "serial", row, la, lb, serial(row));
            }
            hist_f(cx, "faer", true, la, lb, faer(true, 2));
        });
    });
}
