//! P09: arg reductions give the first position of the extremum, whatever the layout, device and traversal.
use core_mc::*;

/// Position (multi-index over the listed axes, in the listed order) of the first extremum per remaining index.
fn arg_model(m: &Nd<i64>, axes: &[usize], max: bool) -> Nd<Vec<usize>> {
    let rest: Vec<usize> = (0..m.ndim()).filter(|i| !axes.contains(i)).collect();
    let rshape: Vec<usize> = rest.iter().map(|&i| m.shape[i]).collect();
    let ashape: Vec<usize> = axes.iter().map(|&i| m.shape[i]).collect();
    Nd::from_fn(&rshape, |ri| {
        let mut best: Option<(i64, Vec<usize>)> = None;
        each_index(&ashape, |ai| {
            let mut full = vec![0; m.ndim()];
            for (k, &a) in rest.iter().enumerate() { full[a] = ri[k]; }
            for (k, &a) in axes.iter().enumerate() { full[a] = ai[k]; }
            let v = *m.at(&full);
            let better = match &best { None => true, Some((b, _)) => if max { v > *b } else { v < *b } };
            if better { best = Some((v, ai.to_vec())); }
        });
        best.unwrap().1
    })
}

fn norm(axes: &[isize], nd: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    for &a in axes {
        let a = if a < 0 { a + nd as isize } else { a };
        if a < 0 || a >= nd as isize || v.contains(&(a as usize)) { return None }
        v.push(a as usize);
    }
    Some(v)
}

macro_rules! arg {
    ($cx:expr, $name:expr, $row:expr, $l:expr, $axes:expr, $d:expr) => {{
        let l: &Lay = $l;
        let axes: &Option<Vec<isize>> = $axes;
        let d = $d;
        $cx.case(format_args!("{}|row={}|{l:?}|axes={axes:?}", $name, $row), || {
            let nd = l.ndim();
            let ax = match axes { None => Some((0..nd).collect()), Some(a) => norm(a, nd) };
            let mut out = Out::Val;
            for k in [1i64, 2, 3, 7, 1000003] {
                let ri: Vec<i64> = (0..l.len as i64).map(|p| (p * 7919 + 3) % k).collect();
                let m = l.nd(&ri);
                let t = tensor(ri, l, &d);
                macro_rules! arg { () => { match axes { None => AxesIndex::<isize>::None, Some(a) => AxesIndex::Vec(a.clone()) } } }
                let Some(ax) = &ax else {
                    if t.argmin_axes_f(arg!()).is_ok() || t.argmax_axes_f(arg!()).is_ok() || t.unraveled_argmin_axes_f(arg!()).is_ok() || t.unraveled_argmax_axes_f(arg!()).is_ok() { return Err(format!("accepted axes {axes:?}")) }
                    return Ok(Out::Rej);
                };
                if l.size() == 0 {
                    if t.argmin_axes_f(arg!()).is_ok() || t.argmax_axes_f(arg!()).is_ok() || t.argmin_all_f().is_ok() || t.argmax_all_f().is_ok() || t.unraveled_argmin_all_f().is_ok() || t.unraveled_argmax_all_f().is_ok() { return Err("accepted an empty array".into()) }
                    out = Out::Rej;
                    continue;
                }
                let ashape: Vec<usize> = ax.iter().map(|&i| l.shape[i]).collect();
                macro_rules! one {
                    ($f:ident, $uf:ident, $all:ident, $uall:ident, $max:expr) => {{
                        let w = arg_model(&m, ax, $max);
                        let r = t.$uf(arg!()).map_err(|e| format!("{}: {e:?}", stringify!($uf)))?;
                        same(&logical(&r)?, &w).map_err(|e| format!("{}: k={k} {e}", stringify!($uf)))?;
                        let r = t.$f(arg!()).map_err(|e| format!("{}: {e:?}", stringify!($f)))?;
                        same(&logical(&r)?, &w.map(|i| pos(&ashape, i))).map_err(|e| format!("{}: k={k} {e}", stringify!($f)))?;
                        if axes.is_none() {
                            let u = t.$uall();
                            if u != w.data[0] { return Err(format!("{}: k={k} got {u:?}, expected {:?}", stringify!($uall), w.data[0])) }
                            let a = t.$all();
                            if a != pos(&ashape, &w.data[0]) { return Err(format!("{}: k={k} got {a:?}, expected {:?}", stringify!($all), w.data[0])) }
                        }
                    }};
                }
                one!(argmin_axes_f, unraveled_argmin_axes_f, argmin_all, unraveled_argmin_all, false);
                one!(argmax_axes_f, unraveled_argmax_axes_f, argmax_all, unraveled_argmax_all, true);
            }
            Ok(out)
        });
    }};
}
fn arg_s(cx: &mut Cx, name: &str, row: bool, l: &Lay, axes: &Option<Vec<isize>>, d: DeviceCpuSerial) { arg!(cx, name, row, l, axes, d) }
fn arg_f(cx: &mut Cx, name: &str, row: bool, l: &Lay, axes: &Option<Vec<isize>>, d: DeviceFaer) { arg!(cx, name, row, l, axes, d) }

fn axes_of(nd: usize, invalid: bool) -> Vec<Option<Vec<isize>>> {
    let mut out: Vec<Option<Vec<isize>>> = vec![None];
    for s in subsets(nd) {
        for p in permutations(s.len()) {
            if s.len() > 2 && p.windows(2).any(|w| w[0] > w[1]) { continue }
            out.push(Some(p.iter().map(|&k| s[k] as isize).collect()));
        }
        out.push(Some(s.iter().map(|&x| x as isize - nd as isize).collect()));
    }
    if invalid {
        let n = nd as isize;
        out.extend([Some(vec![n]), Some(vec![-n - 1]), Some(vec![0, 0]), Some(vec![n - 1, -1])]);
    }
    out
}

fn main() {
    fw::main("P09", |r| {
        r.bound("every shape of rank 0..=3 with extents 0..=3, every layout within the stated deviations of contiguous, every subset and order of up to two axes (and negative and rejected ones); contents with 1, 2, 3, 7 and all-distinct values, so that ties occur in every arrangement; serial and rayon device (parallel switch 1024)");
        r.assume("several axes are ravelled in row-major order in the order in which they are listed; the flat position is row-major under both conventions; contents free of NaN");
        let mut items = vec![];
        for s in shapes(0, 3, &[0, 1, 2, 3]) { items.extend(layouts_dev(&s, &ALL_KINDS, r.pick(2, 3))); }
        for s in shapes(4, 4, &[1, 2]) { items.extend(layouts_dev(&s, &ALL_KINDS, r.pick(1, 2))); }
        r.par("small", &items, |cx, l| {
            cx.state(l);
            for a in axes_of(l.ndim(), l.len < 40) {
                arg_s(cx, "serial", true, l, &a, serial(true));
                if l.ndim() < 3 { arg_s(cx, "serial", false, l, &a, serial(false)); arg_f(cx, "faer", true, l, &a, faer(true, 2)); }
            }
        });
        let mut big = vec![];
        for s in [vec![1023usize], vec![1024], vec![1025], vec![3000], vec![32, 32], vec![33, 32], vec![2, 600], vec![600, 2], vec![1, 1100], vec![2, 1100], vec![1100, 2], vec![8, 8, 17], vec![17, 8, 8], vec![2, 3, 200], vec![200, 2, 3], vec![3, 200, 2], vec![3, 1, 400], vec![4, 4, 8, 9]] {
            let mut v = layouts_dev(&s, &ALL_KINDS, if s.len() < 3 { 2 } else { 1 });
            if s.len() > 3 { v.truncate(r.pick(40, 1000)); }
            big.extend(v);
        }
        r.par("parallel", &big, |cx, l| {
            cx.state(l);
            for a in axes_of(l.ndim(), false) {
                for row in [true, false] { arg_f(cx, "faer", row, l, &a, faer(row, 4)); }
                if l.ndim() < 3 { arg_s(cx, "serial", true, l, &a, serial(true)); }
            }
        });
    });
}
