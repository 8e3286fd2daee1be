//! P27: the printed form of a tensor lists exactly its elements, in the nesting of its shape.
use core_mc::*;
use rstsr_core::format::format_tensor::{MAX_PRINT, MIN_PRINT};
use std::fmt::{Debug, Display, LowerExp, UpperExp};
use std::sync::atomic::Ordering::SeqCst;

/// expected text, without line breaks and indentation; `cut` tells which axes are shortened
fn render(shape: &[usize], cut: &[bool], min: usize, elem: &mut dyn FnMut(&[usize]) -> String) -> String {
    fn shown(n: usize, cut: bool, min: usize) -> Vec<Option<usize>> {
        if !cut || n <= 2 * min { return (0..n).map(Some).collect() }
        (0..min).map(Some).chain([None]).chain((n - min..n).map(Some)).collect()
    }
    fn rec(shape: &[usize], cut: &[bool], min: usize, pre: &mut Vec<usize>, out: &mut String, elem: &mut dyn FnMut(&[usize]) -> String) {
        let k = pre.len();
        let last = k + 1 == shape.len();
        out.push('[');
        for i in shown(shape[k], cut[k], min) {
            match i {
                None => out.push_str(if last { " ..." } else { "..." }),
                Some(i) => {
                    pre.push(i);
                    if last { out.push(' '); out.push_str(&elem(pre)) } else { rec(shape, cut, min, pre, out, elem) }
                    pre.pop();
                },
            }
        }
        out.push(']');
    }
    if shape.is_empty() { return elem(&[]) }
    if shape.contains(&0) { return "[]".into() }
    let mut s = String::new();
    rec(shape, cut, min, &mut vec![], &mut s, elem);
    s
}

/// all texts that are right: between the two limits an axis may be printed in full or shortened
fn allowed(shape: &[usize], min: usize, max: usize, elem: &mut dyn FnMut(&[usize]) -> String) -> Vec<String> {
    let may = |n: usize| n > 2 * min && n >= max;
    let must = |n: usize| n > max.max(2 * min + 1);
    let mut cuts = vec![vec![]];
    for n in shape {
        let o: &[bool] = if must(*n) { &[true] } else if may(*n) { &[false, true] } else { &[false] };
        cuts = cuts.into_iter().flat_map(|c: Vec<bool>| o.iter().map(move |b| { let mut c = c.clone(); c.push(*b); c })).collect();
    }
    cuts.into_iter().map(|c| render(shape, &c, min, elem)).collect()
}

fn squeeze(s: &str) -> String { s.lines().map(|l| l.trim_start_matches(' ')).collect() }

/// every row is on a line of its own, indented to its depth, unless the tensor has no element
fn lines_ok(s: &str, ndim: usize, size: usize) -> Result<(), String> {
    if ndim == 0 || size == 0 { return Ok(()) }
    for l in s.lines().filter(|l| !l.is_empty()) {
        let t = l.trim_start_matches(' ');
        let ind = l.len() - t.len();
        if t.starts_with('[') {
            let b = t.len() - t.trim_start_matches('[').len();
            if ind + b != ndim { return Err(format!("line {l:?} has {b} brackets after {ind} spaces, for {ndim} axes")) }
        } else if t != "..." { return Err(format!("line {l:?}")) }
    }
    Ok(())
}

fn judge(text: &str, shape: &[usize], min: usize, max: usize, elem: &mut dyn FnMut(&[usize]) -> String) -> Res {
    let got = squeeze(text);
    let all = allowed(shape, min, max, elem);
    if !all.contains(&got) { return Err(format!("printed {text:?}, expected (without line breaks) {:?}", all[0])) }
    // a printed scalar may begin with the padding of its width
    lines_ok(text, shape.len(), prod(shape))?;
    Ok(Out::Val)
}

/// every format option, applied to the tensor and to its elements
macro_rules! spec_fns {
    ($name:ident, $bound:path, $($i:literal => $f:literal),*) => {
        fn $name<X: $bound>(k: usize, x: &X) -> Option<String> { match k { $($i => Some(format!($f, x)),)* _ => None } }
    };
}
spec_fns!(disp, Display, 0 => "{}", 1 => "{:6}", 2 => "{:<6}", 3 => "{:^+7.2}", 4 => "{:08.3}", 5 => "{:.0}", 6 => "{:*>9}", 7 => "{:1}");
spec_fns!(lexp, LowerExp, 0 => "{:e}", 1 => "{:14.3e}", 2 => "{:+.0e}");
spec_fns!(uexp, UpperExp, 0 => "{:E}", 1 => "{:<14.3E}", 2 => "{:+.0E}");
spec_fns!(dbg_, Debug, 0 => "{:?}", 1 => "{:6?}", 2 => "{:<+8.2?}");

fn debug_body(s: &str) -> Result<String, String> {
    let b = s.strip_prefix("\n=== Debug Tensor Print ===\n").ok_or(format!("debug output begins {:?}", s.chars().take(60).collect::<String>()))?;
    let p = b.find("\nDevice").or_else(|| b.find("\nFaer")).ok_or("no device in the debug output")?;
    if !b.contains("Type: ") { return Err("no type in the debug output".into()) }
    Ok(b[..p].to_string())
}

fn int_case(l: &Lay, row: bool, form: usize, k: usize, min: usize, max: usize) -> Res {
    let raw: Vec<i64> = (0..l.len as i64).map(|i| if i % 3 == 0 { -i } else { i * 7 }).collect();
    let nd = l.nd(&raw);
    let d = serial(row);
    let t = tensor(raw.clone(), l, &d);
    let text = match form {
        0 => disp(k, &t),
        1 => disp(k, &t.view()),
        2 => disp(k, &t.view().into_cow()),
        3 => { let mut t = t; disp(k, &t.view_mut()) },
        4 => disp(k, &tensor(raw, l, &faer(row, 2))),
        5 => disp(k, &rt::asarray((raw, layout(l), &d)).into_shared()),
        6 => lexp(k, &t),
        7 => uexp(k, &t),
        8 => dbg_(k, &t),
        9 => dbg_(k, &t.view()),
        _ => dbg_(k, &tensor(raw, l, &faer(row, 2))),
    };
    let Some(text) = text else { return Ok(Out::Skip) };
    let text = if form >= 8 { debug_body(&text)? } else { text };
    let one = |i: &[usize]| { let x = nd.at(i); match form { 0..=5 => disp(k, x), 6 => lexp(k, x), 7 => uexp(k, x), _ => dbg_(k, x) }.unwrap() };
    if l.shape.is_empty() {
        // a scalar is printed like a number
        return if text == one(&[]) || (form >= 8 && text.strip_suffix('\n') == Some(&one(&[])[..])) { Ok(Out::Val) } else { Err(format!("scalar printed {text:?}, expected {:?}", one(&[]))) };
    }
    judge(&text, &l.shape, min, max, &mut |i| one(i))
}

fn f64_case(l: &Lay, form: usize, k: usize, min: usize, max: usize) -> Res {
    let set = [0.0, -0.0, 1.5, -2.25, 1e300, 1e-7, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 123456.789];
    let raw: Vec<f64> = (0..l.len).map(|i| set[i * 7 % 10]).collect();
    let nd = l.nd(&raw);
    let t = tensor(raw, l, &serial(true));
    let text = match form { 0 => disp(k, &t), 1 => lexp(k, &t), 2 => uexp(k, &t.view()), _ => dbg_(k, &t) };
    let Some(text) = text else { return Ok(Out::Skip) };
    let text = if form == 3 { debug_body(&text)? } else { text };
    let one = |i: &[usize]| { let x = nd.at(i); match form { 0 => disp(k, x), 1 => lexp(k, x), 2 => uexp(k, x), _ => dbg_(k, x) }.unwrap() };
    if l.shape.is_empty() { return if text == one(&[]) || (form == 3 && text.strip_suffix('\n') == Some(&one(&[])[..])) { Ok(Out::Val) } else { Err(format!("scalar printed {text:?}")) } }
    judge(&text, &l.shape, min, max, &mut |i| one(i))
}

fn main() {
    fw::main("P27", |r| {
        let th = r.thorough();
        r.bound(format!("shapes of 0-{} axes with extents 0-4 in every memory order and axis kind; with the limits (leading/trailing entries, longest full axis) (1-4, 0-10 and unlimited) for extents 0-12; Display, LowerExp, UpperExp and Debug with 17 width, fill, sign and precision options; owned, shared, copy-on-write, views and mutable views on the serial and the parallel device in both conventions; integers and floating-point numbers with infinities, NaN and signed zero", r.pick(3, 4)));
        r.assume("an axis longer than both the full-print limit and twice the number of leading entries plus one is shortened, one not longer than twice that number or below the limit is printed in full; in between both are accepted");
        r.assume("line breaks and blank lines between blocks are not prescribed, but every row begins a line indented to its depth");
        let set = |min: usize, max: usize| { MIN_PRINT.store(min, SeqCst); MAX_PRINT.store(max, SeqCst) };
        // all layouts of small shapes, printed in full
        set(3, 8);
        let small: Vec<Vec<usize>> = shapes(0, 2, &[0, 1, 2, 3, 4]).into_iter().chain(shapes(3, 3, &[0, 1, 2, 3])).chain(if th { shapes(4, 4, &[0, 1, 2]) } else { vec![] }).collect();
        r.par("layouts", &small, |cx, s| {
            for l in layouts_full(s, &ALL_KINDS) {
                cx.state(&l);
                for row in [true, false] { for form in 0..11 {
                    for k in if th || l.offset == 0 { 0..8 } else { 0..2 } {
                        if form > 5 && k > 2 { continue }
                        cx.case(format_args!("full|{l:?}|row={row}|form={form}|option={k}"), || int_case(&l, row, form, k, 3, 8));
                    }
                }}
                for form in 0..4 { for k in 0..8 {
                    if form > 0 && k > 2 { continue }
                    cx.case(format_args!("float|{l:?}|form={form}|option={k}"), || f64_case(&l, form, k, 3, 8));
                }}
            }
        });
        // the limits
        let ext: Vec<usize> = (0..=12).collect();
        let few = [1usize, 2, 5, 6, 7, 8, 9, 10];
        let mut long: Vec<Vec<usize>> = shapes(1, 2, &ext);
        long.extend(shapes(3, 3, if th { &few } else { &few[1..6] }));
        for min in 1..=r.pick(3, 4) { for &max in if th { &[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, usize::MAX][..] } else { &[0, 2, 3, 5, 6, 8, 10, usize::MAX] } {
            set(min, max);
            r.par(&format!("limits {min} {max}"), &long, |cx, s| {
                for l in layouts_dev(s, &ALL_KINDS, if th { 2 } else { 1 }) {
                    if !cx.state(&(&l, min, max)) { continue }
                    for form in [0, 8] { cx.case(format_args!("limits|{min}|{max}|{l:?}|form={form}"), || int_case(&l, true, form, 0, min, max)) }
                }
            });
        }}
        // long output must not exhaust the stack
        set(3, usize::MAX);
        let deep: Vec<Vec<usize>> = vec![vec![60_000, 1], vec![300, 200, 2], vec![100_000]];
        r.par_n("long output", &deep, 1, |cx, s| {
            let l = c_contig(s);
            cx.state(&l);
            for form in [0, 6, 8] { cx.case(format_args!("long|{s:?}|form={form}"), || int_case(&l, true, form, 0, 3, usize::MAX)) }
        });
        set(3, 8);
    });
}
