//! P31: einsum and tensordot equal the definition by sums over labels. The tensor operations of the TBLIS library
//! are done by a stand-in (tblis.c).
use core_mc::*;
use rstsr_common::prelude_dev::AxesPairIndex;
use rstsr_tblis::einsum_impl::*;
use rstsr_tblis::tensordot_impl::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

trait Num: tblis::prelude::TblisFloatAPI + PartialEq + Debug + Send + Sync + 'static {
    fn of(re: i64, im: i64) -> Self;
    fn junk() -> Self;
    fn name() -> &'static str;
}
macro_rules! num {
    ($($t:ty, $re:ident, $im:ident, $e:expr, $j:expr;)*) => { $(impl Num for $t {
        fn of($re: i64, $im: i64) -> Self { $e }
        fn junk() -> Self { $j }
        fn name() -> &'static str { stringify!($t) }
    })* };
}
num! {
    f64, re, _im, re as f64, f64::NAN;
    f32, re, _im, re as f32, f32::NAN;
    Complex<f64>, re, im, Complex::new(re as f64, im as f64), Complex::new(f64::NAN, f64::NAN);
    Complex<f32>, re, im, Complex::new(re as f32, im as f32), Complex::new(f32::NAN, f32::NAN);
}

#[derive(Clone, Debug, PartialEq)]
struct Spec { ins: Vec<String>, out: Option<String> }
impl Spec {
    fn text(&self) -> String {
        let s = self.ins.join(",");
        match &self.out { Some(o) => format!("{s}->{o}"), None => s }
    }
    /// labels that occur once, in alphabetical order, if no output is given
    fn output(&self) -> String {
        self.out.clone().unwrap_or_else(|| {
            let mut n = BTreeMap::new();
            for c in self.ins.iter().flat_map(|s| s.chars()) { *n.entry(c).or_insert(0) += 1 }
            n.into_iter().filter(|x| x.1 == 1).map(|x| x.0).collect()
        })
    }
}

/// None: must be rejected
fn model<T: Num>(s: &Spec, ops: &[Nd<T>]) -> Option<Nd<T>> {
    if s.ins.len() != ops.len() { return None }
    let out: Vec<char> = s.output().chars().collect();
    let mut size: BTreeMap<char, usize> = BTreeMap::new();
    let ins: Vec<Vec<char>> = s.ins.iter().map(|x| x.chars().collect()).collect();
    for (l, o) in ins.iter().zip(ops) {
        if l.len() != o.ndim() { return None }
        for (c, n) in l.iter().zip(&o.shape) { if *size.entry(*c).or_insert(*n) != *n { return None } }
    }
    for (i, c) in out.iter().enumerate() { if !size.contains_key(c) || out[..i].contains(c) { return None } }
    let summed: Vec<char> = size.keys().copied().filter(|c| !out.contains(c)).collect();
    let sums: Vec<usize> = summed.iter().map(|c| size[c]).collect();
    let shape: Vec<usize> = out.iter().map(|c| size[c]).collect();
    // position of every label of every operand: in the output index or in the sum
    let wher: Vec<Vec<(bool, usize)>> = ins.iter().map(|l| l.iter().map(|c| match out.iter().position(|x| x == c) { Some(k) => (true, k), None => (false, summed.iter().position(|x| x == c).unwrap()) }).collect()).collect();
    Some(Nd::from_fn(&shape, |i| {
        let mut acc = T::of(0, 0);
        each_index(&sums, |q| {
            let mut p = T::of(1, 0);
            for (o, w) in ops.iter().zip(&wher) {
                let at: Vec<usize> = w.iter().map(|&(f, k)| if f { i[k] } else { q[k] }).collect();
                p = p * *o.at(&at);
            }
            acc = acc + p;
        });
        acc
    }))
}

fn raw<T: Num>(len: usize, k: usize) -> Vec<T> { (0..len).map(|p| T::of((p as i64 * 7919 + 5 * k as i64 + 3) % 13 - 6, (p as i64 * 31 + k as i64) % 7 - 3)).collect() }

/// what was given as output: junk around the view has to stay
fn untouched<T: Num>(raw: &[T], lc: &Lay, written: bool) -> Result<(), String> {
    let rest: std::collections::HashSet<usize> = if written { lc.positions().into_iter().collect() } else { Default::default() };
    for (p, x) in raw.iter().enumerate() {
        if !rest.contains(&p) && format!("{x:?}") != format!("{:?}", T::junk()) { return Err(format!("position {p} of the output's buffer was changed to {x:?}")) }
    }
    Ok(())
}
fn judge<T: Num>(res: Result<(), String>, t: &Tensor<T, DeviceFaer, IxD>, lc: &Lay, want: Option<Nd<T>>) -> Res {
    match (res, want.filter(|w| w.shape == lc.shape)) {
        (Ok(()), Some(w)) => { check_t(t, &w)?; untouched(t.raw(), lc, true)?; Ok(Out::Val) },
        (Err(_), None) => { untouched(t.raw(), lc, false)?; Ok(Out::Rej) },
        (Ok(()), None) => Err(format!("accepted, output shape {:?}", lc.shape)),
        (Err(e), Some(w)) => Err(format!("rejected with {e}, expected {w:?}")),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Path { Auto, Off, Greedy, Optimal }

fn einsum_case<T: Num>(cx: &mut Cx, s: &Spec, ls: &[Lay], lc: Option<&Lay>, row: bool, path: Path) {
    cx.state(&(s.text(), format!("{ls:?}{lc:?}"), row, path as u8, T::name()));
    cx.case(format_args!("einsum|{}|{}|row={row}|{path:?}|{ls:?}|out={lc:?}", s.text(), T::name()), || {
        let d = faer(row, 2);
        let raws: Vec<Vec<T>> = ls.iter().enumerate().map(|(k, l)| raw(l.len, k)).collect();
        let nds: Vec<Nd<T>> = ls.iter().zip(&raws).map(|(l, r)| l.nd(r)).collect();
        let want = model(s, &nds);
        // three and more operands at once are not possible
        let may_fail = path == Path::Off && s.ins.len() > 2;
        let ts: Vec<_> = ls.iter().zip(raws).map(|(l, r)| tensor(r, l, &d)).collect();
        let vs: Vec<_> = ts.iter().map(|t| t.view()).collect();
        let txt = s.text();
        let Some(lc) = lc else {
            let r = match path { Path::Auto => einsum_f(&txt, vs, true, None), Path::Off => einsum_f(&txt, vs, false, None), Path::Greedy => einsum_f(&txt, vs, "greedy", None), Path::Optimal => einsum_f(&txt, vs, "optimal", None) };
            if may_fail && r.is_err() { return Ok(Out::Rej) }
            return expect(r, want.as_ref());
        };
        let mut tc = tensor(vec![T::junk(); lc.len], lc, &d);
        let r = match path {
            Path::Auto => einsum_with_output_f(&txt, vs, true, None, tc.view_mut()),
            Path::Off => tc.einsum_from_f(&txt, vs, false, None),
            Path::Greedy => einsum_with_output(&txt, vs, "greedy", None, tc.view_mut()),
            Path::Optimal => tc.einsum_from_f(&txt, vs, "optimal", None),
        };
        if may_fail && r.is_err() { return Ok(Out::Rej) }
        judge(r.map_err(|e| format!("{e:?}")), &tc, lc, want)
    });
}

#[derive(Clone, Debug, PartialEq)]
enum Ax { None, Val(isize), Pair(Vec<isize>, Vec<isize>) }

fn norm(axes: &[isize], nd: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    for &a in axes {
        let a = if a < 0 { a + nd as isize } else { a };
        if a < 0 || a >= nd as isize || v.contains(&(a as usize)) { return None }
        v.push(a as usize);
    }
    Some(v)
}
fn dot_model<T: Num>(a: &Nd<T>, b: &Nd<T>, ax: &Ax) -> Option<Nd<T>> {
    let (na, nb) = (a.ndim(), b.ndim());
    let last = |n: usize| if n > na || n > nb { None } else { Some(((na - n..na).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>())) };
    let (xa, xb) = match ax {
        Ax::None => last(2)?,
        Ax::Val(n) => last(usize::try_from(*n).ok()?)?,
        Ax::Pair(x, y) => (norm(x, na)?, norm(y, nb)?),
    };
    if xa.len() != xb.len() { return None }
    let mut la: Vec<char> = (0..na).map(|i| (b'a' + i as u8) as char).collect();
    let lb: Vec<char> = (0..nb).map(|i| (b'n' + i as u8) as char).collect();
    let out: String = (0..na).filter(|i| !xa.contains(i)).map(|i| la[i]).chain((0..nb).filter(|i| !xb.contains(i)).map(|i| lb[i])).collect();
    for (i, j) in xa.iter().zip(&xb) { la[*i] = lb[*j] }
    model(&Spec { ins: vec![la.into_iter().collect(), lb.into_iter().collect()], out: Some(out) }, &[a.clone(), b.clone()])
}
fn dot_case<T: Num>(cx: &mut Cx, ax: &Ax, la: &Lay, lb: &Lay, lc: Option<&Lay>, row: bool) {
    cx.state(&(format!("{ax:?}{la:?}{lb:?}{lc:?}"), row, T::name()));
    cx.case(format_args!("tensordot|{ax:?}|{}|row={row}|{la:?} {lb:?}|out={lc:?}", T::name()), || {
        let d = faer(row, 2);
        let (ra, rb): (Vec<T>, Vec<T>) = (raw(la.len, 0), raw(lb.len, 1));
        let want = dot_model(&la.nd(&ra), &lb.nd(&rb), ax);
        let (ta, tb) = (tensor(ra, la, &d), tensor(rb, lb, &d));
        let arg = || match ax {
            Ax::None => AxesPairIndex::None,
            Ax::Val(v) => AxesPairIndex::Val(*v),
            Ax::Pair(x, y) => AxesPairIndex::Pair(AxesIndex::Vec(x.clone()), AxesIndex::Vec(y.clone())),
        };
        let Some(lc) = lc else { return expect(tensordot_f(&ta, &tb, arg()), want.as_ref()) };
        let mut tc = tensor(vec![T::junk(); lc.len], lc, &d);
        let r = tensordot_with_output_f(&ta, &tb, arg(), tc.view_mut());
        judge(r.map_err(|e| format!("{e:?}")), &tc, lc, want)
    });
}

/// words of n labels over `have` labels already used, new labels in order of first use, at most `max`
fn grow(n: usize, have: usize, max: usize) -> Vec<(String, usize)> {
    if n == 0 { return vec![(String::new(), have)] }
    let mut v = vec![];
    for k in 0..(have + 1).min(max) {
        for (w, h) in grow(n - 1, have.max(k + 1), max) { v.push((format!("{}{w}", LABEL[k]), h)) }
    }
    v
}
const LABEL: [char; 5] = ['i', 'j', 'k', 'l', 'm'];
const EXTENT: [usize; 5] = [2, 3, 2, 1, 2];
fn specs(ranks: &[usize], max: usize, all_outputs: bool) -> Vec<Spec> {
    let mut v = vec![];
    for (w, h) in grow(ranks.iter().sum(), 0, max) {
        let cs: Vec<char> = w.chars().collect();
        let mut ins = vec![];
        let mut p = 0;
        for &r in ranks { ins.push(cs[p..p + r].iter().collect::<String>()); p += r }
        v.push(Spec { ins: ins.clone(), out: None });
        for sub in subsets(h) {
            for (k, pm) in permutations(sub.len()).into_iter().enumerate() {
                if k > 0 && !all_outputs && k + 1 < permutations(sub.len()).len() { continue }
                v.push(Spec { ins: ins.clone(), out: Some(pm.iter().map(|&i| LABEL[sub[i]]).collect()) });
            }
        }
    }
    v
}
fn shape(l: &str) -> Vec<usize> { l.chars().map(|c| EXTENT[LABEL.iter().position(|x| *x == c).unwrap()]).collect() }
const KINDS: [Axis; 5] = [STEP, FLIP, FLIPSTEP, BCAST, PAD];
/// every combination of layouts with at most one operand away from contiguous
fn choices(shapes: &[Vec<usize>], dev: usize) -> Vec<Vec<Lay>> {
    let mut v = vec![shapes.iter().map(|s| c_contig(s)).collect::<Vec<_>>()];
    for (k, s) in shapes.iter().enumerate() {
        for l in layouts_dev(s, &KINDS, dev) {
            let mut c: Vec<Lay> = shapes.iter().map(|s| f_contig(s)).collect();
            c[k] = l;
            if !v.contains(&c) { v.push(c) }
        }
    }
    v
}

fn main() {
    fw::main("P31", |r| {
        r.assume("the tensor operations of the TBLIS library compute C = beta C + alpha sum over the labels that C lacks (stand-in: the library is not here); values are small integers, so that every order of summation is exact; arrays without elements are left out, as TBLIS does not allow them");
        let rows = [true, false];
        // one and two operands: every expression, every layout
        let mut items = vec![];
        for n in 1..=4 { for s in specs(&[n], 4, true) { items.push((s, if n < 4 { 2 } else { 1 })) } }
        let two: &[[usize; 2]] = &[[0, 0], [0, 1], [1, 0], [0, 2], [2, 0], [1, 1], [1, 2], [2, 1], [2, 2], [3, 1], [1, 3]];
        for n in two { for s in specs(n, 4, true) { items.push((s, 1)) } }
        for n in [[3, 2], [2, 3]] { for s in specs(&n, r.pick(4, 5), r.thorough()) { items.push((s, 1)) } }
        if r.thorough() { for s in specs(&[3, 3], 5, false) { items.push((s, 1)) } }
        r.bound(format!("einsum of one operand of rank 1 to 4 and of two operands of rank 0 to 3: {} expressions (all patterns of labels including repeated ones, all outputs - for rank 3 with 2 the sorted and the reversed ones -, given or implied), each with every layout within one deviation (one operand: two) of contiguous of each operand; both conventions; with and without output", items.len()));
        r.par("one and two", &items, |cx, (s, dev)| {
            let sh: Vec<Vec<usize>> = s.ins.iter().map(|l| shape(l)).collect();
            let so = shape(&s.output());
            for (n, c) in choices(&sh, *dev).iter().enumerate() {
                for row in rows {
                    einsum_case::<f64>(cx, s, c, None, row, if n % 2 == 0 { Path::Auto } else { Path::Off });
                    if n == 0 || n % 7 == 3 { einsum_case::<f64>(cx, s, c, Some(&if row == (n % 2 == 0) { c_contig(&so) } else { f_contig(&so) }), row, [Path::Auto, Path::Off, Path::Greedy, Path::Optimal][n % 4]) }
                }
            }
            let c: Vec<Lay> = sh.iter().map(|s| f_contig(s)).collect();
            for row in rows {
                einsum_case::<f32>(cx, s, &c, None, row, Path::Auto);
                einsum_case::<Complex<f64>>(cx, s, &c, None, row, Path::Auto);
                einsum_case::<Complex<f32>>(cx, s, &c, Some(&c_contig(&so)), row, Path::Auto);
            }
        });
        // layouts of the output
        let sp = |t: &str| -> Spec { let (a, b) = t.split_once("->").unwrap(); Spec { ins: a.split(',').map(|x| x.into()).collect(), out: Some(b.into()) } };
        let list: Vec<Spec> = ["i->", "ii->", "ij->i", "ij->ji", "ii->i", "ijk->kji", "i,i->", "i,j->ij", "i,j->ji", "ij,jk->ik", "ij,jk->ki", "ij,ij->ij", "ij,jk->", "ijk,kl->jil", "ij,jk,kl->il", "i,j,k->kij", ",i->i", "ij,->ji"].iter().map(|t| sp(t)).collect();
        r.bound("outputs in every layout within two deviations of contiguous for 18 expressions, and of every other shape with as many axes or one more or less and extents 1 to 3 (to be rejected and left as it was)");
        r.par("outputs", &list, |cx, s| {
            let c: Vec<Lay> = s.ins.iter().map(|l| c_contig(&shape(l))).collect();
            let so = shape(&s.output());
            for (n, lc) in layouts_dev(&so, &[STEP, FLIP, FLIPSTEP, PAD], 2).iter().enumerate() {
                for row in rows { einsum_case::<f64>(cx, s, &c, Some(lc), row, [Path::Auto, Path::Optimal, Path::Greedy][n % 3]) }
                einsum_case::<Complex<f64>>(cx, s, &c, Some(lc), true, Path::Auto);
            }
            for w in shapes(so.len().saturating_sub(1), so.len() + 1, &[1, 2, 3]) {
                if w != so { for row in rows { einsum_case::<f64>(cx, s, &c, Some(&c_contig(&w)), row, Path::Auto) } }
            }
        });
        // more operands
        let mut items = vec![];
        for n in [[1, 1, 1], [1, 2, 1], [2, 1, 2], [2, 2, 1], [1, 2, 2], [2, 2, 2]] { for s in specs(&n, r.pick(3, 4), r.thorough()) { items.push(s) } }
        for s in specs(&[1, 1, 2, 1], 3, false) { items.push(s) }
        if r.thorough() { for s in specs(&[2, 2, 2, 2], 4, false) { items.push(s) } }
        r.bound(format!("three and four operands of rank 1 and 2: {} expressions, contiguous in both orders, all ways to choose the order of the contractions", items.len()));
        r.par("more operands", &items, |cx, s| {
            for row in rows {
                for path in [Path::Auto, Path::Off, Path::Greedy, Path::Optimal] {
                    let c: Vec<Lay> = s.ins.iter().enumerate().map(|(k, l)| if k % 2 == path as usize % 2 { c_contig(&shape(l)) } else { f_contig(&shape(l)) }).collect();
                    einsum_case::<f64>(cx, s, &c, None, row, path);
                    if path == Path::Auto { einsum_case::<f64>(cx, s, &c, Some(&f_contig(&shape(&s.output()))), row, path) }
                }
            }
        });
        // what does not fit together
        let mut items: Vec<(Spec, Vec<Vec<usize>>)> = vec![];
        let exprs = ["i->i", "ij->ji", "ij->", "ii->i", "i,i->i", "i,i->", "i,j->ij", "ij,jk->ik", "ij,ij->ij", "ij,j->i", "ij,kj->ik", "ij,jk,kl->il", "i->j", "i->ii", "ij->ijk", "i,j->ijk", "i,j->iji", "i,i->j"];
        let small = shapes(0, 2, &[1, 2, 3]);
        for e in exprs {
            let s = sp(e);
            for n in 0..=(s.ins.len() + 1).min(3) {
                for w in words(&small, n) { if w.len() == s.ins.len() || w.iter().all(|x| x.len() < 2) { items.push((s.clone(), w)) } }
            }
        }
        r.bound("all combinations of shapes of rank up to 2 with extents 1 to 3, and of 0 to 3 operands, for 18 expressions, valid or not: those that do not fit must be rejected (an extent of 1 against a longer one may be)");
        r.par("misfits", &items, |cx, (s, w)| {
            if w.is_empty() {
                return cx.case(format_args!("none|{}", s.text()), || {
                    let v: Vec<TensorView<f64, DeviceFaer>> = vec![];
                    if einsum_f(&s.text(), v, true, None).is_ok() { Err("accepted without operands".into()) } else { Ok(Out::Rej) }
                });
            }
            let c: Vec<Lay> = w.iter().map(|x| c_contig(x)).collect();
            for row in rows { einsum_case::<f64>(cx, s, &c, None, row, Path::Auto) }
        });
        // tensordot
        let mut items = vec![];
        let all = shapes(0, 3, &[2, 3]);
        for a in &all { for b in &all { items.push((a.clone(), b.clone())) } }
        for (a, b) in [(vec![2, 3, 2, 2], vec![2, 2]), (vec![2, 2], vec![2, 3, 2, 2]), (vec![2, 1, 3], vec![3, 1]), (vec![1, 1], vec![1]), (vec![2, 1], vec![2, 2])] { items.push((a, b)) }
        r.bound(format!("tensordot: {} pairs of shapes (all of rank 0 to 3 with extents 2 and 3, and some of rank 4), numbers of axes -1 to 4, every pairing of axes in every order, counted from the front and from the back, unequally many, repeated and not existing ones; both conventions; layouts of operands and output within one deviation for the small ones", items.len()));
        r.par("tensordot", &items, |cx, (a, b)| {
            let (na, nb) = (a.len(), b.len());
            let mut axs = vec![Ax::None];
            for n in -1..=4 { axs.push(Ax::Val(n)) }
            let orders = |n: usize| -> Vec<Vec<isize>> { subsets(n).into_iter().flat_map(|s| permutations(s.len()).into_iter().map(move |p| p.iter().map(|&i| s[i] as isize).collect())).collect() };
            for x in orders(na) { for y in orders(nb) {
                axs.push(Ax::Pair(x.clone(), y.clone()));
                if x.len() == y.len() && !x.is_empty() { axs.push(Ax::Pair(x.iter().map(|i| i - na as isize).collect(), y.iter().enumerate().map(|(k, i)| if k == 0 { i - nb as isize } else { *i }).collect())) }
            } }
            axs.push(Ax::Pair(vec![0, 0], vec![0, 1]));
            axs.push(Ax::Pair(vec![0, -(na as isize)], vec![0, 0]));
            axs.push(Ax::Pair(vec![na as isize], vec![0]));
            axs.push(Ax::Pair(vec![0], vec![-(nb as isize) - 1]));
            for ax in &axs {
                let z = |s: &[usize]| Nd::from_fn(s, |_| 0f64);
                let so = dot_model(&z(a), &z(b), ax).map(|n| n.shape);
                for row in rows {
                    dot_case::<f64>(cx, ax, &c_contig(a), &f_contig(b), None, row);
                    if let Some(so) = &so { dot_case::<f64>(cx, ax, &c_contig(a), &c_contig(b), Some(&f_contig(so)), row) } else { dot_case::<f64>(cx, ax, &c_contig(a), &c_contig(b), Some(&f_contig(&[2])), row) }
                    if let (Some(so), true) = (&so, na + nb <= 4 && na < 3 && nb < 3) {
                        for c in choices(&[a.clone(), b.clone()], 1) { dot_case::<f64>(cx, ax, &c[0], &c[1], None, row) }
                        for lc in layouts_dev(so, &[STEP, FLIP, FLIPSTEP, PAD], 1) { dot_case::<Complex<f64>>(cx, ax, &c_contig(a), &c_contig(b), Some(&lc), row) }
                    }
                }
                dot_case::<Complex<f32>>(cx, ax, &f_contig(a), &c_contig(b), None, true);
            }
        });
    });
}
