//! Scopes that the library opens for itself: matrix products and linear algebra leave the count as they found it,
//! whether they succeed, return an error or panic.
use super::*;
use rstsr_core::prelude_dev::*;
use rstsr_linalg_traits::traits_def::*;

/// (shape of a, shape of b, shape of c, kind of values: 0 small, 1 overflowing at once, 2 overflowing in the last batch)
type Mm = (Vec<usize>, Vec<usize>, Vec<usize>, usize);
fn products() -> Vec<Mm> {
    let mut v = vec![];
    let shapes: Vec<[Vec<usize>; 3]> = vec![
        [vec![2], vec![2], vec![]],
        [vec![2, 3], vec![3, 2], vec![2, 2]],
        [vec![3], vec![3, 2], vec![2]],
        [vec![2, 3], vec![3], vec![2]],
        [vec![3], vec![2, 3, 2], vec![2, 2]],
        [vec![2, 2, 3], vec![3], vec![2, 2]],
        [vec![2, 2, 3], vec![3, 2], vec![2, 2, 2]],
        [vec![2, 3], vec![2, 3, 2], vec![2, 2, 2]],
        [vec![2, 2, 3], vec![2, 3, 2], vec![2, 2, 2]],
        [vec![11, 2, 3], vec![11, 3, 2], vec![11, 2, 2]],
        [vec![11, 2, 3], vec![3, 2], vec![11, 2, 2]],
        [vec![11, 2, 3], vec![3], vec![11, 2]],
        // mismatching lengths
        [vec![2], vec![3], vec![]],
        [vec![2, 3], vec![2, 2], vec![2, 2]],
        [vec![2, 2, 3], vec![2, 2, 2], vec![2, 2, 2]],
        [vec![11, 2, 3], vec![11, 2, 2], vec![11, 2, 2]],
        [vec![11, 2, 3], vec![11, 3, 2], vec![10, 2, 2]],
        [vec![2, 2, 3], vec![2, 3, 2], vec![2, 2, 1]],
        [vec![], vec![2], vec![2]],
    ];
    for s in shapes { for k in 0..3 { v.push((s[0].clone(), s[1].clone(), s[2].clone(), k)) } }
    v
}

fn verdict(before: usize, after: usize, r: std::thread::Result<bool>) -> Res {
    if before != after { return Err(format!("the count is {after} afterwards, {before} before; the operation {}", match r { Ok(true) => "succeeds", Ok(false) => "returns an error", Err(_) => "panics" })) }
    Ok(match r { Ok(true) => Out::Val, Ok(false) => Out::Rej, Err(_) => Out::Rej })
}

macro_rules! product {
    ($D:ty, $T:ty, $d:expr, $row:expr, $m:expr) => {{
        let (sa, sb, sc, kind) = $m.clone();
        let (na, nb, nc): (usize, usize, usize) = (sa.iter().product(), sb.iter().product(), sc.iter().product());
        let big = |i: usize, n: usize| kind == 1 || kind == 2 && i + 1 == n;
        let va: Vec<$T> = (0..na).map(|i| if big(i, na) { <$T>::MAX } else { i as $T }).collect();
        let vb: Vec<$T> = (0..nb).map(|i| if big(i, nb) { <$T>::MAX } else { 1 as $T }).collect();
        let mut vc: Vec<$T> = vec![0 as $T; nc];
        let lay = |s: &Vec<usize>| -> Layout<Vec<usize>> { if $row { s.new_c_contig(None) } else { s.new_f_contig(None) } };
        let (la, lb, lc) = (lay(&sa), lay(&sb), lay(&sc));
        catch_unwind(AssertUnwindSafe(|| <$D as DeviceMatMulAPI<$T, $T, $T, Vec<usize>, Vec<usize>, Vec<usize>>>::matmul(&$d, &mut vc, &lc, &va, &la, &vb, &lb, 1 as $T, 0 as $T).is_ok()))
    }};
}

const OPS: [&str; 16] = ["cholesky", "cholesky upper", "inv", "solve_general", "solve_symmetric", "solve_symmetric hermi", "solve_triangular", "slogdet", "det", "eigh", "eigvalsh", "eigh ev", "eigh no driver", "eigh general", "svd", "pinv"];
fn linalg(op: usize, row: bool, a: &[f64], sa: [usize; 2], b: &[f64], sb: [usize; 2]) -> bool {
    let mut d = ob::DeviceBLAS::new(2);
    d.set_default_order(if row { FlagOrder::C } else { FlagOrder::F });
    type TT = Tensor<f64, ob::DeviceBLAS, Ix2>;
    let mk = |v: &[f64], s: [usize; 2]| -> TT { asarray((v.to_vec(), if row { s.c() } else { s.f() }, &d)).into_dim::<Ix2>() };
    let (a, b) = (mk(a, sa), mk(b, sb));
    match op {
        0 => cholesky_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        1 => cholesky_f::<_, ob::DeviceBLAS>((&a, FlagUpLo::U)).is_ok(),
        2 => rstsr_linalg_traits::traits_def::inv_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        3 => solve_general_f::<_, ob::DeviceBLAS>((&a, &b)).is_ok(),
        4 => solve_symmetric_f::<_, ob::DeviceBLAS>((&a, &b, false)).is_ok(),
        5 => solve_symmetric_f::<_, ob::DeviceBLAS>((&a, &b, true)).is_ok(),
        6 => solve_triangular_f::<_, ob::DeviceBLAS>((&a, &b)).is_ok(),
        7 => slogdet_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        8 => det_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        9 => eigh_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        10 => eigvalsh_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        11 => eigh_f::<_, ob::DeviceBLAS>(EighArgs::<ob::DeviceBLAS, f64>::default().a(a.view()).driver("ev")).is_ok(),
        12 => eigh_f::<_, ob::DeviceBLAS>(EighArgs::<ob::DeviceBLAS, f64>::default().a(a.view()).driver("no")).is_ok(),
        13 => eigh_f::<_, ob::DeviceBLAS>((&a, &b)).is_ok(),
        14 => svd_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        15 => pinv_f::<_, ob::DeviceBLAS>(&a).is_ok(),
        _ => unreachable!(),
    }
}

pub fn explore(r: &fw::Runner) {
    r.bound("the library's own scopes: matrix products of all rank combinations on all five devices (batches on several threads not on AOCL and KML; integers and floats, succeeding, overflowing, mismatching), and 16 linear-algebra operations on OpenBLAS over regular, indefinite, singular, non-square, empty and NaN matrices with matching and mismatching right-hand sides");
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let mut items = vec![];
    for l in [OpenBlasThread, Blis, Mkl, Aocl, Kml] { for row in [true, false] { for int in [true, false] { for m in products() {
        // floats never overflow, and only OpenBLAS is there to compute
        if !int && (m.3 > 0 || l != OpenBlasThread) { continue }
        // batches on several threads open scopes on each: what that means for AOCL and KML is not known
        if matches!(l, Aocl | Kml) && m.0.contains(&11) { continue }
        items.push((l, row, int, m));
    } } } }
    r.par("products", &items, |cx, (l, row, int, m)| {
        cx.state(&(format!("{l:?}"), row, int, m));
        let _one_at_a_time = ONE.lock().unwrap_or_else(|e| e.into_inner());
        cx.case(format_args!("product|{l:?}|row={row}|int={int}|{m:?}"), || -> Res {
            macro_rules! on { ($c:ident) => {{
                let mut d = $c::DeviceBLAS::new(2);
                d.set_default_order(if *row { FlagOrder::C } else { FlagOrder::F });
                $c::set_num_threads(5);
                let before = $c::get_num_threads();
                let res = if *int { product!($c::DeviceBLAS, i32, d, *row, m) } else { product!($c::DeviceBLAS, f64, d, *row, m) };
                verdict(before, $c::get_num_threads(), res)
            }}; }
            match l { Blis => on!(bl), Mkl => on!(mk), Aocl => on!(ao), Kml => on!(km), _ => on!(ob) }
        });
    });
    let nan = f64::NAN;
    let mats: Vec<(Vec<f64>, [usize; 2])> = vec![(vec![4., 1., 1., 3.], [2, 2]), (vec![1., 2., 2., 1.], [2, 2]), (vec![1., 2., 2., 4.], [2, 2]), (vec![0.; 4], [2, 2]), (vec![nan; 4], [2, 2]), (vec![1., 2., 3., 4., 5., 6.], [2, 3]), (vec![1., 2., 3., 4., 5., 6.], [3, 2]), (vec![-1.], [1, 1]), (vec![], [0, 0])];
    let rhs: Vec<(Vec<f64>, [usize; 2])> = vec![(vec![2., 0., 0., 1.], [2, 2]), (vec![1., 2., 2., 1.], [2, 2]), (vec![1., 2., 3.], [3, 1]), (vec![3.], [1, 1])];
    let mut items = vec![];
    for op in 0..OPS.len() { for row in [true, false] { for a in &mats { for (k, b) in rhs.iter().enumerate() {
        if k > 0 && !matches!(op, 3..=6 | 13) { continue }
        items.push((op, row, a.clone(), b.clone()));
    } } } }
    r.par("linear algebra", &items, |cx, (op, row, a, b)| {
        cx.state(&(op, row, format!("{a:?}{b:?}")));
        let _one_at_a_time = ONE.lock().unwrap_or_else(|e| e.into_inner());
        cx.case(format_args!("linalg|{}|row={row}|{a:?}|{b:?}", OPS[*op]), || -> Res {
            ob::set_num_threads(5);
            let before = ob::get_num_threads();
            let res = catch_unwind(AssertUnwindSafe(|| linalg(*op, *row, &a.0, a.1, &b.0, b.1)));
            verdict(before, ob::get_num_threads(), res)
        });
    });
    std::panic::set_hook(old);
}
