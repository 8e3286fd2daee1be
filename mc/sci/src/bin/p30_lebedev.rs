//! P30: every Lebedev rule has its stated number of points, all on the unit sphere, and integrates every
//! polynomial up to its order exactly.
use core_mc::*;
use rstsr_sci_traits::integrate::lebedev::*;

const RULES: [(usize, usize); 32] = [
    (3, 6), (5, 14), (7, 26), (9, 38), (11, 50), (13, 74), (15, 86), (17, 110), (19, 146), (21, 170), (23, 194),
    (25, 230), (27, 266), (29, 302), (31, 350), (35, 434), (41, 590), (47, 770), (53, 974), (59, 1202), (65, 1454),
    (71, 1730), (77, 2030), (83, 2354), (89, 2702), (95, 3074), (101, 3470), (107, 3890), (113, 4334), (119, 4802),
    (125, 5294), (131, 5810),
];

/// mean of x^a y^b z^c over the unit sphere
fn mean(a: usize, b: usize, c: usize) -> f64 {
    if a % 2 + b % 2 + c % 2 > 0 { return 0.0 }
    // (a-1)!! (b-1)!! (c-1)!! / (a+b+c+1)!!, multiplied up alternately to stay in range
    let mut num: Vec<f64> = [a, b, c].iter().flat_map(|n| (1..*n).step_by(2).map(|x| x as f64)).collect();
    let mut den: Vec<f64> = (1..=a + b + c + 1).step_by(2).map(|x| x as f64).collect();
    num.sort_by(f64::total_cmp);
    den.sort_by(f64::total_cmp);
    let mut r = 1.0;
    while let Some(d) = den.pop() {
        r /= d;
        if let Some(n) = num.pop() { r *= n }
    }
    r
}

fn get(n: usize, by_degree: bool, d: usize, row: bool) -> Result<Option<(Nd<f64>, Nd<f64>)>, String> {
    macro_rules! go {
        ($dev:expr) => {{
            let dev = $dev;
            let r = if by_degree { lebedev_rule_from_degree_f(n, &dev) } else { lebedev_rule_f(n, &dev) };
            match r {
                Err(_) => Ok(None),
                Ok(q) => {
                    let (p, w) = q.into();
                    Ok(Some((logical(&p)?, logical(&w)?)))
                },
            }
        }};
    }
    call(|| if d == 0 { go!(serial(row)) } else { go!(faer(row, d)) }).map_err(|p| format!("panicked: {p}"))?
}

fn main() {
    fw::main("P30", |r| {
        let top = r.pick(200, 6000);
        r.bound(format!("orders and point counts 0 to {top} asked for by order and by number of points, serial and faer devices, both conventions"));
        r.bound("all 32 rules x all monomials with even exponents up to the order of the rule, and all other monomials up to degree 40 (thorough: up to the order)");
        let ns: Vec<usize> = (0..=top).chain(RULES.iter().map(|x| x.1)).chain([usize::MAX]).collect();
        r.par("requests", &ns, |cx, &n| {
            for by_degree in [false, true] {
                for d in [0, 2] {
                    for row in [true, false] {
                        if d > 0 && n > 140 && RULES.iter().all(|x| x.1 != n) { continue }
                        cx.state(&(n, by_degree, d, row));
                        cx.case(format_args!("{} {n}, {} threads, row-major {row}", if by_degree { "points" } else { "order" }, d), || {
                            let want = RULES.iter().find(|x| n == if by_degree { x.1 } else { x.0 });
                            match (get(n, by_degree, d, row)?, want) {
                                (None, None) => Ok(Out::Rej),
                                (None, Some(_)) => Err("rejected".into()),
                                (Some(_), None) => Err("accepted".into()),
                                (Some((p, w)), Some((_, m))) => {
                                    if p.shape != [*m, 3] || w.shape != [*m] { return Err(format!("shapes {:?} {:?}", p.shape, w.shape)) }
                                    let base = get(want.unwrap().0, false, 0, true)?.unwrap();
                                    if base.0.data != p.data || base.1.data != w.data { return Err("differs from the same rule on the serial device".into()) }
                                    Ok(Out::Val)
                                },
                            }
                        });
                    }
                }
            }
        });
        let mut rules = RULES.to_vec();
        rules.reverse();
        r.par("exactness", &rules, |cx, &(order, npts)| {
            let (p, w) = match get(order, false, 0, true) {
                Ok(Some(x)) => x,
                e => {
                    cx.case(format_args!("order {order}"), || Err(format!("no rule: {:?}", e.map(|x| x.is_some()))));
                    return;
                },
            };
            let pts: Vec<[f64; 3]> = p.data.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
            cx.case(format_args!("order {order}: points"), || {
                if pts.len() != npts { return Err(format!("{} points", pts.len())) }
                for (i, x) in pts.iter().enumerate() {
                    let n = x.iter().map(|v| v * v).sum::<f64>();
                    if !((n - 1.0).abs() < 1e-12) { return Err(format!("point {i} {x:?} is not on the sphere")) }
                }
                let mut s: Vec<[i64; 3]> = pts.iter().map(|x| x.map(|v| (v * 1e8).round() as i64)).collect();
                s.sort();
                s.dedup();
                if s.len() != npts { return Err("points occur twice".into()) }
                Ok(Out::Val)
            });
            let odd = r.pick(40, 131).min(order);
            // powers of the coordinates
            let pw: Vec<Vec<f64>> = (0..3).map(|k| pts.iter().flat_map(|x| (0..=order).scan(1.0, move |a, _| { let r = *a; *a *= x[k]; Some(r) })).collect()).collect();
            let s = order + 1;
            for a in 0..=order {
                for b in 0..=order - a {
                    let q: Vec<f64> = (0..npts).map(|i| w.data[i] * pw[0][i * s + a] * pw[1][i * s + b]).collect();
                    for c in 0..=order - a - b {
                        let even = a % 2 + b % 2 + c % 2 == 0;
                        if !even && a + b + c > odd { continue }
                        cx.state(&(order, a, b, c));
                        cx.case(format_args!("order {order}: x^{a} y^{b} z^{c}"), || {
                            let got: f64 = (0..npts).map(|i| q[i] * pw[2][i * s + c]).sum();
                            let want = mean(a, b, c);
                            if (got - want).abs() < 1e-12 { Ok(Out::Val) } else { Err(format!("mean {got:?}, expected {want:?}")) }
                        });
                    }
                }
            }
        });
    });
}
