//! Floating point functions against the mathematical ones.
use crate::fw::*;
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::num::checked::CheckedNum;

extern "C" {
    fn tgamma(x: f64) -> f64;
}

pub type F1 = fn(f64) -> f64;

/// Name, mathematical function, snaps near integers.
pub fn unary_table() -> Vec<(&'static str, F1)> {
    fn rad(x: f64) -> f64 {
        // exact at the multiples of 90
        x.to_radians()
    }
    fn sin(x: f64) -> f64 {
        let r = x % 360.0;
        match r {
            _ if r % 180.0 == 0.0 => 0.0,
            _ if r == 90.0 || r == -270.0 => 1.0,
            _ if r == -90.0 || r == 270.0 => -1.0,
            _ => rad(r).sin(),
        }
    }
    fn cos(x: f64) -> f64 {
        let r = (x % 360.0).abs();
        match r {
            _ if r == 90.0 || r == 270.0 => 0.0,
            _ if r == 0.0 => 1.0,
            _ if r == 180.0 => -1.0,
            _ => rad(r).cos(),
        }
    }
    vec![
        ("sin", sin),
        ("cos", cos),
        ("tan", |x| sin(x) / cos(x)),
        ("csc", |x| 1.0 / sin(x)),
        ("sec", |x| 1.0 / cos(x)),
        ("cot", |x| cos(x) / sin(x)),
        ("asin", |x| x.asin().to_degrees()),
        ("acos", |x| x.acos().to_degrees()),
        ("atan", |x| x.atan().to_degrees()),
        ("acsc", |x| (1.0 / x).asin().to_degrees()),
        ("asec", |x| (1.0 / x).acos().to_degrees()),
        ("acot", |x| (1.0 / x).atan().to_degrees()),
        ("sinh", f64::sinh),
        ("cosh", f64::cosh),
        ("tanh", f64::tanh),
        ("csch", |x| 1.0 / x.sinh()),
        ("sech", |x| 1.0 / x.cosh()),
        ("coth", |x| 1.0 / x.tanh()),
        ("asinh", |x| x.asinh().to_degrees()),
        ("acosh", |x| x.acosh().to_degrees()),
        ("atanh", |x| x.atanh().to_degrees()),
        ("acsch", |x| (1.0 / x).asinh().to_degrees()),
        ("asech", |x| (1.0 / x).acosh().to_degrees()),
        ("acoth", |x| (1.0 / x).atanh().to_degrees()),
        ("sqrt", f64::sqrt),
        ("exp", f64::exp),
        ("ln", f64::ln),
        ("log", f64::log10),
        ("to_radians", |x| x / 180.0 * std::f64::consts::PI),
        ("to_degrees", |x| x * 180.0 / std::f64::consts::PI),
        ("floor", f64::floor),
        ("ceil", f64::ceil),
        ("truncate", f64::trunc),
        ("round", f64::round),
        ("sign", |x| if x == 0.0 { 0.0 } else { x.signum() }),
        ("abs", f64::abs),
    ]
}

const TOL: f64 = 1e-12;

/// These are not approximated.
const EXACT: [&str; 6] = ["floor", "ceil", "truncate", "round", "sign", "abs"];

const EPS: f64 = 1e-13;

/// Is `got` an acceptable value of `f(x)`?
pub fn accept(f: F1, x: f64, got: Option<f64>) -> bool {
    let mut cand = vec![x, x * (1.0 + EPS), x * (1.0 - EPS)];
    if (x - x.round()).abs() < 2e-10 {
        cand.push(x.round());
    }
    let vals: Vec<f64> = cand.iter().map(|c| f(*c)).collect();
    // a value next to an integer may be that integer
    let v = vals[0];
    if v.is_finite() && (v - v.round()).abs() < 2e-10 && got == Some(v.round()) {
        return true;
    }
    within(&vals, got)
}

fn within(vals: &[f64], got: Option<f64>) -> bool {
    let undefined = vals.iter().any(|v| !v.is_finite());
    let finite: Vec<f64> = vals.iter().copied().filter(|v| v.is_finite()).collect();
    match got {
        Some(g) if g.is_finite() => {
            // a pole may be missed by the rounding of the argument
            if undefined && finite.is_empty() {
                return vals.iter().any(|v| v.is_infinite()) && g.abs() > 1e9;
            }
            let lo = finite.iter().copied().fold(f64::INFINITY, f64::min);
            let hi = finite.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            let t = TOL * (1.0 + lo.abs().max(hi.abs()));
            (g >= lo - t && g <= hi + t) || (undefined && g.abs() > 1e9)
        }
        _ => undefined,
    }
}

fn grid(run: &Run) -> Vec<f64> {
    let mut g = Vec::new();
    let d = run.pick(16384, 131072);
    for k in -(2 * d)..=2 * d {
        g.push(k as f64 / d as f64); // [-2, 2]
    }
    let lim = run.pick(36000, 400000);
    for k in -lim..=lim {
        for f in [0.0, 0.25, 0.5, 0.9] {
            g.push(k as f64 + f);
        }
    }
    for e in -300..=300i32 {
        for m in [1.0, 3.7] {
            let v = m * 10f64.powi(e);
            g.push(v);
            g.push(-v);
        }
    }
    for k in [15.0, 30.0, 45.0, 60.0, 90.0, 180.0, 270.0, 360.0] {
        for n in -8..=8 {
            g.push(k * n as f64);
            g.push(k * n as f64 + 1e-11);
        }
    }
    g.extend(super::total::f64_grid());
    g.sort_by(|a, b| a.total_cmp(b));
    g.dedup_by(|a, b| a.to_bits() == b.to_bits());
    g
}

const ANGLES: [&str; 6] = ["sin", "cos", "tan", "csc", "sec", "cot"];

pub fn c15(run: &Run) {
    let grid = grid(run);
    let table = unary_table();
    run.bound("functions", table.iter().map(|t| t.0).chain(["log(x, base)", "atan(y, x)", "^", "!", "/", "mod", "+", "-", "*", "sum", "product", "avg", "max", "min"]).collect::<Vec<_>>());
    run.bound("f64 grid points", grid.len() as u64);
    run.assume("a value outside of the domain may give an error or a non finite number; results are compared with a relative error of 1e-9 and the argument may be taken as the integer closer than 2e-10");
    run.assume("the standard library and libm are the reference of the elementary functions and of gamma");
    run.par(
        &grid,
        || (DefaultContext::<f64>::new_checked(), DefaultContext::<f64>::new_unchecked()),
        |w, (ctx, unc), x| {
            let x = *x;
            w.states += 1;
            w.begin(&format!("[f64] unary functions of {:?}", x));
            for (name, f) in &table {
                if ANGLES.contains(name) && x.abs() > 1e13 {
                    continue;
                }
                for (c, tag) in [(&*ctx, "f64"), (&*unc, "f64 unchecked")] {
                    let real = match c.get_function(name) {
                        Some(f) => f,
                        None => {
                            if tag == "f64" {
                                w.violation(format!("[{}] {}", tag, name), "the function is not defined");
                            }
                            continue;
                        }
                    };
                    w.transitions += 1;
                    w.traces += 1;
                    let got = guard(|| real.call(&[x]).ok());
                    let ok = match &got {
                        Ok(g) if !x.is_finite() => g.map_or(true, |g| !g.is_finite() || !x.is_nan()),
                        // next to a pole the result may be considered infinite
                        Ok(None) if ANGLES.contains(name) && f(x).abs() > 1e9 => true,
                        Ok(g) if EXACT.contains(name) => *g == Some(f(x)) || (x - x.round()).abs() < 2e-10 && *g == Some(f(x.round())),
                        Ok(g) => accept(*f, x, *g),
                        Err(_) => false,
                    };
                    if !ok {
                        w.violation(format!("[{}] {}({:?})", tag, name, x), format!("{:?} instead of {:?}", got, f(x)));
                    }
                }
            }
            // factorial
            let f = ctx.get_unary_function("!").expect("operator is not defined");
            let got = guard(|| f.call(x).ok());
            w.traces += 1;
            w.transitions += 1;
            let ok = match &got {
                Err(_) => false,
                Ok(g) if x < 0.0 => g.is_none(),
                Ok(g) if x <= 200.0 => {
                    // SAFETY: pure function of libm.
                    let t = unsafe { tgamma(x + 1.0) };
                    match g {
                        Some(g) if t.is_finite() && g.is_finite() => (g - t).abs() <= 1e-9 * t.abs(),
                        Some(g) => !t.is_finite() && !g.is_finite() || t > 1e305 && !g.is_finite(),
                        None => !t.is_finite(),
                    }
                }
                Ok(g) => g.map_or(true, |g| !g.is_finite()),
            };
            if !ok {
                w.violation(format!("[f64] ({:?})!", x), format!("{:?}", got));
            }
            w.end();
        },
    );
    // two operands
    let mut g2: Vec<f64> = vec![];
    for k in -24..=24 {
        g2.push(k as f64 * 0.5);
    }
    for v in [1e-300, 1e-12, 0.1, 0.3, 1.0 / 3.0, 2.718281828, 10.0, 37.0, 90.0, 100.0, 255.0, 1024.0, 1e10, 1e16, 1e300, f64::MAX, f64::MIN_POSITIVE] {
        g2.push(v);
        g2.push(-v);
    }
    g2.push(-0.0);
    if run.thorough() {
        for k in 1..200 {
            g2.push(k as f64 * 0.37);
            g2.push(k as f64 * -1.3);
            g2.push((k as f64 * 0.7 - 70.0).exp());
        }
    }
    run.bound("f64 pairs", (g2.len() * g2.len()) as u64);
    run.par(&g2, DefaultContext::<f64>::new_checked, |w, ctx, a| {
        let a = *a;
        w.begin(&format!("[f64] binary operations with first operand {:?}", a));
        for b in &g2 {
            let b = *b;
            w.states += 1;
            let near = |f: fn(f64, f64) -> f64| -> Vec<f64> {
                vec![f(a, b), f(a * (1.0 + EPS), b), f(a * (1.0 - EPS), b), f(a, b * (1.0 + EPS)), f(a, b * (1.0 - EPS))]
            };
            let exact = |v: f64| vec![v];
            let cases: Vec<(&str, bool, Vec<f64>)> = vec![
                ("+", true, exact(a + b)),
                ("-", true, exact(a - b)),
                ("*", true, exact(a * b)),
                ("/", true, exact(if b == 0.0 { f64::NAN } else { a / b })),
                ("mod", true, exact(if b == 0.0 { f64::NAN } else { a % b })),
                ("^", true, near(f64::powf)),
                ("log", false, if a <= 0.0 || b <= 0.0 || b == 1.0 { vec![f64::NAN] } else { near(|x, b| x.ln() / b.ln()) }),
                ("atan", false, if a == 0.0 && b == 0.0 { vec![f64::NAN] } else { exact(a.atan2(b).to_degrees()) }),
                ("sum", false, exact(a + b)),
                ("product", false, exact(a * b)),
                ("avg", false, vec![(a + b) / 2.0, a / 2.0 + b / 2.0]),
                ("max", false, exact(if a > b { a } else { b })),
                ("min", false, exact(if a < b { a } else { b })),
            ];
            for (name, op, want) in cases {
                w.transitions += 1;
                w.traces += 1;
                let got = if op {
                    let f = ctx.get_binary_function(name).expect("operator is not defined");
                    guard(|| f.call(a, b).ok())
                } else {
                    let f = ctx.get_function(name).expect("function is not defined");
                    guard(|| f.call(&[a, b]).ok())
                };
                let ok = match &got {
                    Err(_) => false,
                    // log(x, 0) = 0 in the limit
                    Ok(g) if name == "log" && !want[0].is_finite() => g.map_or(true, |g| !g.is_finite() || b == 0.0 && g == 0.0),
                    // these are not approximated
                    Ok(Some(g)) if want.len() == 1 && want[0].is_finite() && !matches!(name, "atan" | "log") => *g == want[0],
                    Ok(g) => within(&want, *g),
                };
                if !ok {
                    w.violation(format!("[f64] {}({:?}, {:?})", name, a, b), format!("{:?} instead of {:?}", got, want[0]));
                }
            }
        }
        w.end();
    });
    lists(run);
    ints(run, &table);
    texts(run);
}

/// Lists of 3 to 5 values and wrong argument counts.
fn lists(run: &Run) {
    let vals = [0.0, 1.0, -1.0, 2.5, -7.25, 100.0, 0.1];
    let n: usize = run.pick(5, 6);
    run.bound("argument lists", format!("all the lists of 3 to {} of {:?}", n, vals));
    run.par(&vals, DefaultContext::<f64>::new_checked, |w, ctx, first| {
        fn rec(w: &mut Worker, ctx: &DefaultContext<'static, f64>, l: &mut Vec<f64>, vals: &[f64], n: usize) {
            if l.len() >= 3 {
                w.states += 1;
                let sum: f64 = l.iter().sum();
                let cases = [
                    ("sum", sum),
                    ("product", l.iter().product()),
                    ("avg", sum / l.len() as f64),
                    ("max", l.iter().copied().fold(f64::NEG_INFINITY, f64::max)),
                    ("min", l.iter().copied().fold(f64::INFINITY, f64::min)),
                ];
                for (name, want) in cases {
                    let f = ctx.get_function(name).expect("function is not defined");
                    let got = guard(|| f.call(l).ok());
                    w.transitions += 1;
                    w.traces += 1;
                    if !matches!(&got, Ok(g) if within(&[want], *g)) {
                        w.violation(format!("[f64] {}{:?}", name, l), format!("{:?} instead of {:?}", got, want));
                    }
                }
            }
            if l.len() < n {
                for v in vals {
                    l.push(*v);
                    rec(w, ctx, l, vals, n);
                    l.pop();
                }
            }
        }
        w.begin(&format!("[f64] lists starting with {:?}", first));
        rec(w, ctx, &mut vec![*first], &vals, n);
        w.end();
    });
    let n = run.pick(40usize, 130);
    run.bound("long lists", format!("4 to {} values, one of them different, at each position", n));
    let lens: Vec<usize> = (4..=n).collect();
    run.par(&lens, DefaultContext::<f64>::new_checked, |w, ctx, n| {
        w.begin(&format!("[f64] lists of {} values", n));
        for x in [-7.25, 0.5, 30000.25] {
            for i in 0..*n {
                w.states += 1;
                let mut args = vec![1.0f64; *n];
                args[i] = x;
                let sum = x + (*n as f64 - 1.0);
                for (name, want) in [("sum", sum), ("product", x), ("max", x.max(1.0)), ("min", x.min(1.0)), ("avg", sum / *n as f64)] {
                    let func = ctx.get_function(name).expect("function is not defined");
                    w.transitions += 1;
                    w.traces += 1;
                    let got = guard(|| func.call(&args).ok());
                    if !matches!(&got, Ok(g) if within(&[want], *g)) {
                        w.violation(format!("[f64] {} of {} values 1, but {} at {}", name, n, x, i), format!("{:?} instead of {}", got, want));
                    }
                }
            }
        }
        w.end();
    });
    run.solo(|w| {
        let ctx = DefaultContext::<f64>::new_checked();
        w.begin("[f64] argument counts");
        for (name, _) in unary_table() {
            let f = ctx.get_function(name).expect("function is not defined");
            for n in 0..=5usize {
                let allowed = n == 1 || n == 2 && (name == "log" || name == "atan");
                if allowed {
                    continue;
                }
                w.traces += 1;
                let args = vec![0.5; n];
                let got = guard(|| f.call(&args).ok());
                if got != Ok(None) {
                    w.violation(format!("[f64] {}{:?}", name, args), format!("{:?} instead of an error", got));
                }
            }
        }
        for (name, min) in [("sum", 1), ("product", 1), ("avg", 1), ("max", 2), ("min", 2)] {
            let f = ctx.get_function(name).expect("function is not defined");
            for n in 0..min {
                let args = vec![0.5; n];
                let got = guard(|| f.call(&args).ok());
                if got != Ok(None) {
                    w.violation(format!("[f64] {}{:?}", name, args), format!("{:?} instead of an error", got));
                }
            }
        }
        w.end();
    });
}

/// The same functions over integers give the truncated value.
fn ints(run: &Run, table: &[(&'static str, F1)]) {
    fn go<N: CheckedNum + Copy + Send + Sync + 'static>(run: &Run, tag: &str, table: &[(&'static str, F1)], vals: Vec<N>, min: f64, max: f64) {
        run.bound(&format!("{} operands", tag), vals.len() as u64);
        run.par(&vals, DefaultContext::<N>::new_checked, |w, ctx, x| {
            let z = x.to_f64().unwrap();
            w.states += 1;
            w.begin(&format!("[{}] unary functions of {}", tag, x));
            for (name, f) in table {
                if *name == "abs" || (ANGLES.contains(name) && z.abs() > 1e6) {
                    continue;
                }
                let real = ctx.get_function(name).expect("function is not defined");
                w.transitions += 1;
                w.traces += 1;
                let got = guard(|| real.call(&[*x]).ok().map(|v| v.to_f64().unwrap()));
                let ok = match &got {
                    Err(_) => false,
                    Ok(None) => {
                        let v = f(z);
                        !v.is_finite() || v < min + 1.0 || v > max - 1.0 || !accept(*f, z, None) && v.abs() > 1e9
                    }
                    Ok(Some(g)) => {
                        let v = f(z);
                        let t = if EXACT.contains(name) && v.abs() < 9e15 { 0.0 } else { 1e-12 * (1.0 + v.abs()) };
                        // the truncation of a value within the tolerance
                        let lo = (v - t).trunc();
                        let hi = (v + t).trunc();
                        v.is_finite() && *g >= lo && *g <= hi || !v.is_finite() && g.abs() > 1e9
                    }
                };
                if !ok {
                    w.violation(format!("[{}] {}({})", tag, name, x), format!("{:?} instead of {:?}", got, f(z)));
                }
            }
            w.end();
        });
    }
    let lim: i64 = run.pick(10000, 100000);
    let mut v: Vec<i64> = (-lim..=lim).collect();
    for s in 0..62 {
        v.push(1 << s);
        v.push(-(1 << s));
    }
    go::<i64>(run, "i64", table, v.clone(), i64::MIN as f64, i64::MAX as f64);
    go::<i32>(run, "i32", table, v.iter().filter(|k| k.abs() < i32::MAX as i64).map(|k| *k as i32).collect(), i32::MIN as f64, i32::MAX as f64);
    go::<i8>(run, "i8", table, (i8::MIN..=i8::MAX).collect(), i8::MIN as f64, i8::MAX as f64);
}

/// Through the evaluator: number literals, constants and calls by name.
fn texts(run: &Run) {
    let mut cases: Vec<(String, f64)> = Vec::new();
    let table = unary_table();
    for (name, f) in &table {
        for x in [0.25, 0.5, 2.0, 30.0, 37.5] {
            cases.push((format!("{}({})", name, x), f(x)));
            cases.push((format!("{}({})", name.to_uppercase(), x), f(x)));
        }
    }
    for (s, v) in [("pi", std::f64::consts::PI), ("e", std::f64::consts::E), ("PI", std::f64::consts::PI), ("E", std::f64::consts::E)] {
        cases.push((s.into(), v));
        cases.push((format!("2 * {}", s), 2.0 * v));
    }
    // decimal literals
    for i in ["0", "7", "12", "007", "1234567890", "99999999999999999999"] {
        cases.push((i.to_string(), i.parse().unwrap()));
        for f in ["0", "5", "25", "001", "123456789", "99999999999999999999"] {
            let s = format!("{}.{}", i, f);
            cases.push((s.clone(), s.parse().unwrap()));
        }
    }
    run.bound("expressions", cases.len() as u64);
    run.par(
        &cases,
        || -> &'static Evaluator<'static, f64> { Box::leak(Box::new(Evaluator::with_context(DefaultContext::<f64>::new_checked()))) },
        |w, ev, (s, v)| {
            let ev: &'static Evaluator<'static, f64> = ev;
            w.states += 1;
            w.transitions += 1;
            w.begin(s);
            let got = guard(|| ev.eval(s).ok());
            w.end();
            let literal = s.starts_with(|c: char| c.is_ascii_digit()) && !s.contains('*');
            if !matches!(&got, Ok(g) if if literal { *g == Some(*v) } else { within(&[*v], *g) }) {
                w.violation(s.clone(), format!("{:?} instead of {:?}", got, v));
            }
        },
    );
}
