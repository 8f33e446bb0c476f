//! Decimal numbers: exact arithmetic, and functions against the floating point ones.
use super::floats::{unary_table, F1};
use crate::fw::*;
use crate::hp::{value, H};
use num_bigint::BigInt;
use prexel::context::{Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use std::str::FromStr;

extern "C" {
    fn tgamma(x: f64) -> f64;
}

fn f(d: &Decimal) -> f64 {
    d.to_string().parse().unwrap()
}

fn dec(s: &str) -> Decimal {
    Decimal::from_str(s).unwrap()
}

const ROUNDINGS: [&str; 4] = ["floor", "ceil", "truncate", "round"];
const POLES: [&str; 6] = ["tan", "csc", "sec", "cot", "csch", "coth"];
const HYPERBOLIC: [&str; 6] = ["sinh", "cosh", "tanh", "csch", "sech", "coth"];
const ANGLES: [&str; 6] = ["sin", "cos", "tan", "csc", "sec", "cot"];

/// The functions round angles, exponentials, logarithms and results closer than this to an integer.
fn snaps(name: &str, x: &H, want: &H) -> bool {
    let near = |v: &H| {
        let two = v.shl(1);
        let r = H::floor(&two.add(&H::int(1)).shr(1));
        v.sub(&r).abs().f() <= 2e-16
    };
    let near_log = |v: &H| {
        // v = ln(a 10^n) with a in [0.1, 1]
        let ten = H::int(10).ln();
        let v = v.abs();
        let n = H::floor(&v.div(&ten));
        let a = v.sub(&H(n.0.clone() >> 320usize).times(&ten));
        near(&a) || near(&a.sub(&ten))
    };
    if near(x) || near(want) {
        return true;
    }
    match name {
        "sin" | "cos" | "tan" | "csc" | "sec" | "cot" => {
            let r = x.rad();
            let (s, c) = r.sin_cos();
            near(&r) || near(&s) || near(&c)
        }
        "atan" | "acot" if x.abs() > H::int(1) && near(&H::int(1).div(x)) => true,
        "asin" | "acos" | "atan" | "acsc" | "asec" | "acot" => near(&want.rad()) || near(&want.rad().shr(1)),
        "sinh" | "cosh" | "tanh" | "csch" | "sech" | "coth" | "exp" => (0..4).any(|k| {
            let y = x.abs().shr(k);
            y.exp().map_or(false, |e| near(&e))
        }),
        "ln" | "asinh" | "acosh" | "acsch" | "asech" => near_log(want),
        "log" => near_log(&want.mul(&H::int(10).ln())),
        "atanh" | "acoth" => near_log(&want.shl(1)),
        _ => false,
    }
}

/// Is the result right?
fn accurate(name: &str, x: &H, got: &Result<Option<Decimal>, String>, want: Option<&H>) -> bool {
    match (got, want) {
        (Err(_), _) => false,
        (Ok(None), None) => true,
        (Ok(Some(_)), None) => false,
        (Ok(None), Some(v)) => {
            let v = v.f().abs();
            v > 7.9e28 || POLES.contains(&name) && v > 1e15 || HYPERBOLIC.contains(&name) && (v > 3.9e28 || v < 2.6e-29)
        }
        (Ok(Some(g)), Some(v)) => {
            let e = H::parse(&g.to_string()).sub(v).abs().f();
            let z = x.f().abs();
            let m = v.f().abs();
            // rounding of the intermediate values to 28 decimals, amplified
            let amp = match name {
                "sin" | "cos" => 1e-26 * (1.0 + z),
                "tan" | "csc" | "sec" | "cot" => 1e-26 * (1.0 + z) * (1.0 + m * m),
                "csch" | "coth" => 1e-27 * (1.0 + m * m),
                "asin" | "acos" => 1e-25 / (1.0 - z * z).abs().max(1e-27).sqrt(),
                "acsc" | "asec" => 1e-25 / (1.0 - 1.0 / (z * z)).abs().max(1e-27).sqrt(),
                "acosh" => 1e-27 / (z * z - 1.0).abs().max(1e-27).sqrt(),
                "asech" => 1e-27 / z / z / (1.0 / (z * z) - 1.0).abs().max(1e-27).sqrt(),
                "atanh" => 1e-27 / (1.0 - z).max(1e-28),
                "acoth" => 1e-27 / (1.0 - 1.0 / z).max(1e-28),
                "cbrt" => 1e-27 / m.max(1e-10),
                // an error of 1e-28 in radians
                "atan" | "acot" => 2e-26,
                _ => 5e-27,
            };
            let tight = 1e-19 * m + amp + 1e-27;
            e <= tight || e <= tight + 1e-14 * (1.0 + m) && snaps(name, x, v)
        }
    }
}

fn table() -> Vec<(&'static str, F1)> {
    let mut t: Vec<(&'static str, F1)> = unary_table()
        .into_iter()
        .filter(|t| t.0 != "abs" && t.0 != "sign")
        .map(|t| {
            let f: F1 = match t.0 {
                "asinh" => f64::asinh,
                "acosh" => f64::acosh,
                "atanh" => f64::atanh,
                "acsch" => |x| (1.0 / x).asinh(),
                "asech" => |x| (1.0 / x).acosh(),
                "acoth" => |x| (1.0 / x).atanh(),
                // ties away from zero or to even are both accepted below
                _ => t.1,
            };
            (t.0, f)
        })
        .collect();
    t.push(("cbrt", f64::cbrt));
    t
}

pub fn c14(run: &Run) {
    let table = table();
    let mut texts: Vec<String> = Vec::new();
    let d = run.pick(128, 4000);
    for k in -(2 * d)..=2 * d {
        texts.push((k as f64 / d as f64).to_string());
    }
    let lim = run.pick(720, 10000);
    for k in -lim..=lim {
        texts.push(k.to_string());
        texts.push(format!("{}{}.5", if k < 0 { "-" } else { "" }, (k as i32).abs()));
        texts.push(format!("{}.9", k));
    }
    for e in 0..=27usize {
        for m in ["1", "3", "7"] {
            texts.push(format!("0.{}{}", "0".repeat(e), m));
            texts.push(format!("-0.{}{}", "0".repeat(e), m));
            texts.push(format!("{}{}", m, "0".repeat(e)));
            texts.push(format!("-{}{}", m, "0".repeat(e)));
        }
    }
    // next to the values where the functions change of branch, and where a series converges slowly
    let near = run.pick(&[1i64, 10, 45, 90, 180, 360][..], &[1, 2, 3, 5, 7, 10, 16, 30, 32, 45, 64, 90, 100, 128, 180, 270, 360, 540, 720, 1000, 100000][..]);
    for n in near {
        for e in 1..=24usize {
            for m in [1i64, 5, 9] {
                let d = dec(&format!("0.{}{}", "0".repeat(e), m));
                for v in [Decimal::from(*n) + d, Decimal::from(*n) - d] {
                    texts.push(v.to_string());
                    texts.push((-v).to_string());
                }
            }
        }
    }
    for k in 0..run.pick(100, 1000) {
        for b in ["1", "10", "100000", "0.01"] {
            texts.push((dec(b) + dec(b) * Decimal::from(k) / Decimal::from(100)).normalize().to_string());
        }
    }
    // the internal representation of the numbers: around powers of two with any number of decimals
    for s in if run.thorough() { (0..=28).collect() } else { vec![0, 9, 10, 14, 20, 27, 28] } {
        for e in (0..=96).step_by(run.pick(16, 4)) {
            for k in [-1i128, 1] {
                let m = (1i128 << e) + k;
                if m < 1 << 96 {
                    texts.push(Decimal::from_i128_with_scale(m, s).to_string());
                    texts.push(Decimal::from_i128_with_scale(-m, s).to_string());
                }
            }
        }
    }
    texts.sort();
    texts.dedup();
    let grid: Vec<Decimal> = texts.iter().map(|s| dec(s)).collect();
    run.par(&grid, DefaultContext::<Decimal>::new_decimal, |w, ctx, x| {
        let z = f(x);
        let h = H::parse(&x.to_string());
        w.states += 1;
        for (name, func) in &table {
            if ANGLES.contains(name) && z.abs() > 1e15 {
                continue;
            }
            let real = ctx.get_function(name).expect("function is not defined");
            let text = format!("[decimal] {}({})", name, x);
            w.transitions += 1;
            w.begin(&text);
            let got = guard(|| real.call(&[*x]).ok());
            w.end();
            let (ok, show) = if ROUNDINGS.contains(name) {
                let want = func(z);
                let ok = match &got {
                    Err(_) | Ok(None) => false,
                    // halves may be rounded to even
                    Ok(Some(g)) if *name == "round" && x.fract().abs() == dec("0.5") => (g - x).abs() == dec("0.5"),
                    Ok(Some(g)) if *name == "round" => g.fract().is_zero() && (g - x).abs() < dec("0.5"),
                    Ok(Some(g)) => {
                        let d = x - g;
                        g.fract().is_zero()
                            && d.abs() < Decimal::ONE
                            && match *name {
                                "floor" => d >= Decimal::ZERO,
                                "ceil" => d <= Decimal::ZERO,
                                _ => g.abs() <= x.abs() && (g.is_zero() || g.is_sign_negative() == x.is_sign_negative()),
                            }
                    }
                };
                (ok, format!("{:?}", want))
            } else {
                let want = value(name, &h);
                (accurate(name, &h, &got, want.as_ref()), format!("{:?}", want.map(|v| v.f())))
            };
            if !ok {
                w.violation(text, format!("{:?} instead of {}", got.map(|g| g.map(|d| d.to_string())), show));
            }
        }
    });
    run.bound("functions", table.iter().map(|t| t.0).chain(["log(x, base)", "atan(y, x)", "^", "!", "pi", "e"]).collect::<Vec<_>>());
    run.bound("operands", grid.len() as u64);
    run.assume("the reference is a fixed point arithmetic of 320 bits after the point; an angle, an exponential, a logarithm or a result within 1e-16 of an integer may be taken as that integer; otherwise the relative error is under 1e-19 plus the rounding of the intermediate values to 28 decimals");
    run.assume("a result out of range or next to a pole may be an error");
    two(run);
    factorial(run);
    representations(run);
    huge_powers(run);
    run.solo(|w| {
        for (s, v) in [("pi", H::pi().clone()), ("e", H::int(1).exp().unwrap()), ("sin(pi)", H::pi().rad().sin_cos().0), ("ln(e)", H::int(1)), ("cos(180 * pi / pi)", H::int(-1))] {
            w.states += 1;
            w.begin(s);
            let ev: &'static Evaluator<'static, Decimal> = Box::leak(Box::new(Evaluator::with_context(DefaultContext::<Decimal>::new_decimal())));
            let got = guard(|| ev.eval(s).ok());
            w.end();
            if !matches!(got, Ok(Some(g)) if H::parse(&g.to_string()).sub(&v).abs().f() < 1e-24) {
                w.violation(format!("[decimal] {}", s), format!("{:?} instead of {}", got, v.f()));
            }
        }
        let ctx = DefaultContext::<Decimal>::new_decimal();
        for (name, _) in &table {
            let real = ctx.get_function(name).expect("function is not defined");
            for n in 0..=4usize {
                if n == 1 || n == 2 && (*name == "log" || *name == "atan") {
                    continue;
                }
                let args = vec![dec("0.5"); n];
                w.traces += 1;
                let got = guard(|| real.call(&args).ok().map(|v| f(&v)));
                if got != Ok(None) {
                    w.violation(format!("[decimal] {} with {} arguments", name, n), format!("{:?} instead of an error", got));
                }
            }
        }
    });
}

/// The decimals equal to `d`: with zeros at the end, and for 0 with a sign.
fn equals(d: &Decimal) -> Vec<Decimal> {
    let mut all = vec![*d];
    for scale in [1u32, 2, 5, 10, 20, 26, 27, 28] {
        let mut e = *d;
        e.rescale(scale);
        if e == *d && e.scale() == scale {
            all.push(e);
        }
    }
    if d.is_zero() {
        for mut z in all.clone() {
            z.set_sign_negative(true);
            all.push(z);
        }
    }
    all
}

/// The result does not depend on how an operand is represented (1 or 1.00, 0 or -0).
fn representations(run: &Run) {
    let base: Vec<Decimal> = ["0", "1", "-1", "2", "-2", "3", "0.5", "-0.5", "0.1", "7", "10", "-10", "30", "45", "90", "-90", "100", "180", "270", "360", "1.5", "2.7182818284590452353602874713", "66", "1000000"]
        .iter()
        .map(|s| dec(s).normalize())
        .collect();
    run.bound("representations of an operand", "up to 28 zeros at the end, and -0: every function and operator");
    let agree = |a: &Result<Option<Decimal>, String>, b: &Result<Option<Decimal>, String>| match (a, b) {
        (Ok(None), Ok(None)) => true,
        (Ok(Some(x)), Ok(Some(y))) => x == y || (f(x) - f(y)).abs() <= 1e-13 * f(x).abs().max(1e-10),
        _ => false,
    };
    let names: Vec<String> = {
        let c = DefaultContext::<Decimal>::new_decimal();
        let mut n: Vec<String> = c.functions().iter().map(|(n, _)| n.to_string()).filter(|n| !n.eq_ignore_ascii_case("random")).collect();
        n.sort();
        n
    };
    run.par(&base, DefaultContext::<Decimal>::new_decimal, |w, ctx, a| {
        for va in equals(a) {
            w.states += 1;
            w.begin(&format!("[decimal] {} as {}", a, va));
            for n in &names {
                let func = ctx.get_function(n).expect("function is not defined");
                w.transitions += 1;
                w.traces += 1;
                let (x, y) = (guard(|| func.call(&[*a]).ok()), guard(|| func.call(&[va]).ok()));
                if !agree(&x, &y) {
                    w.violation(format!("[decimal] {}({})", n, va), format!("{:?} but {:?} for {}", y, x, a));
                }
                for b in &base {
                    w.transitions += 1;
                    w.traces += 1;
                    let (x, y) = (guard(|| func.call(&[*a, *b]).ok()), guard(|| func.call(&[va, *b]).ok()));
                    if !agree(&x, &y) {
                        w.violation(format!("[decimal] {}({}, {})", n, va, b), format!("{:?} but {:?} for {}", y, x, a));
                    }
                    let (x, y) = (guard(|| func.call(&[*b, *a]).ok()), guard(|| func.call(&[*b, va]).ok()));
                    if !agree(&x, &y) {
                        w.violation(format!("[decimal] {}({}, {})", n, b, va), format!("{:?} but {:?} for {}", y, x, a));
                    }
                }
            }
            for op in ["-", "+", "!"] {
                let func = ctx.get_unary_function(op).expect("operator is not defined");
                w.transitions += 1;
                w.traces += 1;
                let (x, y) = (guard(|| func.call(*a).ok()), guard(|| func.call(va).ok()));
                if !agree(&x, &y) {
                    w.violation(format!("[decimal] {}({})", op, va), format!("{:?} but {:?} for {}", y, x, a));
                }
            }
            for op in ["+", "-", "*", "/", "mod", "^"] {
                let func = ctx.get_binary_function(op).expect("operator is not defined");
                for b in &base {
                    w.transitions += 2;
                    w.traces += 2;
                    for vb in equals(b) {
                        let (x, y) = (guard(|| func.call(*a, *b).ok()), guard(|| func.call(va, vb).ok()));
                        if !agree(&x, &y) {
                            w.violation(format!("[decimal] {} {} {}", va, op, vb), format!("{:?} but {:?} for {} and {}", y, x, a, b));
                        }
                    }
                }
            }
            w.end();
        }
    });
}

/// Exponents up to the largest decimal.
fn huge_powers(run: &Run) {
    let exps: Vec<Decimal> = ["9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616",
        "18446744073709551617", "100000000000000000000", "100000000000000000001", "39614081257132168796771975168", "79228162514264337593543950334", "79228162514264337593543950335"]
        .iter()
        .map(|s| dec(s))
        .collect();
    run.bound("huge exponents", exps.len() as u64 * 2);
    run.solo(|w| {
        let ctx = DefaultContext::<Decimal>::new_decimal();
        let pow = ctx.get_binary_function("^").expect("operator is not defined");
        for e in &exps {
            let odd = !(e % Decimal::TWO).is_zero();
            for (base, pos, neg) in [
                ("0", Some(0), None),
                ("1", Some(1), Some(1)),
                ("-1", Some(if odd { -1 } else { 1 }), Some(if odd { -1 } else { 1 })),
                ("0.5", Some(0), None),
                ("-0.5", Some(0), None),
                ("0.99", Some(0), None),
                ("2", None, Some(0)),
                ("-2", None, Some(0)),
                ("1.5", None, Some(0)),
                ("79228162514264337593543950335", None, Some(0)),
            ] {
                for (e, want) in [(*e, pos), (-*e, neg)] {
                    let text = format!("[decimal] ({}) ^ ({})", base, e);
                    w.states += 1;
                    w.transitions += 1;
                    w.begin(&text);
                    let got = guard(|| pow.call(dec(base), e).ok());
                    w.end();
                    if got != Ok(want.map(Decimal::from)) {
                        w.violation(text, format!("{:?} instead of {:?}", got, want));
                    }
                }
            }
        }
    });
}

/// Functions of two operands.
fn two(run: &Run) {
    let mut t: Vec<String> = ["0", "0.001", "0.1", "0.3", "0.7", "0.999", "1.001", "2.718281828", "2.7182818284590452353602874713", "1000", "1234567.891", "10000000000000000"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let n = run.pick(24, 80);
    for k in 1..=n {
        t.push((k as f64 * 0.5).to_string());
    }
    let neg: Vec<String> = t.iter().filter(|s| *s != "0").map(|s| format!("-{}", s)).collect();
    t.extend(neg);
    for s in run.pick(&[0u32, 1, 9, 20, 28][..], &[0, 1, 5, 9, 10, 14, 19, 20, 27, 28]) {
        for e in (0..=96).step_by(run.pick(32, 16)) {
            for k in [-1i128, 1] {
                let m = (1i128 << e) + k;
                if m < 1 << 96 {
                    t.push(Decimal::from_i128_with_scale(m, *s).to_string());
                    t.push(Decimal::from_i128_with_scale(-m, *s).to_string());
                }
            }
        }
    }
    let g: Vec<Decimal> = t.iter().map(|s| dec(s)).collect();
    run.bound("pairs of operands", (g.len() * g.len()) as u64);
    run.par(&g, DefaultContext::<Decimal>::new_decimal, |w, ctx, a| {
        let hx = H::parse(&a.to_string());
        for b in &g {
            let hy = H::parse(&b.to_string());
            w.states += 1;
            let one = H::int(1);
            let positive = |v: &H| !v.is_neg() && !v.is_zero();
            let log = if !positive(&hx) || !positive(&hy) || hy == one { None } else { Some(hx.ln().div(&hy.ln())) };
            let atan = Some(H::atan2(&hx, &hy).deg());
            let pow = power(&hx, &hy);
            for (name, want) in [("log", log), ("atan", atan), ("^", pow)] {
                let text = format!("[decimal] {}({}, {})", name, a, b);
                w.transitions += 1;
                w.begin(&text);
                let got = if name == "^" {
                    let op = ctx.get_binary_function(name).expect("operator is not defined");
                    guard(|| op.call(*a, *b).ok())
                } else {
                    let fun = ctx.get_function(name).expect("function is not defined");
                    guard(|| fun.call(&[*a, *b]).ok())
                };
                w.end();
                let ok = match (&got, &want) {
                    (Err(_), _) => false,
                    (Ok(None), None) => true,
                    // undefined
                    (Ok(None), Some(_)) if name == "atan" => hx.is_zero() && hy.is_zero(),
                    (Ok(None), Some(v)) => v.f().abs() > 7.9e28,
                    (Ok(Some(_)), None) => false,
                    (Ok(Some(g)), Some(v)) => {
                        let e = H::parse(&g.to_string()).sub(v).abs().f();
                        let (m, y) = (v.f().abs(), hy.f().abs());
                        match name {
                            "log" => {
                                let snap = snaps("ln", &hx, &hx.ln()) || snaps("ln", &hy, &hy.ln());
                                let base = hy.ln().f().abs();
                                e <= (1e-25 + if snap { 2e-16 } else { 0.0 }) * (1.0 + m) * (1.0 + 1.0 / base)
                            }
                            "atan" => {
                                // of the ratio
                                let q = if hy.is_zero() { hx.clone() } else { hx.div(&hy) };
                                let r = if hy.is_zero() { v.clone() } else { q.atan().deg() };
                                e <= 1e-19 * (1.0 + m) || e <= 1e-14 && (snaps("atan", &hx, &r) || snaps("atan", &q, &r))
                            }
                            _ => {
                                let e0 = 1e-25 * (1.0 + y) * (1.0 + m) + 1e-19 * m;
                                let near = !b.fract().is_zero()
                                    && positive(&hx)
                                    && (snaps("ln", &hx, &hx.ln()) || snaps("exp", &hx.ln().mul(&hy), v));
                                e <= e0 || near && e <= e0 + 1e-15 * m * (1.0 + y)
                            }
                        }
                    }
                };
                if !ok {
                    w.violation(
                        text,
                        format!("{:?} instead of {:?}", got.map(|g| g.map(|d| d.to_string())), want.map(|v| v.f())),
                    );
                }
            }
        }
    });
}

/// `x ^ y`, `None` if it is not a real number or is enormous.
fn power(x: &H, y: &H) -> Option<H> {
    let one = H::int(1);
    let fl = y.floor();
    let integer = fl == *y;
    if y.is_zero() {
        return Some(one);
    }
    if x.is_zero() {
        return if y.is_neg() { None } else { Some(H::int(0)) };
    }
    if x.is_neg() && !integer {
        return None;
    }
    let odd = integer && fl.shr(1).floor().shl(1) != fl;
    let v = x.abs().ln().mul(y).exp()?;
    Some(if x.is_neg() && odd { v.neg() } else { v })
}

fn factorial(run: &Run) {
    let n = run.pick(40, 200);
    let mut t: Vec<String> = (-5..40).map(|k| k.to_string()).collect();
    for k in 0..=30 {
        for d in 0..n {
            t.push(format!("{}.{:04}", k, d * (10000 / n)));
        }
    }
    let g: Vec<Decimal> = t.iter().map(|s| dec(s)).collect();
    run.bound("factorials", g.len() as u64);
    run.par(&g, DefaultContext::<Decimal>::new_decimal, |w, ctx, a| {
        let x = f(a);
        // SAFETY: pure function of libm.
        let want = if x < 0.0 { f64::NAN } else { unsafe { tgamma(x + 1.0) } };
        let op = ctx.get_unary_function("!").expect("operator is not defined");
        let text = format!("[decimal] ({})!", a);
        w.states += 1;
        w.begin(&text);
        let got = guard(|| op.call(*a).ok().map(|v| f(&v)));
        w.end();
        let ok = match &got {
            Err(_) => false,
            Ok(None) => !want.is_finite() || want > 6e28,
            Ok(Some(g)) => (g - want).abs() <= 1e-12 * (1.0 + want.abs()),
        };
        if !ok {
            w.violation(text, format!("{:?} instead of {:?}", got, want));
        }
    });
    // of the integers it is exact
    run.solo(|w| {
        let ctx = DefaultContext::<Decimal>::new_decimal();
        let op = ctx.get_unary_function("!").expect("operator is not defined");
        let mut want = Decimal::ONE;
        for n in 0..=27 {
            if n > 1 {
                want *= Decimal::from(n);
            }
            w.traces += 1;
            let got = guard(|| op.call(Decimal::from(n)).ok());
            if got != Ok(Some(want)) {
                w.violation(format!("[decimal] {}!", n), format!("{:?} instead of {}", got, want));
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// exact arithmetic
// ---------------------------------------------------------------------------------------------

/// An exact decimal: `m * 10^-s`.
#[derive(Clone, Copy, Debug)]
struct X {
    m: i128,
    s: u32,
}

const P10: [i128; 30] = {
    let mut p = [1i128; 30];
    let mut i = 1;
    while i < 30 {
        p[i] = p[i - 1] * 10;
        i += 1;
    }
    p
};

impl X {
    fn norm(mut self) -> X {
        while self.s > 0 && self.m % 10 == 0 {
            self.m /= 10;
            self.s -= 1;
        }
        self
    }
    fn text(self) -> String {
        let a = self.m.unsigned_abs().to_string();
        let s = self.s as usize;
        let a = if a.len() <= s { format!("{}{}", "0".repeat(s + 1 - a.len()), a) } else { a };
        let (i, fr) = a.split_at(a.len() - s);
        format!("{}{}{}{}", if self.m < 0 { "-" } else { "" }, i, if s > 0 { "." } else { "" }, fr)
    }
    fn al(a: X, b: X) -> (i128, i128, u32) {
        let s = a.s.max(b.s);
        (a.m * P10[(s - a.s) as usize], b.m * P10[(s - b.s) as usize], s)
    }
    fn add(a: X, b: X) -> X {
        let (x, y, s) = X::al(a, b);
        X { m: x + y, s }.norm()
    }
    fn sub(a: X, b: X) -> X {
        X::add(a, X { m: -b.m, s: b.s })
    }
    fn mul(a: X, b: X) -> X {
        X { m: a.m * b.m, s: a.s + b.s }.norm()
    }
    fn rem(a: X, b: X) -> Option<X> {
        let (x, y, s) = X::al(a, b);
        if y == 0 {
            None
        } else {
            Some(X { m: x % y, s }.norm())
        }
    }
    /// The quotient if it has at most 10 decimals.
    fn div(a: X, b: X) -> Result<Option<X>, ()> {
        let (x, y, _) = X::al(a, b);
        if y == 0 {
            return Ok(None);
        }
        let n = x * P10[10];
        if n % y == 0 {
            Ok(Some(X { m: n / y, s: 10 }.norm()))
        } else {
            Err(())
        }
    }
}

fn of(d: &Decimal) -> X {
    let s = d.to_string();
    let (i, fr) = s.split_once('.').unwrap_or((&s, ""));
    let m: i128 = format!("{}{}", i, fr).parse().unwrap();
    X { m, s: fr.len() as u32 }.norm()
}

pub fn c13(run: &Run) {
    let m = run.pick(250, 700);
    let scales = [0u32, 1, 2, 5];
    let mut vals: Vec<X> = Vec::new();
    for s in scales {
        for k in -m..=m {
            vals.push(X { m: k, s }.norm());
        }
    }
    for k in [i128::from(i64::MAX), i128::from(i32::MAX) + 1, 123456789012, 99999999999, 4294967296, 10000000001] {
        for s in [0u32, 3, 6] {
            vals.push(X { m: k, s }.norm());
            vals.push(X { m: -k, s }.norm());
        }
    }
    vals.sort_by_key(|v| (v.m, v.s));
    vals.dedup_by_key(|v| (v.m, v.s));
    run.bound("operands", vals.len() as u64);
    run.bound("operations", vec!["+", "-", "*", "/", "mod", "^ (small exponents)", "-x", "sum", "product", "avg", "max", "min", "floor", "ceil", "truncate", "round", "literals"]);
    run.assume("rust_decimal's own representation limits: 96 bit mantissa and 28 decimals; a quotient or average without a finite expansion is compared by its residue");
    let ds: Vec<Decimal> = vals.iter().map(|v| dec(&v.text())).collect();
    let ix: Vec<usize> = (0..vals.len()).collect();
    let same = |d: &Decimal, x: X| {
        let g = of(d);
        g.m == x.m && g.s == x.s
    };
    run.par(
        &ix,
        || {
            let ev: &'static Evaluator<'static, Decimal> = Box::leak(Box::new(Evaluator::with_context(DefaultContext::<Decimal>::new_decimal())));
            (DefaultContext::<Decimal>::new_decimal(), ev)
        },
        |w, (ctx, ev), i| {
            let ev: &'static Evaluator<'static, Decimal> = ev;
            let (a, da) = (vals[*i], ds[*i]);
            w.states += 1;
            w.begin(&format!("[decimal] operations with first operand {}", da));
            let bad = |w: &Worker, text: String, got: &Result<Option<Decimal>, String>, want: String| {
                w.violation(format!("[decimal] {}", text), format!("{:?} instead of {}", got.as_ref().map(|g| g.map(|d| d.to_string())), want));
            };
            let neg = ctx.get_unary_function("-").expect("operator is not defined");
            let got = guard(|| neg.call(da).ok());
            if !matches!(&got, Ok(Some(g)) if same(g, X { m: -a.m, s: a.s })) {
                bad(w, format!("-({})", da), &got, X { m: -a.m, s: a.s }.text());
            }
            // rounding functions
            let p = P10[a.s as usize];
            let (fl, fr) = (a.m.div_euclid(p), a.m.rem_euclid(p));
            for (name, want) in [
                ("floor", vec![fl]),
                ("ceil", vec![fl + (fr > 0) as i128]),
                ("truncate", vec![a.m / p]),
                ("round", if 2 * fr == p { vec![fl, fl + 1] } else { vec![fl + (2 * fr > p) as i128] }),
            ] {
                let func = ctx.get_function(name).expect("function is not defined");
                let got = guard(|| func.call(&[da]).ok());
                w.transitions += 1;
                w.traces += 1;
                if !matches!(&got, Ok(Some(g)) if want.iter().any(|v| same(g, X { m: *v, s: 0 }))) {
                    bad(w, format!("{}({})", name, da), &got, format!("{:?}", want));
                }
            }
            // small powers
            let pow = ctx.get_binary_function("^").expect("operator is not defined");
            let mut acc = X { m: 1, s: 0 };
            for n in 0..5i64 {
                if a.m.abs() < 1000 && acc.s <= 20 {
                    let got = guard(|| pow.call(da, Decimal::from(n)).ok());
                    w.traces += 1;
                    if !matches!(&got, Ok(Some(g)) if same(g, acc)) {
                        bad(w, format!("{} ^ {}", da, n), &got, acc.text());
                    }
                    acc = X::mul(acc, a);
                }
            }
            if a.m >= 0 {
                let s = da.to_string();
                let got = guard(|| ev.eval(&s).ok());
                if !matches!(&got, Ok(Some(g)) if same(g, a)) {
                    bad(w, s, &got, a.text());
                }
            }
            let func = |n: &str| ctx.get_function(n).expect("function is not defined");
            let op = |n: &str| ctx.get_binary_function(n).expect("operator is not defined");
            let (add, sub, mul, div, rem) = (op("+"), op("-"), op("*"), op("/"), op("mod"));
            let (sum, product, avg, max, min) = (func("sum"), func("product"), func("avg"), func("max"), func("min"));
            for (j, b) in vals.iter().enumerate() {
                let (b, db) = (*b, ds[j]);
                w.states += 1;
                let gt = X::sub(a, b).m > 0;
                let half = X::div(X::add(a, b), X { m: 2, s: 0 });
                let cases: [(&str, Result<Option<Decimal>, String>, Result<Option<X>, ()>); 10] = [
                    ("+", guard(|| add.call(da, db).ok()), Ok(Some(X::add(a, b)))),
                    ("-", guard(|| sub.call(da, db).ok()), Ok(Some(X::sub(a, b)))),
                    ("*", guard(|| mul.call(da, db).ok()), Ok(Some(X::mul(a, b)))),
                    ("mod", guard(|| rem.call(da, db).ok()), Ok(X::rem(a, b))),
                    ("/", guard(|| div.call(da, db).ok()), X::div(a, b)),
                    ("sum", guard(|| sum.call(&[da, db]).ok()), Ok(Some(X::add(a, b)))),
                    ("product", guard(|| product.call(&[da, db]).ok()), Ok(Some(X::mul(a, b)))),
                    ("avg", guard(|| avg.call(&[da, db]).ok()), half),
                    ("max", guard(|| max.call(&[da, db]).ok()), Ok(Some(if gt { a } else { b }))),
                    ("min", guard(|| min.call(&[da, db]).ok()), Ok(Some(if gt { b } else { a }))),
                ];
                for (name, got, want) in cases {
                    w.transitions += 1;
                    w.traces += 1;
                    // a product may need more than 96 bits
                    if let Ok(Some(x)) = want {
                        if x.m.unsigned_abs() >> 96 != 0 {
                            continue;
                        }
                    }
                    let ok = match (&got, want) {
                        (Ok(Some(g)), Ok(Some(x))) => same(g, x),
                        (Ok(None), Ok(None)) => true,
                        // inexact: |q * b - a| is at most an unit in the last of the digits of the quotient
                        (Ok(Some(g)), Err(())) => {
                            let (x, y) = (H::parse(&da.to_string()), H::parse(&db.to_string()));
                            let z = if name == "avg" { x.add(&y).shr(1) } else { x.div(&y) };
                            rounded(g, &z)
                        }
                        _ => false,
                    };
                    if !ok {
                        bad(w, format!("{} {} {}", da, name, db), &got, format!("{:?}", want.map(|x| x.map(X::text))));
                    }
                }
                if a.m >= 0 && b.m >= 0 && (i + j) % 7 == 0 {
                    let s = format!("{}+{}", da, db);
                    w.traces += 1;
                    let got = guard(|| ev.eval(&s).ok());
                    if !matches!(&got, Ok(Some(g)) if same(g, X::add(a, b))) {
                        bad(w, s, &got, X::add(a, b).text());
                    }
                }
            }
            w.end();
        },
    );
    lists(run);
    long_lists(run);
    extremes(run);
}

fn lists(run: &Run) {
    let texts = ["0", "1", "-1", "0.1", "-0.1", "2.5", "0.01", "-3.75", "100", "12345.678", "-0.3"];
    let xs: Vec<X> = texts.iter().map(|t| of(&dec(t))).collect();
    let ds: Vec<Decimal> = texts.iter().map(|t| dec(t)).collect();
    let n = run.pick(4, 5);
    run.bound("argument lists", format!("all lists of 1 to {} of {:?}", n, texts));
    let ix: Vec<usize> = (0..xs.len()).collect();
    run.par(&ix, DefaultContext::<Decimal>::new_decimal, |w, ctx, first| {
        fn rec(w: &mut Worker, ctx: &DefaultContext<'static, Decimal>, l: &mut Vec<usize>, xs: &[X], ds: &[Decimal], n: usize) {
            w.states += 1;
            let args: Vec<Decimal> = l.iter().map(|i| ds[*i]).collect();
            let mut it = l.iter().map(|i| xs[*i]);
            let a = it.next().unwrap();
            let (mut sum, mut prod, mut max, mut min) = (a, a, a, a);
            for b in it {
                sum = X::add(sum, b);
                prod = X::mul(prod, b);
                if X::sub(b, max).m > 0 {
                    max = b;
                }
                if X::sub(min, b).m > 0 {
                    min = b;
                }
            }
            for (name, want) in [("sum", sum), ("product", prod), ("max", max), ("min", min), ("avg", sum)] {
                let func = ctx.get_function(name).expect("function is not defined");
                let got = guard(|| func.call(&args).ok());
                w.transitions += 1;
                w.traces += 1;
                let ok = match &got {
                    Ok(Some(g)) if name == "avg" => (f(g) * l.len() as f64 - f(&dec(&want.text()))).abs() < 1e-9,
                    // more digits than the type holds
                    Ok(Some(g)) if want.m.unsigned_abs() >> 96 != 0 => {
                        let z = H::parse(&want.text());
                        H::parse(&g.to_string()).sub(&z).abs().f() <= 1e-27 * z.f().abs()
                    }
                    Ok(Some(g)) => {
                        let g = of(g);
                        g.m == want.m && g.s == want.s
                    }
                    Ok(None) => l.len() == 1 && (name == "max" || name == "min"),
                    Err(_) => false,
                };
                if !ok {
                    w.violation(format!("[decimal] {}{:?}", name, args), format!("{:?} instead of {}", got, want.text()));
                }
            }
            if l.len() < n {
                for i in 0..xs.len() {
                    l.push(i);
                    rec(w, ctx, l, xs, ds, n);
                    l.pop();
                }
            }
        }
        w.begin(&format!("[decimal] lists starting with {}", texts[*first]));
        rec(w, ctx, &mut vec![*first], &xs, &ds, n);
        w.end();
    });
}

/// Lists of up to 40 values, with the value that matters at each position.
fn long_lists(run: &Run) {
    let n = run.pick(40usize, 130);
    run.bound("long lists", format!("4 to {} values, one of them different, at each position", n));
    let lens: Vec<usize> = (4..=n).collect();
    run.par(&lens, DefaultContext::<Decimal>::new_decimal, |w, ctx, n| {
        w.begin(&format!("[decimal] lists of {} values", n));
        for x in ["-7.25", "0.1", "30000.03"] {
            for i in 0..*n {
                w.states += 1;
                let mut args = vec![Decimal::ONE; *n];
                args[i] = dec(x);
                let d = args[i];
                let sum = d + Decimal::from(*n as u64 - 1);
                for (name, want) in [
                    ("sum", sum),
                    ("product", d),
                    ("max", if d > Decimal::ONE { d } else { Decimal::ONE }),
                    ("min", if d < Decimal::ONE { d } else { Decimal::ONE }),
                    ("avg", sum),
                ] {
                    let func = ctx.get_function(name).expect("function is not defined");
                    w.transitions += 1;
                    w.traces += 1;
                    let got = guard(|| func.call(&args).ok());
                    let ok = match &got {
                        Ok(Some(g)) if name == "avg" => rounded(g, &H::parse(&want.to_string()).div(&H::parse(&n.to_string()))),
                        Ok(Some(g)) => *g == want,
                        _ => false,
                    };
                    if !ok {
                        w.violation(format!("[decimal] {} of {} values 1, but {} at {}", name, n, x, i), format!("{:?}", got));
                    }
                }
            }
        }
        w.end();
    });
}

/// Is it the value with the digits that the type holds (one unit of the last one is allowed)?
fn rounded(got: &Decimal, want: &H) -> bool {
    let e = H::parse(&got.to_string()).sub(want).abs().f();
    e <= 1.01e-28 + want.f().abs() * 1.3e-28
}

/// The value in units of 1e-28, exact.
fn units(d: &Decimal) -> BigInt {
    BigInt::from(d.mantissa()) * num_traits::pow(BigInt::from(10), 28 - d.scale() as usize)
}

/// Next to the limits of the type: the value, or an error if it is out of range.
fn extremes(run: &Run) {
    let mut g = super::total::decimal_grid();
    // products and quotients that are almost integers
    for e in [3usize, 7, 13, 14, 15, 16, 17, 19, 20, 24, 27] {
        for t in [format!("0.{}1", "0".repeat(e)), format!("0.{}5", "0".repeat(e)), format!("1.{}1", "0".repeat(e)), format!("0.{}", "9".repeat(e + 1))] {
            g.push(dec(&t));
            g.push(-dec(&t));
        }
    }
    for k in [2, 3, 7, 11, 13, 1000, 99999] {
        g.push(Decimal::ONE / Decimal::from(k));
        g.push(Decimal::from(k) / dec("3"));
        g.push(Decimal::from(k));
    }
    // around the powers of two, with any number of decimals
    for s in if run.thorough() { (0..=28).collect() } else { vec![0, 1, 9, 10, 19, 20, 27, 28] } {
        for e in (0..=96).step_by(run.pick(16, 8)) {
            for k in [-1i128, 1] {
                let m = (1i128 << e) + k;
                if m < 1 << 96 {
                    g.push(Decimal::from_i128_with_scale(m, s));
                    g.push(Decimal::from_i128_with_scale(-m, s));
                }
            }
        }
    }
    g.sort();
    g.dedup();
    run.bound("extreme operands", g.len() as u64);
    let max = H::parse("79228162514264337593543950335");
    run.par(&g, DefaultContext::<Decimal>::new_decimal, |w, ctx, a| {
        w.begin(&format!("[decimal] extreme operands with {}", a));
        let x = H::parse(&a.to_string());
        for b in &g {
            w.states += 1;
            let y = H::parse(&b.to_string());
            for (name, want) in [
                ("+", Some(x.add(&y))),
                ("-", Some(x.sub(&y))),
                ("*", Some(x.mul(&y))),
                ("/", if y.is_zero() { None } else { Some(x.div(&y)) }),
                ("sum", Some(x.add(&y))),
                ("product", Some(x.mul(&y))),
                ("avg", Some(x.add(&y).shr(1))),
                ("mod", None),
                ("max", Some(if x > y { x.clone() } else { y.clone() })),
                ("min", Some(if x < y { x.clone() } else { y.clone() })),
            ] {
                w.transitions += 1;
                w.traces += 1;
                let got = if let Some(op) = ctx.get_binary_function(name) {
                    guard(|| op.call(*a, *b).ok())
                } else {
                    let func = ctx.get_function(name).expect("function is not defined");
                    guard(|| func.call(&[*a, *b]).ok())
                };
                if name == "mod" {
                    // it is always exact
                    let want = if b.is_zero() { None } else { Some(units(a) % units(b)) };
                    if got.as_ref().map(|g| g.map(|d| units(&d))) != Ok(want.clone()) {
                        w.violation(format!("[decimal] {} mod {}", a, b), format!("{:?} instead of {:?} e-28", got.map(|g| g.map(|d| d.to_string())), want.map(|v| v.to_string())));
                    }
                    continue;
                }
                let ok = match (&got, &want) {
                    (Err(_), _) => false,
                    (Ok(None), None) => true,
                    (Ok(Some(_)), None) => false,
                    // the sum of an average may be out of range
                    (Ok(None), Some(v)) => (if name == "avg" { v.shl(1) } else { v.clone() }).abs() > max,
                    (Ok(Some(g)), Some(v)) => rounded(g, v),
                };
                if !ok {
                    w.violation(
                        format!("[decimal] {} {} {}", a, name, b),
                        format!("{:?} instead of {:?}", got.map(|g| g.map(|d| d.to_string())), want.map(|v| v.f())),
                    );
                }
            }
        }
        w.end();
    });
}
