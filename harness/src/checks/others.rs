//! The binary and the complex contexts.
use crate::fw::*;
use crate::gen::*;
use crate::hp::{zvalue, Z as HZ, H};
use crate::sym::*;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::function::Notation;
use prexel::tokenizer::Tokenizer;

// ---------------------------------------------------------------------------------------------
// binary
// ---------------------------------------------------------------------------------------------

/// Name, aliases, precedence level (a higher one binds tighter), operation.
type BinOp = (&'static str, &'static [&'static str], u32, fn(i128, i128) -> Option<i128>);

fn bin_ops() -> Vec<BinOp> {
    fn sh(n: i128) -> Option<u32> {
        if (0..128).contains(&n) {
            Some(n as u32)
        } else {
            None
        }
    }
    vec![
        ("&", &["and"], 9, |a, b| Some(!(!a | !b))),
        ("|", &["or"], 7, |a, b| Some(!(!a & !b))),
        ("^", &["xor"], 8, |a, b| Some((a | b) & !(a & b))),
        ("==", &["eq", "equal"], 10, |a, b| Some((a == b) as i128)),
        ("!=", &["ne", "no_equal"], 10, |a, b| Some((a != b) as i128)),
        (">", &["gt"], 11, |a, b| Some((a > b) as i128)),
        ("<", &["lt"], 11, |a, b| Some((a < b) as i128)),
        (">=", &["gte"], 11, |a, b| Some((a >= b) as i128)),
        ("<=", &["lte"], 11, |a, b| Some((a <= b) as i128)),
        // floor division and wrapping product by a power of two
        (">>", &["shr"], 13, |a, b| sh(b).map(|n| if n == 127 { if a < 0 { -1 } else { 0 } } else { a.div_euclid(1 << n) })),
        ("<<", &["shl"], 13, |a, b| sh(b).map(|n| a.wrapping_mul((1u128 << n) as i128))),
    ]
}

struct BinAlg;
impl Algebra for BinAlg {
    type T = Option<i128>;
    fn num(&self, s: &str) -> Self::T {
        match s.strip_prefix('b') {
            Some(d) => i128::from_str_radix(d, 2).ok(),
            None => s.parse().ok(),
        }
    }
    fn var(&self, s: &str) -> Self::T {
        Some(s.len() as i128 + 4)
    }
    fn con(&self, _: &str) -> Self::T {
        None
    }
    fn un(&self, _: &str, a: Self::T) -> Self::T {
        a.map(|v| (-1i128).wrapping_sub(v))
    }
    fn bin(&self, op: &str, a: Self::T, b: Self::T) -> Self::T {
        let f = bin_ops().into_iter().find(|o| o.0 == op || o.1.contains(&op)).unwrap().3;
        f(a?, b?)
    }
    fn call(&self, _: &str, _: &[Self::T]) -> Self::T {
        None
    }
}

fn bin_eval() -> &'static Evaluator<'static, Binary> {
    let mut c = DefaultContext::<Binary>::with_config_binary(Config::new());
    c.set_variable("x", Binary(5)).unwrap();
    Box::leak(Box::new(Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter()))))
}

pub fn c16(run: &Run) {
    let ops = bin_ops();
    run.bound("operators", ops.iter().flat_map(|o| std::iter::once(o.0).chain(o.1.iter().copied())).chain(["~", "not"]).collect::<Vec<_>>());
    // operands
    let mut g: Vec<i128> = super::total::binary_grid().into_iter().map(|b| b.0).collect();
    let lim = run.pick(260, 1100);
    g.extend(-lim..=lim);
    for s in 0..127 {
        let p = 1i128 << s;
        g.extend([p, -p, p - 1, p + 1, -p - 1]);
    }
    g.sort();
    g.dedup();
    run.bound("operands", g.len() as u64);
    run.par(&g, DefaultContext::<Binary>::new_binary, |w, ctx, a| {
        let a = *a;
        w.begin(&format!("[binary] operators with left operand {}", a));
        for n in ["~", "not", "NOT"] {
            let f = ctx.get_unary_function(n).expect("operator is not defined");
            let got = guard(|| f.call(Binary(a)).ok().map(|b| b.0));
            w.traces += 1;
            if got != Ok(Some((-1i128).wrapping_sub(a))) {
                w.violation(format!("[binary] {} {}", n, a), format!("{:?}", got));
            }
        }
        for (name, aliases, _, model) in &ops {
            let fs: Vec<_> = std::iter::once(name)
                .chain(aliases.iter())
                .map(|n| (n, ctx.get_binary_function(n).expect("operator is not defined")))
                .collect();
            for b in &g {
                w.states += 1;
                let want = model(a, *b);
                for (n, f) in &fs {
                    w.transitions += 1;
                    w.traces += 1;
                    let got = guard(|| f.call(Binary(a), Binary(*b)).ok().map(|b| b.0));
                    if got != Ok(want) {
                        w.violation(format!("[binary] {} {} {}", a, n, b), format!("{:?} instead of {:?}", got, want));
                    }
                }
            }
        }
        w.end();
    });
    // literals and display
    let lits: Vec<i128> = g.iter().copied().filter(|v| *v >= 0).collect();
    run.par(&lits, bin_eval, |w, ev, v| {
        let ev: &'static Evaluator<'static, Binary> = ev;
        for s in [format!("b{:b}", v), format!("{}", v), format!("b00{:b}", v), format!(" b{:b} ", v)] {
            w.states += 1;
            w.transitions += 1;
            w.begin(&s);
            let got = guard(|| ev.eval(&s).ok());
            w.end();
            if got != Ok(Some(Binary(*v))) {
                w.violation(s, format!("{:?} instead of {}", got, v));
            }
        }
        w.traces += 1;
        if Binary(*v).to_string() != format!("{:b}", v) {
            w.violation(format!("display of {}", v), Binary(*v).to_string());
        }
    });
    // long literals, with and without leading zeros: those that do not fit are errors
    let long: Vec<(String, Option<i128>)> = (1..=200usize)
        .flat_map(|n| {
            let fits = |v: i128| (n < 128).then_some(v);
            let p = if n < 128 { 1i128 << (n - 1) } else { 0 };
            vec![
                (format!("b1{}", "0".repeat(n - 1)), fits(p)),
                (format!("b{}", "1".repeat(n)), fits(p.wrapping_sub(1).wrapping_add(p))),
                (format!("b0001{}", "0".repeat(n - 1)), fits(p)),
                (format!("b{}", "0".repeat(n)), Some(0)),
                (format!("b{}1", "0".repeat(n)), Some(1)),
            ]
        })
        .chain((36..=45usize).flat_map(|n| {
            ["9", "8", "1"].map(|d| {
                let s = d.repeat(n);
                let v = s.parse::<num_bigint::BigInt>().unwrap();
                (s, num_traits::ToPrimitive::to_i128(&v))
            })
        }))
        .chain((0..=20u32).map(|k| {
            let v: num_bigint::BigInt = num_bigint::BigInt::from(i128::MAX) + k - 10i32;
            (v.to_string(), num_traits::ToPrimitive::to_i128(&v))
        }))
        .collect();
    run.bound("long literals", "1 to 200 binary digits, 36 to 45 decimal ones, next to the largest number");
    run.par(&long, bin_eval, |w, ev, case| {
        let (s, want): &(String, Option<i128>) = case;
        let ev: &'static Evaluator<'static, Binary> = ev;
        for (t, want) in [(s.clone(), *want), (format!("{} & 3", s), want.map(|v| v & 3))] {
            w.states += 1;
            w.transitions += 1;
            w.begin(&t);
            let got = guard(|| ev.eval(&t).ok().map(|b| b.0));
            w.end();
            if got != Ok(want) {
                w.violation(t, format!("{:?} instead of {:?}", got, want));
            }
        }
    });
    // expressions: operator pairs, in every grouping
    let mut lang = Lang { ops: vec![], vars: vec!["x"], cons: vec![], funs: vec![], implicit: false, custom_call: false };
    for (n, al, p, _) in &ops {
        lang.ops.push(OpSpec { name: n, bin: Some((*p, L)), un: None });
        for a in *al {
            lang.ops.push(OpSpec { name: a, bin: Some((*p, L)), un: None });
        }
    }
    lang.ops.push(OpSpec { name: "~", bin: None, un: Some(Notation::Prefix) });
    let names: Vec<&'static str> = ops.iter().map(|o| o.0).collect();
    let all: Vec<&'static str> = lang.ops.iter().filter(|o| o.bin.is_some()).map(|o| o.name).collect();
    run.bound("pairs of operators", "every ordered pair of operators and aliases, with every triple of operands out of 0, 1, 2, 5, 6, b11, b1010 and x");
    let vals = [lx(K::Num, "0"), lx(K::Num, "1"), lx(K::Num, "2"), lx(K::Num, "5"), lx(K::Num, "6"), lx(K::Num, "b11"), lx(K::Num, "b1010"), lx(K::Var, "x")];
    let check = |w: &mut Worker, ev: &'static Evaluator<'static, Binary>, toks: &[Lex], sep: &str| {
        let want = Parser::parse(&lang, toks, &BinAlg).flatten();
        let s = join(toks, sep);
        w.begin(&s);
        let got = guard(|| ev.eval(&s).ok().map(|b| b.0));
        w.end();
        w.transitions += 1;
        if got != Ok(want) {
            w.violation(s, format!("{:?} instead of {:?}", got, want));
        }
    };
    run.par(&all, bin_eval, |w, ev, o1| {
        for o2 in &all {
            for a in vals {
                for b in vals {
                    for c in vals {
                        w.states += 1;
                        let t = [a, lx(K::Op, o1), b, lx(K::Op, o2), c];
                        check(w, ev, &t, " ");
                        if names.contains(o1) && names.contains(o2) {
                            check(w, ev, &t, "");
                        }
                    }
                }
                let (o, c) = (lx(K::Open, "("), lx(K::Close, ")"));
                for b in vals {
                    let z = lx(K::Num, "b11");
                    w.states += 4;
                    check(w, ev, &[o, a, lx(K::Op, o1), b, c, lx(K::Op, o2), z], " ");
                    check(w, ev, &[a, lx(K::Op, o1), o, b, lx(K::Op, o2), z, c], " ");
                    check(w, ev, &[lx(K::Op, "~"), a, lx(K::Op, o1), b, lx(K::Op, o2), z], " ");
                    check(w, ev, &[a, lx(K::Op, o1), lx(K::Op, "~"), b, lx(K::Op, o2), lx(K::Op, "~"), z], " ");
                }
            }
        }
    });
    // longer expressions over an operator of each precedence
    let len = run.pick(9, 11);
    run.bound("max lexemes of the expressions over one operator of each precedence", len as u64);
    let mut gen = Gen::of(&lang, len);
    gen.operands.clear();
    gen.numbers = true;
    gen.funs.clear();
    gen.groups = vec!["("];
    gen.binary = if run.thorough() { vec!["&", "|", "^", "==", ">", "<<"] } else { vec!["&", "|", "^", "==", "<="] };
    gen.prefix = vec!["~"];
    gen.postfix.clear();
    let items = gen.split(4);
    run.par(&items, bin_eval, |w, ev, it| {
        gen.dfs(w, it, &mut |w, toks| check(w, ev, toks, " "));
    });
}

// ---------------------------------------------------------------------------------------------
// complex
// ---------------------------------------------------------------------------------------------

type C = (f64, f64);
fn add(a: C, b: C) -> C {
    (a.0 + b.0, a.1 + b.1)
}
fn sub(a: C, b: C) -> C {
    (a.0 - b.0, a.1 - b.1)
}
fn mul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn inv(a: C) -> C {
    let n = a.0 * a.0 + a.1 * a.1;
    (a.0 / n, -a.1 / n)
}
fn div(a: C, b: C) -> C {
    mul(a, inv(b))
}
fn scale(k: f64, a: C) -> C {
    (k * a.0, k * a.1)
}
fn exp(a: C) -> C {
    let e = a.0.exp();
    (e * a.1.cos(), e * a.1.sin())
}
fn ln(a: C) -> C {
    (a.0.hypot(a.1).ln(), a.1.atan2(a.0))
}
fn sqrt(a: C) -> C {
    let (r, t) = (a.0.hypot(a.1).sqrt(), a.1.atan2(a.0) / 2.0);
    (r * t.cos(), r * t.sin())
}
fn imul(a: C) -> C {
    (-a.1, a.0)
}
fn sinh(a: C) -> C {
    (a.0.sinh() * a.1.cos(), a.0.cosh() * a.1.sin())
}
fn cosh(a: C) -> C {
    (a.0.cosh() * a.1.cos(), a.0.sinh() * a.1.sin())
}
fn sin(a: C) -> C {
    (a.0.sin() * a.1.cosh(), a.0.cos() * a.1.sinh())
}
fn cos(a: C) -> C {
    (a.0.cos() * a.1.cosh(), -a.0.sin() * a.1.sinh())
}
const ONE: C = (1.0, 0.0);
fn asinh(z: C) -> C {
    ln(add(z, sqrt(add(mul(z, z), ONE))))
}
fn acosh(z: C) -> C {
    ln(add(z, mul(sqrt(add(z, ONE)), sqrt(sub(z, ONE)))))
}
fn atanh(z: C) -> C {
    scale(0.5, sub(ln(add(ONE, z)), ln(sub(ONE, z))))
}
/// asin(z) = -i asinh(iz)
fn asin(z: C) -> C {
    scale(-1.0, imul(asinh(imul(z))))
}
fn acos(z: C) -> C {
    sub((std::f64::consts::FRAC_PI_2, 0.0), asin(z))
}
/// atan(z) = -i atanh(iz)
fn atan(z: C) -> C {
    scale(-1.0, imul(atanh(imul(z))))
}
fn pow(a: C, b: C) -> C {
    if b == (0.0, 0.0) {
        return ONE;
    }
    if a == (0.0, 0.0) {
        return if b.0 > 0.0 { (0.0, 0.0) } else { (f64::NAN, f64::NAN) };
    }
    exp(mul(b, ln(a)))
}

type CF = fn(C) -> C;
fn ctable() -> Vec<(&'static str, CF)> {
    vec![
        ("sqrt", sqrt),
        ("exp", exp),
        ("ln", ln),
        ("log", |z| scale(1.0 / std::f64::consts::LN_10, ln(z))),
        ("sin", sin),
        ("cos", cos),
        ("tan", |z| div(sin(z), cos(z))),
        ("csc", |z| inv(sin(z))),
        ("sec", |z| inv(cos(z))),
        ("cot", |z| div(cos(z), sin(z))),
        ("asin", asin),
        ("acos", acos),
        ("atan", atan),
        ("acsc", |z| asin(inv(z))),
        ("asec", |z| acos(inv(z))),
        ("acot", |z| atan(inv(z))),
        ("sinh", sinh),
        ("cosh", cosh),
        ("tanh", |z| div(sinh(z), cosh(z))),
        ("csch", |z| inv(sinh(z))),
        ("sech", |z| inv(cosh(z))),
        ("coth", |z| div(cosh(z), sinh(z))),
        ("asinh", asinh),
        ("acosh", acosh),
        ("atanh", atanh),
        ("acsch", |z| asinh(inv(z))),
        ("asech", |z| acosh(inv(z))),
        ("acoth", |z| atanh(inv(z))),
    ]
}

fn fin(z: C) -> bool {
    z.0.is_finite() && z.1.is_finite()
}

fn near(a: C, b: C, tol: f64) -> bool {
    (a.0 - b.0).hypot(a.1 - b.1) <= tol * (1.0 + b.0.hypot(b.1))
}

/// The values of `f` around `z`: both sides of a branch cut are accepted.
fn caccept(f: impl Fn(C) -> C, z: C, got: Option<C>) -> bool {
    let d = 1e-13 * (1.0 + z.0.hypot(z.1));
    let mut vals = Vec::new();
    for dx in [0.0, d, -d] {
        for dy in [0.0, d, -d] {
            vals.push(f((z.0 + dx, z.1 + dy)));
        }
    }
    // where it is undefined or changes too fast anything goes
    if vals.iter().any(|v| !fin(*v) || v.0.hypot(v.1) > 1e8) {
        return true;
    }
    match got {
        None => false,
        Some(g) => vals.iter().any(|v| near(g, *v, 1e-6)) && {
            // tight where the function is smooth
            let w = vals[0];
            let smooth = vals.iter().all(|v| near(*v, w, 1e-9));
            !smooth || near(g, w, 1e-9)
        },
    }
}

struct CAlg;
impl Algebra for CAlg {
    type T = C;
    fn num(&self, s: &str) -> C {
        match s.strip_suffix('i') {
            Some(n) => (0.0, n.parse().unwrap()),
            None => (s.parse().unwrap(), 0.0),
        }
    }
    fn var(&self, _: &str) -> C {
        (1.5, -0.5)
    }
    fn con(&self, _: &str) -> C {
        (0.0, 1.0)
    }
    fn un(&self, op: &str, a: C) -> C {
        if op == "-" {
            scale(-1.0, a)
        } else {
            a
        }
    }
    fn bin(&self, op: &str, a: C, b: C) -> C {
        match op {
            "+" => add(a, b),
            "-" => sub(a, b),
            "*" => mul(a, b),
            "/" => {
                if b == (0.0, 0.0) {
                    (f64::NAN, f64::NAN)
                } else {
                    div(a, b)
                }
            }
            _ => pow(a, b),
        }
    }
    fn call(&self, f: &str, args: &[C]) -> C {
        match f {
            "sum" => args.iter().fold((0.0, 0.0), |a, b| add(a, *b)),
            _ => args.iter().fold(ONE, |a, b| mul(a, *b)),
        }
    }
}

pub fn c17(run: &Run) {
    type Z = Complex<f64>;
    let table = ctable();
    run.bound("functions", table.iter().map(|t| t.0).chain(["+", "-", "*", "/", "^", "log(z, base)", "sum", "product", "avg"]).collect::<Vec<_>>());
    run.assume("the reference is the definition of each function by exp, ln and the real functions of the standard library; next to a branch cut either side is accepted; angles are in radians");
    let n = run.pick(30, 80);
    let step = run.pick(0.125, 0.0625);
    let mut pts: Vec<f64> = (-n..=n).map(|k| k as f64 * step).collect();
    pts.extend([-10.0, -5.0, 5.0, 10.0, 0.1, -0.1, 1e-3, -1e-3, 0.7, -0.7]);
    let mut grid: Vec<C> = Vec::new();
    for a in &pts {
        for b in &pts {
            grid.push((*a, *b));
        }
    }
    run.bound("operands", grid.len() as u64);
    let z = |c: C| Z::new(c.0, c.1);
    let un = |c: Z| (c.re, c.im);
    run.par(&grid, DefaultContext::<Z>::new_complex, |w, ctx, a| {
        w.states += 1;
        w.begin(&format!("[complex] functions of {:?}", a));
        for (name, f) in &table {
            let real = ctx.get_function(name).expect("function is not defined");
            w.transitions += 1;
            w.traces += 1;
            let got = guard(|| real.call(&[z(*a)]).ok().map(un));
            let ok = matches!(&got, Ok(g) if caccept(f, *a, *g));
            if !ok {
                w.violation(format!("[complex] {}{:?}", name, a), format!("{:?} instead of {:?}", got, f(*a)));
            }
        }
        w.end();
    });
    // two operands
    let m = run.pick(18, 28);
    let mut g2: Vec<C> = Vec::new();
    let p2: Vec<f64> = (-m..=m).map(|k| k as f64 * 0.5).collect();
    for a in &p2 {
        for b in &p2 {
            g2.push((*a, *b));
        }
    }
    run.bound("pairs of operands", (g2.len() * g2.len()) as u64);
    run.par(&g2, DefaultContext::<Z>::new_complex, |w, ctx, a| {
        let a = *a;
        w.begin(&format!("[complex] operators with left operand {:?}", a));
        for b in &g2 {
            let b = *b;
            w.states += 1;
            for name in ["+", "-", "*", "/", "^", "mod", "sum", "product", "avg", "log"] {
                w.transitions += 1;
                w.traces += 1;
                let got = match ctx.get_binary_function(name) {
                    Some(f) => guard(|| f.call(z(a), z(b)).ok().map(un)),
                    None => {
                        let f = ctx.get_function(name).expect("function is not defined");
                        guard(|| f.call(&[z(a), z(b)]).ok().map(un))
                    }
                };
                let ok = match (&got, name) {
                    (Err(_), _) => false,
                    (Ok(g), "/" | "mod") if b == (0.0, 0.0) => g.map_or(true, |g| !fin(g)),
                    (Ok(g), "+" | "sum") => caccept(|a| add(a, b), a, *g),
                    (Ok(g), "-") => caccept(|a| sub(a, b), a, *g),
                    (Ok(g), "*" | "product") => caccept(|a| mul(a, b), a, *g),
                    (Ok(g), "/") => caccept(|a| div(a, b), a, *g),
                    (Ok(g), "mod") => match g {
                        None => false,
                        Some(g) => {
                            // what remains of a Gaussian multiple of the divisor, with the sign of the dividend
                            let q = div(sub(a, *g), b);
                            let whole = (q.0 - q.0.round()).abs() < 1e-9 && (q.1 - q.1.round()).abs() < 1e-9;
                            let exact = div(a, b);
                            let off = |q: f64, e: f64| q.round().abs() - e.abs();
                            let near_below = |q: f64, e: f64| off(q, e) < 1e-9 && off(q, e) > -1.0 - 1e-9 && (q.round() == 0.0 || q * e > 0.0);
                            whole && near_below(q.0, exact.0) && near_below(q.1, exact.1) && (a.1 != 0.0 || b.1 != 0.0 || near(*g, (a.0 % b.0, 0.0), 1e-12))
                        }
                    },
                    (Ok(g), "avg") => caccept(|a| scale(0.5, add(a, b)), a, *g),
                    (Ok(g), "log") => {
                        if b.1 != 0.0 {
                            // a complex base may be rejected
                            g.is_none() || caccept(|a| div(ln(a), ln(b)), a, *g)
                        } else if b.0 <= 0.0 || b.0 == 1.0 {
                            true
                        } else {
                            caccept(|a| scale(1.0 / b.0.ln(), ln(a)), a, *g)
                        }
                    }
                    (Ok(g), _) => {
                        if a == (0.0, 0.0) {
                            let want = pow(a, b);
                            !fin(want) || *g == Some(want) || matches!(g, Some(g) if near(*g, want, 1e-12))
                        } else {
                            caccept(|a| pow(a, b), a, *g)
                        }
                    }
                };
                if !ok {
                    w.violation(format!("[complex] {}({:?}, {:?})", name, a, b), format!("{:?}", got));
                }
            }
        }
        w.end();
    });
    // lists
    let few: [C; 5] = [(1.0, 0.0), (0.0, 1.0), (-2.0, 0.5), (0.0, 0.0), (3.0, -1.0)];
    let len = run.pick(6u32, 8);
    run.bound("lists", format!("all the lists of 1 to {} of {:?}; 7 to 40 values, one of them different, at each position", len, few));
    let lists: Vec<Vec<C>> = (1..=len)
        .flat_map(|n| (0..5usize.pow(n)).map(move |k| (0..n).map(|j| few[k / 5usize.pow(j) % 5]).collect()))
        .chain((7..=40).flat_map(|n| {
            (0..n).map(move |i| {
                let mut l = vec![(1.0, 0.0); n];
                l[i] = (2.5, -0.5);
                l
            })
        }))
        .collect();
    run.par(&lists, DefaultContext::<Z>::new_complex, |w, ctx, l| {
        w.states += 1;
        let sum = l.iter().fold((0.0, 0.0), |a, b| add(a, *b));
        let prod = l.iter().fold((1.0, 0.0), |a, b| mul(a, *b));
        let args: Vec<Z> = l.iter().map(|a| z(*a)).collect();
        for (name, want) in [("sum", sum), ("product", prod), ("avg", scale(1.0 / l.len() as f64, sum))] {
            w.transitions += 1;
            w.traces += 1;
            let f = ctx.get_function(name).expect("function is not defined");
            let got = guard(|| f.call(&args).ok().map(un));
            if !matches!(got, Ok(Some(g)) if near(g, want, 1e-12)) {
                w.violation(format!("[complex] {}{:?}", name, l), format!("{:?} instead of {:?}", got, want));
            }
        }
    });
    // powers with large exponents, of bases whose powers stay in range
    let mut bases: Vec<C> = vec![(0.0, 1.0), (0.0, -1.0), (-1.0, 0.0), (1.0, 0.0), (0.6, 0.8), (-0.8, 0.6), (2.0, 0.0), (-2.0, 0.0), (0.5, 0.0), (1.5, 1.5), (-0.3, 0.2)];
    for e in [1e-4, 1e-6, 1e-8, 3e-9, 1e-10] {
        bases.extend([(1.0 + e, 0.0), (1.0 - e, 0.0), (1.0, e), (1.0, -e), (-1.0 - e, 0.0), (-1.0, e), (e, 1.0)]);
    }
    let mut exps: Vec<f64> = vec![5e9, 1e10, 12345678901.0, 1e12, 255.5, 4294967296.5, 1e6];
    for k in 3..run.pick(44, 52) {
        let p = 2f64.powi(k);
        exps.extend([p - 1.0, p, p + 1.0]);
    }
    let exps: Vec<f64> = exps.iter().flat_map(|e| [*e, -*e]).collect();
    run.bound("powers with large exponents", (bases.len() * exps.len()) as u64);
    run.par(&bases, DefaultContext::<Z>::new_complex, |w, ctx, a| {
        let f = ctx.get_binary_function("^").expect("operator is not defined");
        for e in &exps {
            for im in [0.0, 0.25] {
                let b = (*e, im);
                w.states += 1;
                w.transitions += 1;
                let text = format!("[complex] {:?} ^ {:?}", a, b);
                w.begin(&text);
                let got = guard(|| f.call(z(*a), z(b)).ok().map(un));
                w.end();
                // the angle of a base on the cut has two values only if the exponent is not an integer
                let want = pow(*a, b);
                let m = want.0.hypot(want.1);
                let tol = 1e-14 * (1.0 + e.abs());
                let ok = match got {
                    Err(_) => false,
                    Ok(_) if !fin(want) || m > 1e300 || tol > 0.1 => true,
                    Ok(None) => false,
                    Ok(Some(g)) => (g.0 - want.0).hypot(g.1 - want.1) <= tol * m + 1e-300,
                };
                if !ok {
                    w.violation(text, format!("{:?} instead of {:?}", got, want));
                }
            }
        }
    });
    // operands of all the magnitudes, against a reference of 96 digits
    let mut parts = vec![0.0];
    let mags: &[f64] = run.pick(
        &[1e-9, 1e-4, 0.3, 1.0, 2.5, 20.0, 300.0, 700.0, 1e3, 1e5, 1e8, 1e12][..],
        &[1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 0.03, 0.3, 0.999, 1.0, 1.001, 2.5, 20.0, 50.0, 100.0, 300.0, 400.0, 700.0, 720.0, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e12, 1e15][..],
    );
    for m in mags {
        parts.extend([*m, -*m]);
    }
    let wide: Vec<C> = parts.iter().flat_map(|a| parts.iter().map(move |b| (*a, *b))).collect();
    run.bound("operands of all the magnitudes", format!("{} x {}, up to {:e}", parts.len(), parts.len(), mags[mags.len() - 1]));
    run.assume("a value is right if it differs by less than 1e-12 (1 + |value|) from the exact one; acot next to i and -i and acoth next to 1 and -1 are allowed what the rounding of 1/z costs them");
    run.par(&wide, DefaultContext::<Z>::new_complex, |w, ctx, a| {
        w.states += 1;
        w.begin(&format!("[complex] functions of {:?}", a));
        let exact = HZ(H::of_f64(a.0), H::of_f64(a.1));
        // both sides of the axes, where the cuts are
        let nudge = H(num_bigint::BigInt::from(1) << 60usize);
        let mut sides = vec![exact.clone()];
        if a.0 == 0.0 || a.1 == 0.0 {
            for (dx, dy) in [(nudge.clone(), nudge.clone()), (nudge.clone(), nudge.neg()), (nudge.neg(), nudge.clone()), (nudge.neg(), nudge.neg())] {
                sides.push(exact.add(&HZ(dx, dy)));
            }
        }
        for (name, _) in &table {
            let want: Option<Vec<C>> = sides.iter().map(|z| zvalue(name, z).map(|v| (v.0.f(), v.1.f()))).collect();
            // undefined, at a pole or too large
            let want = match want {
                Some(v) if v.iter().all(|v| fin(*v) && v.0.hypot(v.1) < 1e307) => v,
                _ => continue,
            };
            let mut tol = 1e-12;
            if let "acot" | "acoth" = *name {
                let d = if *name == "acot" { a.0.hypot(a.1.abs() - 1.0) } else { (a.0.abs() - 1.0).hypot(a.1) };
                tol += 1e-15 / d;
            }
            w.transitions += 1;
            w.traces += 1;
            let f = ctx.get_function(name).expect("function is not defined");
            let got = guard(|| f.call(&[z(*a)]).ok().map(un));
            let ok = matches!(&got, Ok(Some(g)) if want.iter().any(|v| near(*g, *v, tol)));
            if !ok {
                w.violation(format!("[complex] {}{:?}", name, a), format!("{:?} instead of {:?}", got, want[0]));
            }
        }
        w.end();
    });
    run.solo(|w| {
        w.begin("[complex] constants and argument counts");
        let ctx = DefaultContext::<Z>::new_complex();
        for (n, v) in [("i", (0.0, 1.0)), ("PI", (std::f64::consts::PI, 0.0)), ("E", (std::f64::consts::E, 0.0))] {
            w.states += 1;
            if ctx.get_constant(n).map(|c| un(*c)) != Some(v) {
                w.violation(format!("[complex] {}", n), format!("{:?}", ctx.get_constant(n)));
            }
        }
        for (name, _) in &table {
            let f = ctx.get_function(name).expect("function is not defined");
            for n in 0..5usize {
                if n != 1 && !(n == 2 && *name == "log") {
                    let args = vec![Z::new(0.5, 0.5); n];
                    w.traces += 1;
                    let got = guard(|| f.call(&args).is_ok());
                    if got != Ok(false) {
                        w.violation(format!("[complex] {} with {} arguments", name, n), format!("{:?} instead of an error", got));
                    }
                }
            }
        }
        let (neg, pos) = (ctx.get_unary_function("-").unwrap(), ctx.get_unary_function("+").unwrap());
        for a in &grid {
            w.traces += 1;
            if guard(|| neg.call(z(*a)).ok().map(un)) != Ok(Some(scale(-1.0, *a))) || guard(|| pos.call(z(*a)).ok().map(un)) != Ok(Some(*a)) {
                w.violation(format!("[complex] sign of {:?}", a), "wrong value");
            }
        }
        w.end();
    });
    // expressions with complex literals
    let lang = Lang {
        ops: vec![
            OpSpec { name: "+", bin: Some((1, L)), un: Some(Notation::Prefix) },
            OpSpec { name: "-", bin: Some((1, L)), un: Some(Notation::Prefix) },
            OpSpec { name: "*", bin: Some((2, L)), un: None },
            OpSpec { name: "/", bin: Some((2, L)), un: None },
            OpSpec { name: "^", bin: Some((3, R)), un: None },
        ],
        vars: vec!["x"],
        cons: vec!["i"],
        funs: vec!["sum"],
        implicit: false,
        custom_call: false,
    };
    let len = run.pick(7, 9);
    run.bound("max lexemes of the expressions with literals such as 3i", len as u64);
    let mut gen = Gen::of(&lang, len);
    gen.numbers = false;
    gen.funs.clear();
    gen.operands = vec![lx(K::Num, "2"), lx(K::Num, "3i"), lx(K::Con, "i"), lx(K::Num, "0.5i"), lx(K::Var, "x")];
    gen.groups = vec!["("];
    gen.binary = vec!["+", "-", "*", "/", "^"];
    gen.prefix = vec!["-"];
    if !run.thorough() {
        gen.operands.truncate(3);
    }
    let items = gen.split(3);
    run.par(
        &items,
        || -> &'static Evaluator<'static, Z> {
            let mut c = DefaultContext::<Z>::new_complex();
            c.set_variable("x", Z::new(1.5, -0.5)).unwrap();
            Box::leak(Box::new(Evaluator::with_context(c)))
        },
        |w, ev, it| {
            let ev: &'static Evaluator<'static, Z> = ev;
            gen.dfs(w, it, &mut |w, toks| {
                let want = match Parser::parse(&lang, toks, &CAlg) {
                    Some(v) => v,
                    None => return,
                };
                if !fin(want) || want.0.hypot(want.1) > 1e6 {
                    return;
                }
                for sep in [" ", ""] {
                    let s = join(toks, sep);
                    w.begin(&s);
                    let got = guard(|| ev.eval(&s).ok().map(un));
                    w.end();
                    // a power of a power amplifies the rounding, and may cross a branch cut
                    let pows = toks.iter().filter(|t| t.s == "^").count();
                    let ok = match &got {
                        Ok(Some(g)) => pows > 0 || near(*g, want, 1e-9),
                        _ => pows > 1,
                    };
                    if !ok {
                        w.violation(s, format!("{:?} instead of {:?}", got, want));
                    }
                }
            });
        },
    );
}
