//! The kind of an error tells what was wrong.
use crate::fw::*;
use crate::gen::*;
use crate::sym::*;
use num_traits::{One, ToPrimitive, Zero};
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use std::fmt::Debug;
use std::str::FromStr;

type Kind = Result<Option<ErrorKind>, String>;

/// `Ok(None)`: a value, `Ok(Some)`: the kind of the error. The message must not be empty.
fn kind<N>(f: impl FnOnce() -> prexel::Result<N>) -> Kind {
    guard(|| {
        f().err().map(|e| {
            assert!(!e.to_string().is_empty(), "an error without message");
            e.kind()
        })
    })
}

/// The errors themselves.
fn errors(run: &Run) {
    run.solo(|w| {
        w.begin("errors");
        for (i, k) in super::order::KINDS.iter().enumerate() {
            w.states += 1;
            w.traces += 1;
            let plain = Error::from(*k);
            let mut ok = plain.kind() == *k && plain.to_string() == k.as_str() && !k.as_str().is_empty();
            for text in ["", "x", "a long text, with `symbols` and é"] {
                let e = Error::new(*k, text);
                ok &= e.kind() == *k && e.to_string() == text && e == plain;
            }
            for (j, o) in super::order::KINDS.iter().enumerate() {
                w.transitions += 1;
                ok &= (Error::from(*o) == plain) == (i == j) && (k.as_str() == o.as_str()) == (i == j);
            }
            if !ok {
                w.violation(format!("{:?}", k), "an error must have its kind and message, and equal those of the same kind only");
            }
        }
        let e = Error::other("x");
        if e.kind() != ErrorKind::Unknown || e.to_string() != "x" {
            w.violation("Error::other", format!("{:?}", e));
        }
        w.end();
    });
}

const SPACES: [&str; 8] = [" ", "\t", "\n", "\r", "\u{a0}", "\u{2003}", "\u{3000}", "\u{b}"];

fn blank<N: FromStr + Debug + Clone + 'static>(run: &Run, tag: &str, make: impl Fn() -> Evaluator<'static, N, DefaultContext<'static, N>> + Sync) {
    run.par(
        &raw_prefixes(SPACES.len(), 1),
        || -> &'static Evaluator<'static, N, DefaultContext<'static, N>> { Box::leak(Box::new(make())) },
        |w, ev, it| {
            let ev: &'static Evaluator<'static, N, DefaultContext<'static, N>> = ev;
            let mut one = |w: &mut Worker, s: &str| {
                w.traces += 1;
                let got = kind(|| ev.eval(s));
                if got != Ok(Some(ErrorKind::Empty)) {
                    w.violation(format!("[{}] {:?}", tag, s), format!("{:?} instead of Empty", got));
                }
            };
            w.begin(tag);
            one(w, "");
            raw_dfs(w, SPACES.len(), it, 4, &mut |w, ix| {
                let s: String = ix.iter().map(|i| SPACES[*i]).collect();
                one(w, &s);
            });
            w.end();
        },
    );
}

/// Malformed expressions over operations that never fail.
fn malformed(run: &Run) {
    let al = [
        lx(K::Num, "1"),
        lx(K::Var, "x"),
        lx(K::Op, "-"),
        lx(K::Op, "*"),
        lx(K::Op, "!"),
        lx(K::Open, "("),
        lx(K::Close, ")"),
        lx(K::Fun, "f"),
        lx(K::Comma, ","),
        lx(K::Bad, "?"),
        lx(K::Open, "["),
        lx(K::Close, "]"),
    ];
    let len = run.pick(6, 7);
    run.bound("malformed expressions: any sequence of 12 lexemes, max lexemes", len as u64);
    for implicit in [false, true] {
        let mut lang = Lang::standard();
        lang.implicit = implicit;
        lang.custom_call = implicit;
        run.par(
            &raw_prefixes(al.len(), 2),
            || -> &'static Evaluator<'static, Sym> { Box::leak(Box::new(Evaluator::with_context(lang.context()))) },
            |w, ev, it| {
                let ev: &'static Evaluator<'static, Sym> = ev;
                raw_dfs(w, al.len(), it, len, &mut |w, ix| {
                    let toks: Vec<Lex> = ix.iter().map(|i| al[*i]).collect();
                    if ref_hash(&lang, &toks).is_some() {
                        return;
                    }
                    let text = join(&toks, " ");
                    w.begin(&text);
                    let got = kind(|| ev.eval(&text));
                    w.end();
                    if !matches!(got, Ok(Some(ErrorKind::InvalidInput | ErrorKind::InvalidExpression))) {
                        w.violation(format!("{} (implicit {})", text, implicit), format!("malformed, {:?} instead of InvalidInput or InvalidExpression", got));
                    }
                });
            },
        );
    }
}

/// What the functions accept, in all the contexts.
fn accepts(name: &str, n: usize) -> bool {
    match name {
        "sum" | "product" | "avg" => n >= 1,
        "max" | "min" => n >= 2,
        "random" => n <= 2,
        "log" => n == 1 || n == 2,
        "atan2" => n == 2,
        _ => n == 1,
    }
}

fn counts<N: Clone + Debug + FromStr + 'static>(run: &Run, tag: &str, make: impl Fn() -> DefaultContext<'static, N>, one: N) {
    run.solo(|w| {
        let ctx = make();
        let ev: &'static Evaluator<'static, N> = Box::leak(Box::new(Evaluator::with_context(make())));
        for (alias, f) in ctx.functions() {
            let name = f.name().to_lowercase();
            for n in 0..=9usize {
                w.states += 1;
                if accepts(&name, n) || name == "atan" && n == 2 {
                    continue;
                }
                let text = format!("{}({})", alias, vec!["1"; n].join(", "));
                w.begin(&text);
                w.traces += 1;
                for got in [kind(|| f.call(&vec![one.clone(); n])), kind(|| ev.eval(&text)), kind(|| ev.eval(&format!("1 + 2 * {}", text)))] {
                    w.transitions += 1;
                    if got != Ok(Some(ErrorKind::InvalidArgumentCount)) {
                        w.violation(format!("[{}] {}", tag, text), format!("{:?} instead of InvalidArgumentCount", got));
                    }
                }
                w.end();
            }
        }
    });
}

/// A division by zero is reported as such, whatever is divided.
fn by_zero<N: Clone + Debug + Zero + Sync + 'static>(run: &Run, tag: &str, grid: &[N], make: impl Fn() -> DefaultContext<'static, N> + Sync) {
    run.par(grid, &make, |w, ctx, a| {
        for op in ["/", "mod"] {
            w.states += 1;
            w.traces += 1;
            let f = ctx.get_binary_function(op).expect("operator is not defined");
            w.begin(&format!("[{}] {:?} {} 0", tag, a, op));
            let got = kind(|| f.call(a.clone(), N::zero()));
            w.end();
            if got != Ok(Some(ErrorKind::DivisionByZero)) {
                w.violation(format!("[{}] {:?} {} 0", tag, a, op), format!("{:?} instead of DivisionByZero", got));
            }
        }
    });
}

fn factorials<N: Clone + Debug + Zero + PartialOrd + Sync + 'static>(run: &Run, tag: &str, grid: &[N], make: impl Fn() -> DefaultContext<'static, N> + Sync) {
    run.par(grid, &make, |w, ctx, a| {
        if *a >= N::zero() {
            return;
        }
        w.states += 1;
        w.traces += 1;
        let f = ctx.get_unary_function("!").expect("operator is not defined");
        w.begin(&format!("[{}] ({:?})!", tag, a));
        let got = kind(|| f.call(a.clone()));
        w.end();
        if got != Ok(Some(ErrorKind::NegativeValue)) {
            w.violation(format!("[{}] ({:?})!", tag, a), format!("{:?} instead of NegativeValue", got));
        }
    });
}

/// The results of integers out of the range.
fn overflow<N>(run: &Run, tag: &str, grid: &[i64], min: i64, max: i64)
where
    N: prexel::num::checked::CheckedNum + Copy + 'static + num_traits::NumCast,
{
    let (min, max) = (min as i128, max as i128);
    run.par(grid, DefaultContext::<N>::new_checked, |w, ctx, a| {
        let n = |v: i64| -> N { num_traits::cast(v).unwrap() };
        let a = *a;
        w.begin(&format!("[{}] results out of range with {}", tag, a));
        let expect = |w: &mut Worker, what: String, exact: i128, got: Kind| {
            w.transitions += 1;
            w.traces += 1;
            let want = if exact < min || exact > max { Ok(Some(ErrorKind::Overflow)) } else { Ok(None) };
            if got != want {
                w.violation(format!("[{}] {}", tag, what), format!("{:?} instead of {:?}", got, want));
            }
        };
        let (x, neg) = (a as i128, ctx.get_unary_function("-").expect("operator is not defined"));
        expect(w, format!("-({})", a), -x, kind(|| neg.call(n(a))));
        let abs = ctx.get_function("abs").expect("function is not defined");
        expect(w, format!("abs({})", a), x.abs(), kind(|| abs.call(&[n(a)])));
        if a >= 0 {
            let f = ctx.get_unary_function("!").expect("operator is not defined");
            let exact = (1..=x.min(30)).product();
            expect(w, format!("({})!", a), exact, kind(|| f.call(n(a))));
        }
        for b in grid {
            let (b, y) = (*b, *b as i128);
            w.states += 1;
            for (op, exact) in [("+", x + y), ("-", x - y), ("*", x * y), ("/", if y == 0 { 0 } else { x / y })] {
                if op == "/" && b == 0 {
                    continue;
                }
                let f = ctx.get_binary_function(op).expect("operator is not defined");
                expect(w, format!("{} {} {}", a, op, b), exact, kind(|| f.call(n(a), n(b))));
            }
            if b != 0 {
                // the lowest integer has no quotient by -1, so its remainder may be refused
                let f = ctx.get_binary_function("mod").expect("operator is not defined");
                let exact = if a as i128 == min && b == -1 { i128::MAX } else { 0 };
                let got = kind(|| f.call(n(a), n(b)));
                if !(exact == i128::MAX && got == Ok(None)) {
                    expect(w, format!("{} mod {}", a, b), exact, got);
                }
            }
            for (name, exact) in [("sum", x + y), ("product", x * y)] {
                let f = ctx.get_function(name).expect("function is not defined");
                expect(w, format!("{}({}, {})", name, a, b), exact, kind(|| f.call(&[n(a), n(b)])));
            }
            let p = if (0..64).contains(&y) { (0..y).try_fold(1i128, |t, _| t.checked_mul(x)) } else { None };
            if p.map_or((0..64).contains(&y), |p| (p as f64) < min as f64 * 1.01 || p as f64 > max as f64 * 1.01) {
                let f = ctx.get_binary_function("^").expect("operator is not defined");
                expect(w, format!("{} ^ {}", a, b), i128::MAX, kind(|| f.call(n(a), n(b))));
            }
        }
        w.end();
    });
}

fn decimal_overflow(run: &Run, grid: &[Decimal]) {
    run.par(grid, DefaultContext::new_decimal, |w, ctx, a| {
        w.begin(&format!("[decimal] results out of range with {}", a));
        for b in grid {
            w.states += 1;
            for op in ["+", "-", "*", "/", "mod"] {
                let f = ctx.get_binary_function(op).expect("operator is not defined");
                w.transitions += 1;
                w.traces += 1;
                let got = kind(|| f.call(*a, *b));
                let zero = b.is_zero() && (op == "/" || op == "mod");
                let ok = match &got {
                    Ok(None) => !zero,
                    Ok(Some(ErrorKind::DivisionByZero)) => zero,
                    Ok(Some(ErrorKind::Overflow)) => !zero,
                    _ => false,
                };
                if !ok {
                    w.violation(format!("[decimal] {} {} {}", a, op, b), format!("{:?}", got));
                }
            }
        }
        w.end();
    });
}

/// The error of an evaluation is the one of the first operation that fails.
struct First<'c, N: 'static>(&'c DefaultContext<'static, N>);
impl<N: Clone + FromStr> Algebra for First<'_, N> {
    type T = Result<N, ErrorKind>;
    fn num(&self, s: &str) -> Self::T {
        s.parse().map_err(|_| ErrorKind::InvalidInput)
    }
    fn var(&self, s: &str) -> Self::T {
        Ok(self.0.get_variable(s).expect("variable is not defined").clone())
    }
    fn con(&self, s: &str) -> Self::T {
        Ok(self.0.get_constant(s).expect("constant is not defined").clone())
    }
    fn un(&self, op: &str, a: Self::T) -> Self::T {
        self.0.get_unary_function(op).expect("operator is not defined").call(a?).map_err(|e| e.kind())
    }
    fn bin(&self, op: &str, a: Self::T, b: Self::T) -> Self::T {
        self.0.get_binary_function(op).expect("operator is not defined").call(a?, b?).map_err(|e| e.kind())
    }
    fn call(&self, f: &str, args: &[Self::T]) -> Self::T {
        let args: Result<Vec<N>, ErrorKind> = args.iter().cloned().collect();
        self.0.get_function(f).expect("function is not defined").call(&args?).map_err(|e| e.kind())
    }
}

fn first<N>(run: &Run, tag: &str, len: usize, x: &str, make: impl Fn() -> DefaultContext<'static, N> + Sync)
where
    N: Clone + FromStr + Debug + PartialEq + Sync + 'static,
{
    run.bound(&format!("{}: evaluations that fail, max lexemes", tag), len as u64);
    let mut lang = Lang::standard();
    lang.vars = vec!["x"];
    lang.funs = vec!["max", "sqrt"];
    let mut g = Gen::of(&lang, len);
    g.operands = vec![lx(K::Var, "x"), lx(K::Num, "0"), lx(K::Num, "99")];
    g.numbers = false;
    g.groups = vec!["("];
    g.funs = lang.funs.clone();
    g.binary = vec!["-", "*", "/", "^"];
    g.prefix = vec!["-"];
    run.par(
        &g.split(3),
        || {
            let mut c = make();
            c.set_variable("x", x.parse().ok().unwrap()).unwrap();
            let mut d = make();
            d.set_variable("x", x.parse().ok().unwrap()).unwrap();
            let ev: &'static Evaluator<'static, N> = Box::leak(Box::new(Evaluator::with_context(c)));
            (ev, d)
        },
        |w, (ev, ctx), it| {
            let ev: &'static Evaluator<'static, N> = ev;
            g.dfs(w, it, &mut |w, toks| {
                let text = join(toks, " ");
                w.begin(&text);
                let want = guard(|| Parser::parse(&lang, toks, &First(ctx)).expect("malformed").err());
                let got = kind(|| ev.eval(&text));
                w.end();
                if got != want {
                    w.violation(format!("[{}] {}", tag, text), format!("{:?} instead of {:?}", got, want));
                }
            });
        },
    );
}

pub fn c28(run: &Run) {
    errors(run);
    blank(run, "f64", || Evaluator::with_context(DefaultContext::<f64>::new_checked()));
    blank(run, "i32", || Evaluator::with_context(DefaultContext::<i32>::new_checked()));
    blank(run, "decimal", || Evaluator::with_context(DefaultContext::new_decimal()));
    blank(run, "complex", || Evaluator::with_context(DefaultContext::<Complex<f64>>::with_config_complex(Config::new().with_implicit_mul(true).with_complex_number(true))));
    run.solo(|w| {
        let ev = Evaluator::with_context_and_tokenizer(DefaultContext::new_binary(), Tokenizer::with_splitter(binary_number_splitter()));
        let ev: &'static Evaluator<'static, Binary, DefaultContext<'static, Binary>> = Box::leak(Box::new(ev));
        for s in SPACES.iter().chain([&""]) {
            w.traces += 1;
            let got = kind(|| ev.eval(s));
            if got != Ok(Some(ErrorKind::Empty)) {
                w.violation(format!("[binary] {:?}", s), format!("{:?} instead of Empty", got));
            }
        }
        let ctx = DefaultContext::new_binary();
        for op in ["<<", ">>", "shl", "shr"] {
            let f = ctx.get_binary_function(op).expect("operator is not defined");
            for a in [0i128, 1, -1, i128::MAX, i128::MIN] {
                for b in (-3i128..=130).chain([255, 256, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 64, 1 << 96, i128::MIN, i128::MAX]) {
                    w.states += 1;
                    w.traces += 1;
                    let got = kind(|| f.call(Binary(a), Binary(b)));
                    let want = if (0..128).contains(&b) { None } else { Some(ErrorKind::Overflow) };
                    if got != Ok(want) {
                        w.violation(format!("[binary] {} {} {}", a, op, b), format!("{:?} instead of {:?}", got, want));
                    }
                }
            }
        }
    });
    malformed(run);
    counts(run, "f64", DefaultContext::<f64>::new_checked, 1.0);
    counts(run, "f64 unchecked", DefaultContext::<f64>::new_unchecked, 1.0);
    counts(run, "i32", DefaultContext::<i32>::new_checked, 1);
    counts(run, "i32 unchecked", DefaultContext::<i32>::new_unchecked, 1);
    counts(run, "i128", DefaultContext::<i128>::new_checked, 1);
    counts(run, "decimal", DefaultContext::new_decimal, Decimal::one());
    counts(run, "complex", DefaultContext::<Complex<f64>>::new_complex, Complex::new(1.0, 0.0));
    let floats: Vec<f64> = (-40..=40).map(|i| i as f64 / 4.0).chain([1e300, -1e300, 1e-300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0]).collect();
    by_zero(run, "f64", &floats, DefaultContext::new_checked);
    by_zero(run, "f64 unchecked", &floats, DefaultContext::new_unchecked);
    factorials(run, "f64", &floats.iter().copied().filter(|v| v.is_finite()).collect::<Vec<_>>(), DefaultContext::new_checked);
    factorials(run, "f64 unchecked", &floats.iter().copied().filter(|v| v.is_finite()).collect::<Vec<_>>(), DefaultContext::new_unchecked);
    let i8s: Vec<i8> = (i8::MIN..=i8::MAX).collect();
    by_zero(run, "i8", &i8s, DefaultContext::new_checked);
    by_zero(run, "i8 unchecked", &i8s, DefaultContext::new_unchecked);
    factorials(run, "i8", &i8s, DefaultContext::new_checked);
    let ds: Vec<Decimal> = ["0", "1", "-1", "0.5", "-0.5", "3", "10", "99", "0.0000000000000000000000000001", "-0.0000000000000000000000000001",
        "79228162514264337593543950335", "-79228162514264337593543950335", "7922816251426433759354395033.5", "1.0000000000000000000000000000", "281474976710656", "39614081257132168796771975168"]
        .iter().map(|s| s.parse().unwrap()).collect();
    by_zero(run, "decimal", &ds, DefaultContext::new_decimal);
    factorials(run, "decimal", &ds, DefaultContext::new_decimal);
    decimal_overflow(run, &ds);
    let zs: Vec<Complex<f64>> = floats.iter().flat_map(|a| [0.0, 1.0, -2.5].map(|b| Complex::new(*a, b))).collect();
    run.par(&zs, || DefaultContext::<Complex<f64>>::new_complex(), |w, ctx, a| {
        let f = ctx.get_binary_function("/").expect("operator is not defined");
        w.states += 1;
        w.traces += 1;
        w.begin(&format!("[complex] {} / 0", a));
        let got = kind(|| f.call(*a, Complex::new(0.0, 0.0)));
        w.end();
        if got != Ok(Some(ErrorKind::DivisionByZero)) {
            w.violation(format!("[complex] {} / 0", a), format!("{:?} instead of DivisionByZero", got));
        }
    });
    let all8: Vec<i64> = (-128..128).collect();
    overflow::<i8>(run, "i8", &all8, -128, 127);
    let grid = |bits: u32| -> Vec<i64> {
        let mut v: Vec<i64> = (-12..=12).collect();
        for k in 3..bits {
            let p = if k == 63 { i64::MAX } else { 1i64 << k };
            for d in -1..=1 {
                v.push(p.saturating_add(d));
                v.push((-p).saturating_add(d));
            }
        }
        v.push(if bits == 64 { i64::MIN } else { -(1i64 << (bits - 1)) });
        let (lo, hi) = if bits == 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (bits - 1)), (1i64 << (bits - 1)) - 1) };
        v.retain(|x| *x >= lo && *x <= hi);
        v.sort();
        v.dedup();
        v
    };
    overflow::<i16>(run, "i16", &grid(16), i16::MIN as i64, i16::MAX as i64);
    overflow::<i32>(run, "i32", &grid(32), i32::MIN as i64, i32::MAX as i64);
    overflow::<i64>(run, "i64", &grid(64), i64::MIN, i64::MAX);
    run.bound("integer operands", "all the pairs of i8, boundary grids of i16 to i64");
    let len = run.pick(6, 8);
    first::<i32>(run, "i32", len, "7", DefaultContext::new_checked);
    first::<f64>(run, "f64", len, "2.5", DefaultContext::new_checked);
    first::<Decimal>(run, "decimal", len, "2.5", DefaultContext::new_decimal);
    let _ = 0i32.to_f64();
}
