//! Totality: no input makes the evaluator panic or run forever.
use crate::fw::*;
use crate::gen::*;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use std::fmt::Debug;
use std::str::FromStr;

const FRAGMENTS: [&str; 26] = [
    "1", "-", "(", ")", "Max", "x", "9", ".", "!", ",", "^", "/", "i", "*", "0", "[", "mod", " ", "e", "b", "+", "<", "pi",
    "é", "%", "{",
];

fn config(i: usize) -> Config {
    match i {
        0 => Config::new(),
        1 => Config::new().with_implicit_mul(true),
        _ => Config::new().with_implicit_mul(true).with_custom_function_call(true).with_complex_number(true),
    }
}

fn strings<N: FromStr + Debug + Clone + 'static>(
    run: &Run,
    tag: &str,
    len: usize,
    make: impl Fn() -> Evaluator<'static, N, DefaultContext<'static, N>> + Sync,
) {
    let n = FRAGMENTS.len();
    let items = raw_prefixes(n, 2);
    run.par(
        &items,
        || -> &'static Evaluator<'static, N, DefaultContext<'static, N>> { Box::leak(Box::new(make())) },
        |w, ev, it| {
            let ev: &'static Evaluator<'static, N, DefaultContext<'static, N>> = ev;
            raw_dfs(w, n, it, len, &mut |w, ix| {
                let s: String = ix.iter().map(|i| FRAGMENTS[*i]).collect();
                w.begin(&s);
                let r = guard(|| ev.eval(&s).is_ok());
                w.end();
                if let Err(p) = r {
                    w.violation(format!("[{}] {}", tag, s), format!("panic: {}", p));
                }
            });
        },
    );
}

/// Calls everything registered in the context with every tuple of the grid.
fn calls<N: Clone + Debug + Send + Sync + 'static>(
    run: &Run,
    tag: &str,
    grid: &[N],
    arity3: bool,
    make: impl Fn() -> DefaultContext<'static, N> + Sync,
) {
    let idx: Vec<usize> = (0..grid.len()).collect();
    run.par(&idx, &make, |w, ctx, i| {
        let a = &grid[*i];
        let call = |w: &mut Worker, name: &str, args: &[N], f: &dyn Fn() -> bool| {
            let text = format!("[{}] {}{:?}", tag, name, args);
            w.transitions += 1;
            w.begin(&text);
            let r = guard(f);
            w.end();
            if let Err(p) = r {
                w.violation(text, format!("panic: {}", p));
            }
        };
        w.states += 1;
        for (n, f) in ctx.unary_functions().iter() {
            call(w, n.as_str(), &[a.clone()], &|| f.call(a.clone()).is_ok());
        }
        for b in grid {
            w.states += 1;
            for (n, f) in ctx.binary_functions().iter() {
                call(w, n.as_str(), &[a.clone(), b.clone()], &|| f.call(a.clone(), b.clone()).is_ok());
            }
        }
        for (n, f) in ctx.functions().iter() {
            if n.as_str().eq_ignore_ascii_case("random") {
                continue;
            }
            if *i == 0 {
                call(w, n.as_str(), &[], &|| f.call(&[]).is_ok());
            }
            let a1 = [a.clone()];
            call(w, n.as_str(), &a1, &|| f.call(&a1).is_ok());
            for b in grid {
                let a2 = [a.clone(), b.clone()];
                call(w, n.as_str(), &a2, &|| f.call(&a2).is_ok());
                if arity3 {
                    for c in grid {
                        let a3 = [a.clone(), b.clone(), c.clone()];
                        call(w, n.as_str(), &a3, &|| f.call(&a3).is_ok());
                    }
                }
            }
        }
    });
}

pub fn f64_grid() -> Vec<f64> {
    let mut g = vec![
        0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.7, -3.7, 1.5, 2.5, -2.5, 10.0, 90.0, -90.0, 180.0, 270.0, 360.0, 45.0, 30.0,
        170.0, 171.0, 1000.0, 1e15, 1e16, -1e16, 9007199254740993.0, 1e-300, 1e300, -1e300, 0.1,
    ];
    g.extend([f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324]);
    g
}

pub fn decimal_grid() -> Vec<Decimal> {
    [
        "0", "1", "-1", "2", "-2", "0.5", "-0.5", "3", "10", "27", "28", "29", "90", "-90", "180", "270", "360", "0.1", "-0.1", "1.5",
        "2.5", "-2.5", "64", "65", "66", "67", "100", "-100", "1000", "0.0000000000000000000000000001",
        "-0.0000000000000000000000000001", "79228162514264337593543950335", "-79228162514264337593543950335",
        "79228162514264337593543950334", "39614081257132168796771975168", "7922816251426433759354395.0335",
        "1.0000000000000000000000000001", "0.9999999999999999999999999999", "18446744073709551616", "9223372036854775807",
        "9223372036854775808", "4294967296", "1000000000000000", "3.1415926535897932384626433833",
    ]
    .iter()
    .map(|s| Decimal::from_str(s).unwrap())
    .collect()
}

pub fn complex_grid() -> Vec<Complex<f64>> {
    let p = [0.0, -0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 90.0, 1e300, -1e300, 1e-300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    let mut v = vec![];
    for a in p {
        for b in p {
            v.push(Complex::new(a, b));
        }
    }
    v
}

pub fn binary_grid() -> Vec<Binary> {
    let mut v: Vec<i128> = vec![0, 1, -1, 2, -2, 3, 5, 62, 63, 64, 65, -63, -64, 126, 127, 128, 129, 255, 256, i128::MAX, i128::MIN, i128::MAX - 1, i128::MIN + 1];
    for s in [31, 32, 33, 62, 63, 64, 126] {
        v.push(1 << s);
        v.push(-(1 << s));
        v.push((1 << s) - 1);
    }
    v.into_iter().map(Binary).collect()
}

macro_rules! int_grid {
    ($t:ty) => {{
        let mut v: Vec<$t> = vec![0, 1, 2, 3, 5, 7, 10, 20, 33, 34, 60, 90, 100, 120];
        for k in v.clone() {
            v.push(-k);
        }
        for k in [0 as $t, 1, 2, 3, 7] {
            v.push(<$t>::MAX - k);
            v.push(<$t>::MIN + k);
            v.push(<$t>::MAX / 2 - k);
            v.push(<$t>::MIN / 2 + k);
        }
        v.sort();
        v.dedup();
        v
    }};
}

pub fn c03(run: &Run) {
    let len = run.pick(4, 5);
    run.bound("fragments", FRAGMENTS.to_vec());
    run.bound("max fragments (written without separators)", len as u64);
    run.assume("unchecked contexts over integers are documented to panic on overflow and are not explored");
    macro_rules! ev {
        ($make:expr, $x:expr) => {
            move || {
                let mut c = $make;
                c.set_variable("x", $x).unwrap();
                Evaluator::with_context(c)
            }
        };
    }
    for i in 0..3 {
        strings(run, &format!("f64 config {}", i), len, ev!(DefaultContext::<f64>::with_config_checked(config(i)), 3.0));
    }
    strings(run, "f64 unchecked", len, ev!(DefaultContext::<f64>::with_config_unchecked(config(1)), 3.0));
    strings(run, "i32", len, ev!(DefaultContext::<i32>::with_config_checked(config(1)), 3));
    strings(run, "i128", len, ev!(DefaultContext::<i128>::with_config_checked(config(0)), 3));
    strings(run, "decimal", len, ev!(DefaultContext::<Decimal>::with_config_decimal(config(1)), Decimal::from(3)));
    strings(run, "complex", len, ev!(DefaultContext::<Complex<f64>>::with_config_complex(config(2)), Complex::new(3.0, 1.0)));
    strings(run, "binary", len, || {
        let mut c = DefaultContext::<Binary>::with_config_binary(config(1));
        c.set_variable("x", Binary(3)).unwrap();
        Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter()))
    });
    let a3 = true;
    calls(run, "f64", &f64_grid(), a3, || DefaultContext::<f64>::new_checked());
    calls(run, "f64 unchecked", &f64_grid(), a3, || DefaultContext::<f64>::new_unchecked());
    calls(run, "f32", &f64_grid().iter().map(|x| *x as f32).collect::<Vec<_>>(), a3, || DefaultContext::<f32>::new_checked());
    calls(run, "i16", &int_grid!(i16), a3, || DefaultContext::<i16>::new_checked());
    calls(run, "i32", &int_grid!(i32), a3, || DefaultContext::<i32>::new_checked());
    calls(run, "i64", &int_grid!(i64), a3, || DefaultContext::<i64>::new_checked());
    calls(run, "i128", &int_grid!(i128), a3, || DefaultContext::<i128>::new_checked());
    calls(run, "i8", &(i8::MIN..=i8::MAX).collect::<Vec<_>>(), run.thorough(), || DefaultContext::<i8>::new_checked());
    calls(run, "decimal", &decimal_grid(), run.thorough(), || DefaultContext::<Decimal>::new_decimal());
    calls(run, "complex", &complex_grid(), false, || DefaultContext::<Complex<f64>>::new_complex());
    calls(run, "binary", &binary_grid(), false, || DefaultContext::<Binary>::new_binary());
    // depth: long inputs of every shape
    let n = run.pick(2000, 20000);
    run.bound("length of the repetitive inputs", n as u64);
    let shapes: Vec<(&str, String)> = vec![
        ("(((1)))", format!("{}1{}", "(".repeat(n), ")".repeat(n))),
        ("(((", "(".repeat(n)),
        (")))", ")".repeat(n)),
        ("---1", format!("{}1", "-".repeat(n))),
        ("- - 1", format!("{}1", "- ".repeat(n))),
        ("1!!!", format!("1{}", "!".repeat(n))),
        ("1+1+1", format!("1{}", "+1".repeat(n))),
        ("1^1^1", format!("1{}", "^1".repeat(n))),
        ("Max(Max(1))", format!("{}1{}", "Max(".repeat(n), ")".repeat(n))),
        ("Sum(1,1,1)", format!("Sum(1{})", ",1".repeat(n))),
        ("Sum(1,Sum(1,", format!("{}1{}", "Sum(1,".repeat(n), ")".repeat(n))),
        ("111", "1".repeat(n)),
        ("1.111", format!("1.{}", "1".repeat(n))),
        ("xxx", "x".repeat(n)),
        ("...", ".".repeat(n)),
        ("+-+-", "+-".repeat(n)),
        (",,,", ",".repeat(n)),
        ("1 1 1", "1 ".repeat(n)),
        ("ééé", "é".repeat(n)),
    ];
    fn long<N: FromStr + Debug + Clone + 'static>(w: &mut Worker, tag: &str, shapes: &[(&str, String)], ev: Evaluator<'static, N>) {
        let ev: &'static Evaluator<'static, N> = Box::leak(Box::new(ev));
        for (name, s) in shapes {
            w.states += 1;
            let text = format!("[{}] long {}", tag, name);
            w.begin(&text);
            let r = guard(|| ev.eval(s).is_ok());
            w.end();
            if let Err(p) = r {
                w.violation(text, format!("panic: {}", p));
            }
        }
    }
    run.solo(|w| {
        for i in 0..2 {
            long(w, "f64", &shapes, Evaluator::with_context(DefaultContext::<f64>::with_config_checked(config(i))));
            long(w, "i64", &shapes, Evaluator::with_context(DefaultContext::<i64>::with_config_checked(config(i))));
            long(w, "decimal", &shapes, Evaluator::with_context(DefaultContext::<Decimal>::with_config_decimal(config(i))));
        }
    });
}
