//! The contexts the crate provides, with its own operators and functions: the value of an expression must be
//! the one obtained by calling the operators along the reference tree.
use crate::fw::*;
use crate::gen::*;
use crate::sym::*;
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::evaluator::{infix_to_rpn, Evaluator};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use std::str::FromStr;

struct RealAlg<'c, N: 'static>(&'c DefaultContext<'static, N>);
impl<N: Clone + FromStr> Algebra for RealAlg<'_, N> {
    type T = Option<N>;
    fn num(&self, s: &str) -> Self::T {
        s.parse().ok()
    }
    fn var(&self, s: &str) -> Self::T {
        self.0.get_variable(s).cloned()
    }
    fn con(&self, s: &str) -> Self::T {
        self.0.get_constant(s).cloned()
    }
    fn un(&self, op: &str, a: Self::T) -> Self::T {
        self.0.get_unary_function(op)?.call(a?).ok()
    }
    fn bin(&self, op: &str, a: Self::T, b: Self::T) -> Self::T {
        self.0.get_binary_function(op)?.call(a?, b?).ok()
    }
    fn call(&self, f: &str, args: &[Self::T]) -> Self::T {
        let args: Option<Vec<N>> = args.iter().cloned().collect();
        self.0.get_function(f)?.call(&args?).ok()
    }
}

/// What the documentation promises about the operators of every arithmetic context.
pub fn documented(factorial: bool, modulo: bool) -> Lang {
    let mut lang = Lang::standard();
    lang.ops.retain(|o| (factorial || o.name != "!") && (modulo || o.name != "mod"));
    lang.cons = vec!["PI"];
    lang.funs = vec!["sum", "product"];
    lang
}

fn same<N: std::fmt::Debug + PartialEq>(a: &N, b: &N) -> bool {
    a == b || format!("{:?}", a) == format!("{:?}", b)
}

pub fn run_real<N>(run: &Run, tag: &str, g: &Gen, split: usize, make: impl Fn(Config) -> DefaultContext<'static, N> + Sync, x: N)
where
    N: Clone + FromStr + std::fmt::Debug + PartialEq + Sync + 'static,
{
    let cfg = || Config::new().with_implicit_mul(g.lang.implicit).with_custom_function_call(g.lang.custom_call);
    let items = g.split(split);
    run.par(
        &items,
        || -> &'static Evaluator<'static, N> {
            let mut c = make(cfg());
            c.set_variable("x", x.clone()).unwrap();
            Box::leak(Box::new(Evaluator::with_context(c)))
        },
        |w, ev, it| {
            let ev: &'static Evaluator<'static, N> = ev;
            g.dfs(w, it, &mut |w, toks| {
                let text = join(toks, " ");
                w.begin(&format!("[{}] {}", tag, text));
                // the unchecked operations may panic on overflow
                let want = guard(|| Parser::parse(&g.lang, toks, &RealAlg(ev.context())).flatten());
                if let Ok(want) = want {
                    let got = guard(|| ev.eval(&text).ok());
                    let ok = match (&got, &want) {
                        (Ok(Some(a)), Some(b)) => same(a, b),
                        (Ok(None), None) => true,
                        _ => false,
                    };
                    if !ok {
                        w.violation(format!("[{}] {}", tag, text), format!("{:?} instead of {:?}, the value of {}", got, want, ref_show(&g.lang, toks)));
                    }
                }
                w.end();
            });
        },
    );
}

/// Every provided arithmetic context over the sequences of a generator.
fn everywhere(run: &Run, split: usize, gen: impl Fn(Lang) -> Gen) {
    type Z = Complex<f64>;
    let lang = documented(true, true);
    let g = gen(lang.clone());
    run_real(run, "f64 checked", &g, split, DefaultContext::<f64>::with_config_checked, 2.5);
    run_real(run, "f64 unchecked", &g, split, DefaultContext::<f64>::with_config_unchecked, 2.5);
    run_real(run, "i64 checked", &g, split, DefaultContext::<i64>::with_config_checked, 3);
    run_real(run, "i64 unchecked", &g, split, DefaultContext::<i64>::with_config_unchecked, 3);
    run_real(run, "i128 checked", &g, split, DefaultContext::<i128>::with_config_checked, 3);
    run_real(run, "f32 checked", &g, split, DefaultContext::<f32>::with_config_checked, 2.5);
    run_real(run, "decimal", &g, split, DefaultContext::<Decimal>::with_config_decimal, Decimal::from_str("2.5").unwrap());
    let mut g = g;
    g.lang = documented(false, false);
    g.binary.retain(|b| *b != "mod");
    g.postfix.clear();
    run_real(run, "complex", &g, split, |c| DefaultContext::<Z>::with_config_complex(c.with_complex_number(true)), Z::new(1.5, -2.0));
}

pub fn grouping(run: &Run) {
    let len = run.pick(8, 9);
    run.bound("provided contexts (f32, f64, i64, i128, decimal, complex; checked and unchecked), max lexemes", len as u64);
    everywhere(run, 3, |lang| {
        let mut g = Gen::of(&lang, len);
        g.operands.clear();
        g.groups.clear();
        g.funs.clear();
        g.binary = vec!["+", "-", "*", "/", "mod", "^"];
        g.prefix = vec!["-", "+"];
        g.postfix = vec!["!"];
        g
    });
    let len = run.pick(7, 9);
    run.bound("provided contexts with groups, calls, variables and constants, max lexemes", len as u64);
    everywhere(run, 3, |lang| {
        let mut g = Gen::of(&lang, len);
        g.operands = vec![lx(K::Var, "x"), lx(K::Con, "PI")];
        g.groups = vec!["("];
        g.funs = vec!["sum"];
        g.binary = vec!["-", "/", "^"];
        g.prefix = vec!["-"];
        g.postfix = vec!["!"];
        g
    });
}

pub fn implicit(run: &Run) {
    let len = run.pick(7, 8);
    run.bound("provided contexts with implicit multiplication, max lexemes", len as u64);
    everywhere(run, 3, |mut lang| {
        lang.implicit = true;
        let mut g = Gen::of(&lang, len);
        g.operands = vec![lx(K::Var, "x"), lx(K::Con, "PI")];
        g.groups = vec!["("];
        g.funs = vec!["sum"];
        g.binary = vec!["-", "/", "^"];
        g.prefix = vec!["-"];
        g.postfix.clear();
        g
    });
}

pub fn calls(run: &Run) {
    let len = run.pick(11, 13);
    run.bound("provided contexts, nested calls of sum and product, max lexemes", len as u64);
    everywhere(run, 3, |lang| {
        let mut g = Gen::of(&lang, len);
        g.operands.clear();
        g.groups.clear();
        g.funs = vec!["sum", "product"];
        g.binary = vec!["-"];
        g.prefix.clear();
        g.postfix.clear();
        g
    });
}

/// Histories over the provided contexts: the value of an expression is the same after any others.
pub fn histories(run: &Run) {
    let n = run.pick(2, 3);
    run.bound("provided contexts, histories of evaluations", format!("all pairs of calls of one function or operator, and sequences of {} of a mixed list", n));
    let real = ["0.25", "0.2500001", "0.2504", "1.25", "2", "2.2500000001", "-0.25", "-3.5", "100.25", "1e"];
    let int = ["2", "3", "12", "-5", "0", "20", "2147483648", "1e"];
    history(run, "f64", &real, n, DefaultContext::<f64>::new_checked);
    history(run, "f64 unchecked", &real, n, DefaultContext::<f64>::new_unchecked);
    history(run, "i64", &int, n, DefaultContext::<i64>::new_checked);
    history(run, "i128 unchecked", &int[..6], n, DefaultContext::<i128>::new_unchecked);
    history(run, "decimal", &real, n, DefaultContext::<Decimal>::new_decimal);
    history(run, "complex", &["0.25", "0.2504", "2", "-3.5", "1.5i", "1.5001i", "1e"], n, DefaultContext::<Complex<f64>>::new_complex);
    history(run, "binary", &["2", "3", "12", "101", "0", "20", "2147483648", "1e"], n, DefaultContext::<prexel::binary::Binary>::new_binary);
}

fn history<N>(run: &Run, tag: &str, args: &[&str], depth: usize, make: impl Fn() -> DefaultContext<'static, N> + Sync)
where
    N: Clone + FromStr + std::fmt::Debug + PartialEq + Sync + Send + 'static,
{
    // one group of expressions per function or operator
    let ctx = make();
    let mut names: Vec<String> = ctx.functions().iter().map(|f| f.0.to_string()).collect();
    names.retain(|n| !n.to_lowercase().starts_with("rand"));
    names.sort();
    let mut groups: Vec<Vec<String>> = Vec::new();
    let paren = |a: &str| if a.starts_with('-') { format!("(0{})", a) } else { a.to_string() };
    for n in names {
        let mut g: Vec<String> = args.iter().map(|a| format!("{}({})", n, paren(a))).collect();
        g.push(format!("{}({}, {})", n, args[0], args[1]));
        g.push(format!("{}({}, {})", n, args[1], args[0]));
        g.push(format!("{}()", n));
        groups.push(g);
    }
    for o in ctx.binary_functions() {
        let mut g = Vec::new();
        for a in &args[..4] {
            for b in &args[..4] {
                g.push(format!("{} {} {}", paren(a), o.0, paren(b)));
            }
        }
        groups.push(g);
    }
    for o in ctx.unary_functions() {
        groups.push(args.iter().map(|a| match o.1.notation() {
            prexel::function::Notation::Prefix => format!("{} {}", o.0, paren(a)),
            prexel::function::Notation::Postfix => format!("{} {}", paren(a), o.0),
        }).collect());
    }
    type Ev<N> = &'static Evaluator<'static, N>;
    let fresh = || -> Ev<N> { Box::leak(Box::new(Evaluator::with_context(make()))) };
    let show = |v: &Result<Option<N>, String>| format!("{:?}", v);
    let eval = |ev: Ev<N>, s: &str| guard(|| ev.eval(s).ok());
    // the first evaluation of a new evaluator in a new thread
    let first = |s: &str| -> String { std::thread::scope(|t| t.spawn(|| show(&eval(fresh(), s))).join().unwrap()) };
    run.par(&groups, || (), |w, _, g| {
        let want: Vec<String> = g.iter().map(|s| first(s)).collect();
        let ev = fresh();
        for (i, a) in g.iter().enumerate() {
            for (j, b) in g.iter().enumerate() {
                let text = format!("[{}] {}; {}", tag, a, b);
                w.states += 1;
                w.transitions += 2;
                w.begin(&text);
                for (s, k) in [(a, i), (b, j)] {
                    let got = show(&eval(ev, s));
                    if got != want[k] {
                        w.violation(&*text, format!("`{}` is {} instead of {}, its value in a new evaluator", s, got, want[k]));
                    }
                }
                w.end();
            }
        }
    });
    // a mixed list: two expressions of every group
    let mix: Vec<String> = groups.iter().step_by(if depth > 2 { 3 } else { 1 }).flat_map(|g| [g[0].clone(), g[g.len() / 2].clone()]).chain(["1 +".to_string(), "(2".to_string(), "?".to_string()]).collect();
    let want: Vec<String> = mix.iter().map(|s| first(s)).collect();
    let ix: Vec<usize> = (0..mix.len()).collect();
    run.par(&ix, fresh, |w, ev, i| {
        let ev: Ev<N> = ev;
        let mut hist = vec![*i];
        let mut go = |w: &mut Worker, hist: &[usize]| {
            let text = format!("[{}] {}", tag, hist.iter().map(|e| mix[*e].as_str()).collect::<Vec<_>>().join("; "));
            w.states += 1;
            w.transitions += hist.len() as u64;
            w.begin(&text);
            for e in hist {
                let got = show(&eval(ev, &mix[*e]));
                if got != want[*e] {
                    w.violation(&*text, format!("`{}` is {} instead of {}, its value in a new evaluator", mix[*e], got, want[*e]));
                }
            }
            w.end();
        };
        for j in 0..mix.len() {
            hist.push(j);
            go(w, &hist);
            if depth > 2 {
                for k in 0..mix.len() {
                    hist.push(k);
                    go(w, &hist);
                    hist.pop();
                }
            }
            hist.pop();
        }
    });
}

/// Every text over an alphabet of characters: its value is the one of its tokens.
pub fn texts(run: &Run) {
    let chars: Vec<char> = vec!['1', '0', '.', 'e', '-', '+', '_', 'i', ' ', 'x', '(', ')', 'b'];
    let len = run.pick(5, 6);
    run.bound("provided contexts, texts over the characters", chars.iter().map(|c| c.to_string()).collect::<Vec<_>>());
    run.bound("provided contexts, max characters of a text", len as u64);
    text(run, "f64", &chars, len, DefaultContext::<f64>::new_checked, Tokenizer::new, 2.5);
    text(run, "f64 implicit_mul", &chars, len, || DefaultContext::<f64>::with_config_checked(Config::new().with_implicit_mul(true)), Tokenizer::new, 2.5);
    text(run, "i64", &chars, len, DefaultContext::<i64>::new_checked, Tokenizer::new, 3);
    text(run, "decimal", &chars, len, DefaultContext::<Decimal>::new_decimal, Tokenizer::new, Decimal::from_str("2.5").unwrap());
    text(run, "complex", &chars, len, DefaultContext::<Complex<f64>>::new_complex, Tokenizer::new, Complex::new(1.5, -2.0));
    text(
        run,
        "binary",
        &chars,
        len,
        DefaultContext::<prexel::binary::Binary>::new_binary,
        || Tokenizer::with_splitter(prexel::binary::binary_number_splitter()),
        prexel::binary::Binary(5),
    );
}

/// Applies reverse polish notation with the functions of the context, `None` is an error of one of them.
fn apply<N: Clone>(tokens: &[Token<N>], ctx: &DefaultContext<'static, N>) -> Result<Option<N>, String> {
    let mut st: Vec<N> = Vec::new();
    let mut argc = None;
    for t in tokens {
        let v = match t {
            Token::Number(n) => Some(n.clone()),
            Token::Variable(v) => Some(ctx.get_variable(v).ok_or("unknown variable")?.clone()),
            Token::Constant(v) => Some(ctx.get_constant(v).ok_or("unknown constant")?.clone()),
            Token::UnaryOperator(o) => {
                let a = st.pop().ok_or("stack underflow")?;
                ctx.get_unary_function(o).ok_or("unknown operator")?.call(a).ok()
            }
            Token::BinaryOperator(o) => {
                let b = st.pop().ok_or("stack underflow")?;
                let a = st.pop().ok_or("stack underflow")?;
                ctx.get_binary_function(o).ok_or("unknown operator")?.call(a, b).ok()
            }
            Token::ArgCount(n) => {
                argc = Some(*n);
                continue;
            }
            Token::Function(f) => {
                let n = argc.take().ok_or("function without argument count")?;
                let at = st.len().checked_sub(n).ok_or("stack underflow")?;
                let args = st.split_off(at);
                ctx.get_function(f).ok_or("unknown function")?.call(&args).ok()
            }
            _ => return Err("token that is not an operand nor an operator".into()),
        };
        match v {
            Some(v) => st.push(v),
            None => return Ok(None),
        }
    }
    if st.len() == 1 {
        Ok(st.pop())
    } else {
        Err(format!("{} values left", st.len()))
    }
}

#[allow(clippy::too_many_arguments)]
fn text<N>(
    run: &Run,
    tag: &str,
    chars: &[char],
    len: usize,
    make: impl Fn() -> DefaultContext<'static, N> + Sync,
    tokenizer: impl Fn() -> Tokenizer<'static, N> + Sync,
    x: N,
) where
    N: Clone + FromStr + std::fmt::Debug + PartialEq + Sync + Send + 'static,
{
    let items = raw_prefixes(chars.len(), 2);
    run.par(
        &items,
        || {
            let mut c = make();
            c.set_variable("x", x.clone()).unwrap();
            let ev: &'static Evaluator<'static, N> = Box::leak(Box::new(Evaluator::with_context_and_tokenizer(c, tokenizer())));
            (ev, tokenizer())
        },
        |w, (ev, tk), it| {
            let ev: &'static Evaluator<'static, N> = ev;
            raw_dfs(w, chars.len(), it, len, &mut |w, ix| {
                let s: String = ix.iter().map(|i| chars[*i]).collect();
                w.begin(&s);
                let whole = guard(|| ev.eval(&s).ok());
                let parts = guard(|| -> Result<Option<N>, String> {
                    let tokens = match tk.tokenize(ev.context(), &s) {
                        Ok(t) => t,
                        Err(_) => return Ok(None),
                    };
                    let by_tokens = ev.eval_tokens(&tokens).ok();
                    let by_rpn = match infix_to_rpn(&tokens, ev.context()) {
                        Ok(rpn) => apply(&rpn, ev.context()).map_err(|e| format!("{}: {:?}", e, rpn))?,
                        Err(_) => None,
                    };
                    if format!("{:?}", by_tokens) != format!("{:?}", by_rpn) {
                        return Err(format!("eval_tokens gives {:?} and the reverse polish notation {:?}", by_tokens, by_rpn));
                    }
                    Ok(by_tokens)
                });
                w.end();
                let text = || format!("[{}] {:?}", tag, s);
                match (whole, parts) {
                    (Ok(a), Ok(Ok(b))) => {
                        if format!("{:?}", a) != format!("{:?}", b) {
                            w.violation(text(), format!("eval gives {:?} and its tokens {:?}", a, b));
                        }
                    }
                    (Err(p), _) | (_, Err(p)) => w.violation(text(), format!("panic: {}", p)),
                    (_, Ok(Err(e))) => w.violation(text(), e),
                }
            });
        },
    );
}
