//! What the crate does in the configuration that it was built with: sections of lines on the standard output.
//! The lines of a section must be the same in every configuration that has it.
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::tokenizer::Tokenizer;
use std::fmt::{Debug, Display};
use std::io::Write;
use std::str::FromStr;

struct Out {
    o: std::io::BufWriter<std::io::Stdout>,
    section: String,
}

impl Out {
    fn section(&mut self, s: &str) {
        self.section = s.to_string();
        writeln!(self.o, "## {}", s).unwrap();
    }
    fn line(&mut self, key: &str, r: Res) {
        writeln!(self.o, "{}\t{}", key.escape_debug(), r).unwrap();
    }
}

type Res = String;

fn show<N: Display>(f: impl FnOnce() -> prexel::Result<N>) -> Res {
    let text = || match f() {
        Ok(v) => format!("ok {}", v),
        Err(e) => format!("err {:?} {}", e.kind(), e.to_string().escape_debug()),
    };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(text)).unwrap_or_else(|_| "panic".into())
}

const FRAGMENTS: [&str; 16] = ["1", "2.5", "x", "-", "+", "*", "/", "^", "!", "(", ")", ",", "max", "PI", "mod", " "];
const MORE: [&str; 12] = ["sqrt(", "sin(", "avg(", "[", "]", "3i", "b101", "<<", "&", "nope", "é", "10"];

fn texts(len: usize) -> Vec<String> {
    let mut all = vec![];
    let mut last = vec![String::new()];
    for _ in 0..len {
        last = last.iter().flat_map(|p| FRAGMENTS.iter().map(move |f| format!("{}{}", p, f))).collect();
        all.extend(last.iter().cloned());
    }
    let short: Vec<String> = all.iter().filter(|t| t.len() < 4).cloned().collect();
    for m in MORE {
        for s in &short {
            all.push(format!("{}{}", m, s));
            all.push(format!("{}{}", s, m));
            all.push(format!("{}{}2)", m, s));
        }
    }
    all
}

fn context<N>(o: &mut Out, tag: &str, len: usize, args: &[&str], make: impl Fn() -> Evaluator<'static, N, DefaultContext<'static, N>>)
where
    N: Clone + Debug + Display + FromStr + 'static,
{
    let ev: &'static Evaluator<'static, N, DefaultContext<'static, N>> = Box::leak(Box::new(make()));
    let c = ev.context();
    // what is defined
    o.section(&format!("{} names", tag));
    let mut lines = vec![];
    for (n, f) in c.functions() {
        lines.push(format!("function {} {} {:?}", n, f.name(), f.aliases()));
    }
    for (n, f) in c.binary_functions() {
        lines.push(format!("binary {} {} {:?} {:?} {:?}", n, f.name(), f.precedence(), f.associativity(), f.aliases()));
    }
    for (n, f) in c.unary_functions() {
        lines.push(format!("unary {} {} {:?} {:?}", n, f.name(), f.notation(), f.aliases()));
    }
    for (n, v) in c.constants() {
        lines.push(format!("constant {} {}", n, v));
    }
    for (n, v) in c.variables() {
        lines.push(format!("variable {} {}", n, v));
    }
    if cfg!(feature = "linked-hashmap") {
        // in the order of definition
        let order = lines.clone();
        lines.sort();
        for l in lines {
            o.line(&l, "defined".into());
        }
        o.section(&format!("{} order", tag));
        for (i, l) in order.iter().enumerate() {
            o.line(&i.to_string(), l.clone());
        }
    } else {
        lines.sort();
        for l in lines {
            o.line(&l, "defined".into());
        }
    }
    #[cfg(feature = "docs")]
    {
        o.section(&format!("{} docs", tag));
        let mut lines = vec![];
        for (n, f) in c.functions() {
            lines.push((format!("function {}", n), format!("{:?}", f.description())));
        }
        for (n, f) in c.binary_functions() {
            lines.push((format!("binary {}", n), format!("{:?}", f.description())));
        }
        for (n, f) in c.unary_functions() {
            lines.push((format!("unary {}", n), format!("{:?}", f.description())));
        }
        lines.sort();
        for (k, v) in lines {
            o.line(&k, v);
        }
    }
    // expressions
    o.section(&format!("{} expressions", tag));
    for t in texts(len) {
        if t.to_lowercase().contains("rand") {
            continue;
        }
        o.line(&t, show(|| ev.eval(&t)));
    }
    // operations
    o.section(&format!("{} operations", tag));
    let vals: Vec<(String, N)> = args.iter().filter_map(|a| a.parse().ok().map(|n| (a.to_string(), n))).collect();
    let mut fs: Vec<String> = c.functions().iter().map(|(n, _)| n.to_string()).filter(|n| !n.eq_ignore_ascii_case("random")).collect();
    fs.sort();
    for n in fs {
        let f = c.get_function(&n).unwrap();
        o.line(&format!("{}()", n), show(|| f.call(&[])));
        for (a, va) in &vals {
            o.line(&format!("{}({})", n, a), show(|| f.call(&[va.clone()])));
            for (b, vb) in &vals {
                o.line(&format!("{}({}, {})", n, a, b), show(|| f.call(&[va.clone(), vb.clone()])));
                o.line(&format!("{}({}, {}, {})", n, a, b, a), show(|| f.call(&[va.clone(), vb.clone(), va.clone()])));
            }
        }
    }
    let mut fs: Vec<String> = c.binary_functions().iter().map(|(n, _)| n.to_string()).collect();
    fs.sort();
    for n in fs {
        let f = c.get_binary_function(&n).unwrap();
        for (a, va) in &vals {
            for (b, vb) in &vals {
                o.line(&format!("{} {} {}", a, n, b), show(|| f.call(va.clone(), vb.clone())));
            }
        }
    }
    let mut fs: Vec<String> = c.unary_functions().iter().map(|(n, _)| n.to_string()).collect();
    fs.sort();
    for n in fs {
        let f = c.get_unary_function(&n).unwrap();
        for (a, va) in &vals {
            o.line(&format!("unary {} {}", n, a), show(|| f.call(va.clone())));
        }
    }
}

fn with_x<N: FromStr + Clone + 'static>(mut c: DefaultContext<'static, N>) -> Evaluator<'static, N, DefaultContext<'static, N>>
where
    DefaultContext<'static, N>: Context<'static, N>,
{
    c.set_variable("x", "3".parse().ok().unwrap()).unwrap();
    Evaluator::with_context(c)
}

/// An operator, function or variable defined by the user.
struct U(&'static str, &'static [&'static str]);
impl Function<f64> for U {
    fn name(&self) -> &str {
        self.0
    }
    fn aliases(&self) -> Option<&[&str]> {
        Some(self.1)
    }
    fn call(&self, a: &[f64]) -> prexel::Result<f64> {
        Ok(a.iter().fold(1.0, |t, v| 2.0 * t + v))
    }
}
impl BinaryFunction<f64> for U {
    fn name(&self) -> &str {
        self.0
    }
    fn aliases(&self) -> Option<&[&str]> {
        Some(self.1)
    }
    fn precedence(&self) -> Precedence {
        Precedence(3)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, a: f64, b: f64) -> prexel::Result<f64> {
        Ok(10.0 * a + b)
    }
}
impl UnaryFunction<f64> for U {
    fn name(&self) -> &str {
        self.0
    }
    fn aliases(&self) -> Option<&[&str]> {
        Some(self.1)
    }
    fn notation(&self) -> Notation {
        Notation::Prefix
    }
    fn call(&self, a: f64) -> prexel::Result<f64> {
        Ok(100.0 + a)
    }
}

/// Every history of definitions with valid names.
fn histories(o: &mut Out, len: usize) {
    o.section("histories");
    type Op = fn(&mut DefaultContext<'static, f64>) -> bool;
    let ops: [(&str, Op); 14] = [
        ("x=1", |c| c.set_variable("x", 1.0).is_ok()),
        ("x=2", |c| c.set_variable("x", 2.0).is_ok()),
        ("X=3", |c| c.set_variable("X", 3.0).is_ok()),
        ("const x", |c| c.add_constant("x", 4.0).is_ok()),
        ("const K", |c| c.add_constant("K", 5.0).is_ok()),
        ("k=6", |c| c.set_variable("k", 6.0).is_ok()),
        ("fun F", |c| c.add_function(U("F", &[])).is_ok()),
        ("fun f as g", |c| c.add_function_as(U("F", &["h"]), "g").is_ok()),
        ("fun h", |c| c.add_function(U("h", &["f"])).is_ok()),
        ("bin @", |c| c.add_binary_function(U("@", &["at"])).is_ok()),
        ("bin AT", |c| c.add_binary_function(U("AT", &["#"])).is_ok()),
        ("un @", |c| c.add_unary_function(U("@", &["at"])).is_ok()),
        ("un #", |c| c.add_unary_function(U("#", &[])).is_ok()),
        ("bin # as at", |c| c.add_binary_function_as(U("#", &["@"]), "at").is_ok()),
    ];
    let probes = ["x", "X", "K", "k", "f(1)", "G(1,2)", "h()", "1@2", "1 at 2@3", "1#2", "@1", "#1", "AT 1", "@#1@2"];
    fn rec(o: &mut Out, ops: &[(&str, Op)], probes: &[&str], h: &mut Vec<usize>, len: usize) {
        let key: Vec<&str> = h.iter().map(|i| ops[*i].0).collect();
        let r = std::panic::catch_unwind(|| {
            let mut c = DefaultContext::<f64>::new();
            let accepted: String = h.iter().map(|i| if ops[*i].1(&mut c) { 'y' } else { 'n' }).collect();
            let ev: Evaluator<'_, f64> = Evaluator::with_context(c);
            let vals: Vec<String> = probes.iter().map(|p| ev.eval(p).map_or("-".to_string(), |v| v.to_string())).collect();
            format!("{} {}", accepted, vals.join(" "))
        });
        o.line(&key.join("; "), r.unwrap_or("panic".into()));
        if h.len() < len {
            for i in 0..ops.len() {
                h.push(i);
                rec(o, ops, probes, h, len);
                h.pop();
            }
        }
    }
    rec(o, &ops, &probes, &mut vec![], len);
}

fn tokens(o: &mut Out, len: usize) {
    o.section("tokens");
    let c = DefaultContext::<f64>::new_checked();
    let t: Tokenizer<f64> = Tokenizer::new();
    for s in texts(len) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{:?}", t.tokenize(&c, &s).map_err(|e| e.kind()))));
        o.line(&s, r.unwrap_or("panic".into()));
    }
}

mod wrapper {
    pub struct W(i32);
    impl From<i32> for W {
        fn from(x: i32) -> W {
            W(x)
        }
    }
    prexel::impl_checked_num_traits_with_field_and_from_str!(W => 0, i32);
}
use wrapper::W;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let len: usize = std::env::args().nth(1).map_or(3, |a| a.parse().unwrap());
    let mut o = Out { o: std::io::BufWriter::new(std::io::stdout()), section: String::new() };
    let args = ["0", "1", "-1", "2", "-2", "3", "7", "10", "0.5", "-0.5", "2.5", "30", "45", "90", "-90", "100", "180", "1000000", "2147483647", "-2147483648"];
    let conf = |imp: bool, call: bool| Config::new().with_implicit_mul(imp).with_custom_function_call(call);
    context(&mut o, "f64", len, &args, || with_x(DefaultContext::<f64>::new_checked()));
    context(&mut o, "f64 unchecked", len - 1, &args, || with_x(DefaultContext::<f64>::new_unchecked()));
    context(&mut o, "f64 implicit", len - 1, &[], || with_x(DefaultContext::<f64>::with_config_checked(conf(true, false))));
    context(&mut o, "f64 custom calls", len, &[], || with_x(DefaultContext::<f64>::with_config_checked(conf(true, true))));
    context(&mut o, "f32", len - 1, &args, || with_x(DefaultContext::<f32>::new_checked()));
    context(&mut o, "i32", len - 1, &args, || with_x(DefaultContext::<i32>::new_checked()));
    context(&mut o, "i128", len - 1, &args, || with_x(DefaultContext::<i128>::new_checked()));
    context(&mut o, "wrapper", len - 1, &args, || with_x(DefaultContext::<W>::new_checked()));
    histories(&mut o, len);
    tokens(&mut o, len - 1);
    #[cfg(feature = "decimal")]
    {
        context(&mut o, "decimal", len - 1, &args, || with_x(DefaultContext::new_decimal()));
        context(&mut o, "decimal implicit", len - 1, &[], || with_x(DefaultContext::with_config_decimal(conf(true, false))));
    }
    #[cfg(feature = "complex")]
    {
        type Z = num_complex::Complex<f64>;
        let args = ["0", "1", "-1", "2", "i", "-i", "1+i", "2-3i", "-1.5+0.5i", "10", "90"];
        context::<prexel::complex::Complex<f64>>(&mut o, "complex", len - 1, &args, || with_x(DefaultContext::<prexel::complex::Complex<f64>>::new_complex()));
        let _ = std::mem::size_of::<Z>();
    }
    #[cfg(feature = "binary")]
    {
        let args = ["0", "1", "10", "11", "101", "1111111", "-1", "-101"];
        context(&mut o, "binary", len - 1, &args, || {
            let mut c = DefaultContext::new_binary();
            c.set_variable("x", "11".parse().ok().unwrap()).unwrap();
            Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(prexel::binary::binary_number_splitter()))
        });
    }
    o.section("end");
}
