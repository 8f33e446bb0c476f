//! The public interface below the text: token sequences nobody tokenized (C30), configurations
//! (C31), contexts implemented by the user (C32), and errors (C33).
use super::parse::{check_expr, Real};
use crate::fw::*;
use crate::gen::*;
use crate::sym::*;
use prexel::complex::Complex;
use prexel::binary::Binary;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::{infix_to_rpn, Evaluator};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use std::fmt;
use std::rc::Rc;

/// Trees, with the prefix minus told apart from the binary one.
struct Tk;
fn real_name(op: &str) -> &str {
    match op {
        "neg" => "-",
        "pos" => "+",
        o => o,
    }
}
impl Algebra for Tk {
    type T = u64;
    fn num(&self, s: &str) -> u64 {
        Hash.num(s)
    }
    fn var(&self, s: &str) -> u64 {
        Hash.var(s)
    }
    fn con(&self, s: &str) -> u64 {
        Hash.con(s)
    }
    fn un(&self, op: &str, a: u64) -> u64 {
        Hash.un(real_name(op), a)
    }
    fn bin(&self, op: &str, a: u64, b: u64) -> u64 {
        Hash.bin(op, a, b)
    }
    fn call(&self, f: &str, args: &[u64]) -> u64 {
        Hash.call(f, args)
    }
}

/// The standard language with another name for each sign.
fn token_lang(implicit: bool, custom_call: bool) -> (Lang, Lang) {
    let mut lang = Lang::standard();
    lang.implicit = implicit;
    lang.custom_call = custom_call;
    let mut r = lang.clone();
    for o in &mut r.ops {
        if o.bin.is_some() {
            o.un = None;
        }
    }
    r.ops.push(OpSpec { name: "neg", bin: None, un: Some(Notation::Prefix) });
    r.ops.push(OpSpec { name: "pos", bin: None, un: Some(Notation::Prefix) });
    (lang, r)
}

/// A token and what it is in the reference grammar.
type Tok = (Token<Sym>, Lex);

fn token_alphabet() -> Vec<Tok> {
    let s = String::from;
    vec![
        (Token::Number(Sym(Hash.num("1"))), lx(K::Num, "1")),
        (Token::BinaryOperator(s("-")), lx(K::Op, "-")),
        (Token::UnaryOperator(s("-")), lx(K::Op, "neg")),
        (Token::GroupingOpen('('), lx(K::Open, "(")),
        (Token::GroupingClose(')'), lx(K::Close, ")")),
        (Token::Function(s("f")), lx(K::Fun, "f")),
        (Token::Comma, lx(K::Comma, ",")),
        (Token::UnaryOperator(s("!")), lx(K::Op, "!")),
        (Token::Variable(s("x")), lx(K::Var, "x")),
        (Token::BinaryOperator(s("^")), lx(K::Op, "^")),
        (Token::GroupingOpen('['), lx(K::Open, "[")),
        (Token::GroupingClose(']'), lx(K::Close, "]")),
        (Token::ArgCount(1), lx(K::Bad, "")),
        (Token::Constant(s("k")), lx(K::Con, "k")),
        (Token::BinaryOperator(s("MOD")), lx(K::Op, "mod")),
        (Token::Function(s("G")), lx(K::Fun, "G")),
        (Token::ArgCount(0), lx(K::Bad, "")),
        (Token::Unknown(s("?")), lx(K::Bad, "")),
        (Token::Variable(s("X")), lx(K::Bad, "")),
        (Token::Constant(s("x")), lx(K::Bad, "")),
        (Token::Function(s("nope")), lx(K::Bad, "")),
        (Token::BinaryOperator(s("!")), lx(K::Bad, "")),
        (Token::UnaryOperator(s("*")), lx(K::Bad, "")),
        (Token::UnaryOperator(s("")), lx(K::Bad, "")),
        (Token::GroupingOpen('<'), lx(K::Bad, "")),
        (Token::GroupingClose('>'), lx(K::Bad, "")),
        (Token::ArgCount(usize::MAX), lx(K::Bad, "")),
    ]
}

pub fn c30(run: &Run) {
    let al = token_alphabet();
    run.bound("tokens", al.iter().map(|t| format!("{:?}", t.0)).collect::<Vec<_>>());
    let plans = [(al.len(), run.pick(4, 5)), (13, run.pick(5, 6)), (8, run.pick(7, 8))];
    run.bound("(first tokens of the alphabet, max length)", plans.map(|(a, n)| format!("{} {}", a, n)).to_vec());
    run.assume("an expression tree is identified by a 64 bit hash of its operators and ordered, position-distinct operands");
    run.assume("an opening token does not hold a closing symbol, nor a closing token an opening one");
    for implicit in [false, true] {
        for custom_call in [false, true] {
            let (lang, rlang) = token_lang(implicit, custom_call);
            let tag = format!("{}{}", if implicit { "implicit_mul: " } else { "" }, if custom_call { "custom_call: " } else { "" });
            for (k, len) in plans {
                let items = raw_prefixes(k, 2);
                run.par(
                    &items,
                    || (Evaluator::with_context(lang.context()), lang.context(), token_alphabet()),
                    |w, (ev, ctx, al), it| {
                        raw_dfs(w, k, it, len, &mut |w, ix| {
                            let mut toks: Vec<Token<Sym>> = Vec::with_capacity(ix.len());
                            let mut lex: Vec<Lex> = Vec::with_capacity(ix.len());
                            for (p, i) in ix.iter().enumerate() {
                                let (t, l) = &al[*i];
                                if l.k == K::Num {
                                    toks.push(Token::Number(Sym(Hash.num(NUMS[p]))));
                                    lex.push(lx(K::Num, NUMS[p]));
                                } else {
                                    toks.push(t.clone());
                                    lex.push(*l);
                                }
                            }
                            let want = Parser::parse(&rlang, &lex, &Tk);
                            w.begin("tokens");
                            let got = guard(|| {
                                let v = ev.eval_tokens(&toks).ok().map(|v| v.0);
                                let conv = infix_to_rpn(&toks, &*ctx);
                                let rpn = match &conv {
                                    Ok(o) => super::parse::rpn(o).ok(),
                                    Err(_) => None,
                                };
                                (v, conv.is_ok(), rpn)
                            });
                            w.end();
                            let bad = match got {
                                Err(p) => Some(format!("panic: {}", p)),
                                Ok((v, _, _)) if v != want => Some(format!(
                                    "must be {}, but {}",
                                    if want.is_some() { "the value of the grammar" } else { "an error" },
                                    if v.is_some() { "another value" } else { "an error" }
                                )),
                                Ok((Some(v), _, rpn)) if rpn != Some(v) => Some("the reverse polish notation has another value".to_string()),
                                _ => None,
                            };
                            if let Some(b) = bad {
                                w.violation(format!("{}{:?}", tag, toks), b);
                            }
                        });
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- configurations

#[derive(Clone, Copy, Debug, PartialEq)]
enum Set {
    Implicit(bool),
    Complex(bool),
    Custom(bool),
    Group(usize),
    FieldImplicit(bool),
    FieldComplex(bool),
    FieldCustom(bool),
    Clone,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Conf {
    implicit: bool,
    complex: bool,
    custom: bool,
    groups: [bool; 3],
}

const GROUPS: [Grouping; 3] = [Grouping::Parenthesis, Grouping::Bracket, Grouping::Brace];

fn set_real(mut c: Config, s: Set) -> Config {
    match s {
        Set::Implicit(b) => c.with_implicit_mul(b),
        Set::Complex(b) => c.with_complex_number(b),
        Set::Custom(b) => c.with_custom_function_call(b),
        Set::Group(g) => c.with_grouping(GROUPS[g]),
        Set::FieldImplicit(b) => {
            c.implicit_mul = b;
            c
        }
        Set::FieldComplex(b) => {
            c.complex_number = b;
            c
        }
        Set::FieldCustom(b) => {
            c.custom_function_call = b;
            c
        }
        Set::Clone => {
            let d = c.clone();
            // the original is no longer used
            let _ = set_real(c, Set::Implicit(true));
            d
        }
    }
}

fn set_model(mut c: Conf, s: Set) -> Conf {
    match s {
        Set::Implicit(b) | Set::FieldImplicit(b) => c.implicit = b,
        Set::Complex(b) | Set::FieldComplex(b) => c.complex = b,
        Set::Custom(b) | Set::FieldCustom(b) => c.custom = b,
        Set::Group(g) => c.groups[g] = true,
        Set::Clone => {}
    }
    c
}

fn canonical(m: &Conf) -> Config {
    let mut c = Config::default();
    for g in 0..3 {
        if m.groups[g] {
            c = c.with_grouping(GROUPS[g]);
        }
    }
    c.implicit_mul = m.implicit;
    c.complex_number = m.complex;
    c.custom_function_call = m.custom;
    c
}

/// Texts, whether they need implicit products and call brackets, and their value.
const PROBES: [(&str, bool, bool, Option<u32>); 22] = [
    ("2 + 3", false, false, Some(5)),
    ("2 (3)", true, false, Some(6)),
    ("(2) 3", true, false, Some(6)),
    ("(2)(3)", true, false, Some(6)),
    ("2 x", true, false, Some(10)),
    ("2 max(3, 4)", true, false, Some(8)),
    ("max(3, 4)2", true, false, Some(8)),
    ("max(3, 4)", false, false, Some(4)),
    ("max[3, 4]", false, true, Some(4)),
    ("max{3, 4}", false, true, Some(4)),
    ("2 max[3, 4]", true, true, Some(8)),
    ("max[3, 4] x", true, true, Some(20)),
    ("[2] + {3}", false, false, Some(5)),
    ("[2]{3}", true, false, Some(6)),
    ("max(3, 4]", false, false, None),
    ("max[3, 4)", false, false, None),
    ("max 3, 4", false, false, None),
    ("2 3", false, false, None),
    ("x 2", false, false, None),
    ("x x", false, false, None),
    ("(2", false, false, None),
    ("", false, false, None),
];

fn probe<N, F>(w: &mut Worker, key: &str, m: &Conf, make: F, num: fn(u32) -> N)
where
    N: 'static + Clone + fmt::Debug + PartialEq + std::str::FromStr,
    F: Fn() -> DefaultContext<'static, N>,
{
    let mut c = make();
    let _ = c.set_variable("x", num(5));
    if c.get_function("max").is_none() {
        c.add_function(MaxOf).unwrap();
    }
    if c.config().implicit_mul != m.implicit || c.config().custom_function_call != m.custom {
        w.violation(key, format!("the configuration of the context is {:?}", c.config()));
    }
    let ev = Box::leak(Box::new(Evaluator::with_context(c)));
    for (t, imp, cus, v) in PROBES {
        w.transitions += 1;
        w.begin(t);
        let got = guard(|| ev.eval(t).ok());
        w.end();
        let want = if (imp && !m.implicit) || (cus && !m.custom) { None } else { v.map(num) };
        if got != Ok(want.clone()) {
            w.violation(format!("{} `{}`", key, t), format!("must be {:?}, but {:?}", want, got));
        }
    }
}

struct MaxOf;
impl<N: Clone + fmt::Debug> Function<N> for MaxOf {
    fn name(&self) -> &str {
        "max"
    }
    fn call(&self, args: &[N]) -> prexel::Result<N> {
        // the greatest of the probes is the last argument
        args.last().cloned().ok_or_else(|| Error::from(ErrorKind::InvalidArgumentCount))
    }
}

struct TimesBinary;
impl BinaryFunction<Binary> for TimesBinary {
    fn name(&self) -> &str {
        "*"
    }
    fn precedence(&self) -> Precedence {
        Precedence(50)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, a: Binary, b: Binary) -> prexel::Result<Binary> {
        Ok(Binary(a.0 * b.0))
    }
}
struct PlusBinary;
impl BinaryFunction<Binary> for PlusBinary {
    fn name(&self) -> &str {
        "+"
    }
    fn precedence(&self) -> Precedence {
        Precedence(49)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, a: Binary, b: Binary) -> prexel::Result<Binary> {
        Ok(Binary(a.0 + b.0))
    }
}

pub fn c31(run: &Run) {
    let steps: Vec<Set> = [true, false]
        .iter()
        .flat_map(|b| {
            [Set::Implicit(*b), Set::Complex(*b), Set::Custom(*b), Set::FieldImplicit(*b), Set::FieldComplex(*b), Set::FieldCustom(*b)]
        })
        .chain([Set::Group(0), Set::Group(1), Set::Group(2), Set::Clone])
        .collect();
    let depth = run.pick(4, 5);
    run.bound("operations on a configuration", steps.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>());
    run.bound("max operations", depth as u64);
    let items: Vec<(bool, Vec<usize>)> =
        raw_prefixes(steps.len(), 2).into_iter().flat_map(|p| [(true, p.clone()), (false, p)]).collect();
    run.par(
        &items,
        || (),
        |w, _, (new, it)| {
            let start = if *new { Config::new() } else { Config::default() };
            let model = Conf { implicit: false, complex: false, custom: false, groups: [*new, false, false] };
            if (start.implicit_mul, start.complex_number, start.custom_function_call) != (false, false, false) {
                w.violation(format!("new {}", new), "an option is enabled");
            }
            raw_dfs(w, steps.len(), it, depth, &mut |w, ix| {
                w.traces += 1;
                let mut c = start.clone();
                let mut m = model;
                for i in ix {
                    c = set_real(c, steps[*i]);
                    m = set_model(m, steps[*i]);
                }
                let key = || format!("{} {:?}", if *new { "new" } else { "default" }, ix.iter().map(|i| steps[*i]).collect::<Vec<_>>());
                if (c.implicit_mul, c.complex_number, c.custom_function_call) != (m.implicit, m.complex, m.custom) {
                    w.violation(key(), format!("must be {:?}, but {:?}", m, c));
                }
                if c != canonical(&m) {
                    w.violation(key(), format!("{:?} is not equal to the configuration with the same options", c));
                }
                // and to no other
                for k in 0..6 {
                    let mut o = m;
                    match k {
                        0 => o.implicit = !o.implicit,
                        1 => o.complex = !o.complex,
                        2 => o.custom = !o.custom,
                        k => o.groups[k - 3] = !o.groups[k - 3],
                    }
                    if c == canonical(&o) {
                        w.violation(key(), format!("{:?} is equal to a different configuration", c));
                    }
                }
            });
        },
    );
    // every configuration in every context
    let confs: Vec<Conf> = (0..64u32)
        .map(|i| {
            let b = |k: u32| i & (1 << k) != 0;
            Conf { implicit: b(0), complex: b(1), custom: b(2), groups: [b(3), b(4), b(5)] }
        })
        .collect();
    let al: Vec<Lex> = [
        lx(K::Num, "1"),
        lx(K::Var, "x"),
        lx(K::Op, "-"),
        lx(K::Op, "^"),
        lx(K::Open, "("),
        lx(K::Close, ")"),
        lx(K::Open, "["),
        lx(K::Close, "]"),
        lx(K::Fun, "f"),
        lx(K::Comma, ","),
    ]
    .to_vec();
    let len = run.pick(5, 6);
    run.bound("configurations (each combination of the three options and the three groupings)", 64u64);
    run.bound("max lexemes of the expressions evaluated with each configuration", len as u64);
    run.bound("contexts built with each configuration: with_config, checked and unchecked f64, i64, decimal, complex, binary; probes", PROBES.len() as u64);
    let items: Vec<(Conf, usize)> = confs.iter().flat_map(|c| (0..al.len()).map(move |i| (*c, i))).collect();
    run.par(
        &items,
        || (),
        |w, _, (m, first)| {
            let mut lang = Lang::standard();
            lang.implicit = m.implicit;
            lang.custom_call = m.custom;
            let mut c: DefaultContext<'static, Sym> = DefaultContext::with_config(canonical(m));
            for v in &lang.vars {
                c.set_variable(v, Sym(Hash.var(v))).unwrap();
            }
            for f in &lang.funs {
                c.add_function(SymFun(f)).unwrap();
            }
            for o in &lang.ops {
                if let Some((p, a)) = o.bin {
                    c.add_binary_function(SymBin(o.name, p, a)).unwrap();
                }
                if let Some(n) = o.un {
                    c.add_unary_function(SymUn(o.name, n)).unwrap();
                }
            }
            if *c.config() != canonical(m) {
                w.violation(format!("{:?}", m), "with_config keeps another configuration");
            }
            let r = Real::of(c);
            let tag = format!("{:?}: ", m);
            raw_dfs(w, al.len(), &[*first], len, &mut |w, ix| {
                let toks: Vec<Lex> =
                    ix.iter().enumerate().map(|(p, i)| if al[*i].k == K::Num { lx(K::Num, NUMS[p]) } else { al[*i] }).collect();
                let text = join(&toks, " ");
                check_expr(w, r, &lang, &toks, &text, &tag);
            });
            if *first != 0 {
                return;
            }
            let cf = || canonical(m);
            let k = |s: &str| format!("{} {:?}", s, m);
            probe(w, &k("f64 checked"), m, || DefaultContext::<f64>::with_config_checked(cf()), f64::from);
            probe(w, &k("f64 unchecked"), m, || DefaultContext::<f64>::with_config_unchecked(cf()), f64::from);
            probe(w, &k("i64 checked"), m, || DefaultContext::<i64>::with_config_checked(cf()), i64::from);
            probe(w, &k("i64 unchecked"), m, || DefaultContext::<i64>::with_config_unchecked(cf()), i64::from);
            probe(w, &k("decimal"), m, || DefaultContext::<Decimal>::with_config_decimal(cf()), Decimal::from);
            probe(w, &k("complex"), m, || DefaultContext::<Complex<f64>>::with_config_complex(cf()), |n| Complex::new(n as f64, 0.0));
            // a complex context always has complex literals
            let cx = Box::leak(Box::new(Evaluator::with_context(DefaultContext::<Complex<f64>>::with_config_complex(cf()))));
            let z = |re: f64, im: f64| Some(Complex::new(re, im));
            for (t, imp, v) in
                [("2i", false, z(0.0, 2.0)), ("1 + 2i", false, z(1.0, 2.0)), ("2 i", false, z(0.0, 2.0)), ("2i (3)", true, z(0.0, 6.0)), ("(3)2i", true, z(0.0, 6.0))]
            {
                let want = if imp && !m.implicit { None } else { v };
                let got = guard(|| cx.eval(t).ok());
                w.transitions += 1;
                if got != Ok(want) {
                    w.violation(format!("complex {:?} `{}`", m, t), format!("must be {:?}, but {:?}", want, got));
                }
            }
            probe(w, &k("binary"), m, || {
                let mut c = DefaultContext::with_config_binary(cf());
                c.add_binary_function(TimesBinary).unwrap();
                c.add_binary_function(PlusBinary).unwrap();
                c
            }, |n| Binary(n as i128));
        },
    );
    // the symbols, for each character
    let configs: Vec<Config> = confs.iter().map(canonical).collect();
    run.bound("characters asked to each configuration", "every Unicode scalar");
    let blocks: Vec<u32> = (0..0x110).collect();
    run.par(
        &blocks,
        || (),
        |w, _, b| {
            for u in b * 0x1000..(b + 1) * 0x1000 {
                let ch = match char::from_u32(u) {
                    Some(c) => c,
                    None => continue,
                };
                w.states += 1;
                let pair = match ch {
                    '(' | ')' => Some(('(', ')')),
                    '[' | ']' => Some(('[', ']')),
                    '{' | '}' => Some(('{', '}')),
                    _ => None,
                };
                let open = pair.map_or(false, |p| p.0 == ch);
                let close = pair.map_or(false, |p| p.1 == ch);
                for c in configs.iter().step_by(if ch.is_ascii() { 1 } else { 21 }) {
                    w.transitions += 1;
                    let got = (
                        c.get_group_symbol(ch),
                        c.get_group_open_for(ch),
                        c.get_group_close_for(ch),
                        c.is_group_open(ch),
                        c.is_group_close(ch),
                    );
                    let want = (
                        pair,
                        if close { pair.map(|p| p.0) } else { None },
                        if open { pair.map(|p| p.1) } else { None },
                        open,
                        close,
                    );
                    if got != want {
                        w.violation(format!("{:?} in {:?}", ch, c), format!("symbols {:?}, must be {:?}", got, want));
                    }
                }
                for g in GROUPS {
                    let mine = pair == Some(g.symbols());
                    let got = (g.is_open(ch), g.is_close(ch), g.close_for(ch), g.open_for(ch));
                    let want = (
                        mine && open,
                        mine && close,
                        if mine && open { Some(g.close()) } else { None },
                        if mine && close { Some(g.open()) } else { None },
                    );
                    if got != want || (Grouping::new(ch) == Some(g)) != mine {
                        w.violation(format!("{:?} and {:?}", ch, g), format!("{:?}, must be {:?}", got, want));
                    }
                }
            }
        },
    );
}

// ---------------------------------------------------------------- contexts of the user

/// A context that keeps its definitions in lists and looks them up in an outer one.
struct Scope {
    config: Config,
    vars: Vec<(String, Sym)>,
    cons: Vec<(String, Sym)>,
    funs: Vec<Rc<dyn Function<Sym>>>,
    uns: Vec<Rc<dyn UnaryFunction<Sym>>>,
    bins: Vec<Rc<dyn BinaryFunction<Sym>>>,
    outer: Option<Box<Scope>>,
}

impl Scope {
    fn new(config: Config, outer: Option<Box<Scope>>) -> Scope {
        Scope { config, vars: vec![], cons: vec![], funs: vec![], uns: vec![], bins: vec![], outer }
    }
}

impl Context<'static, Sym> for Scope {
    fn config(&self) -> &Config {
        &self.config
    }
    fn add_function<F: Function<Sym> + 'static>(&mut self, f: F) -> prexel::Result<()> {
        self.funs.push(Rc::new(f));
        Ok(())
    }
    fn add_unary_function<F: UnaryFunction<Sym> + 'static>(&mut self, f: F) -> prexel::Result<()> {
        self.uns.push(Rc::new(f));
        Ok(())
    }
    fn add_binary_function<F: BinaryFunction<Sym> + 'static>(&mut self, f: F) -> prexel::Result<()> {
        self.bins.push(Rc::new(f));
        Ok(())
    }
    fn add_constant(&mut self, name: &str, value: Sym) -> prexel::Result<()> {
        self.cons.push((name.into(), value));
        Ok(())
    }
    fn set_variable(&mut self, name: &str, value: Sym) -> prexel::Result<Option<Sym>> {
        self.vars.push((name.into(), value));
        Ok(None)
    }
    fn get_variable(&self, name: &str) -> Option<&Sym> {
        let v = self.vars.iter().rev().find(|v| v.0 == name).map(|v| &v.1);
        v.or_else(|| self.outer.as_ref()?.get_variable(name))
    }
    fn get_constant(&self, name: &str) -> Option<&Sym> {
        let v = self.cons.iter().rev().find(|v| v.0.eq_ignore_ascii_case(name)).map(|v| &v.1);
        v.or_else(|| self.outer.as_ref()?.get_constant(name))
    }
    fn get_function(&self, name: &str) -> Option<&Rc<dyn Function<Sym>>> {
        let f = self.funs.iter().find(|f| f.name().eq_ignore_ascii_case(name));
        f.or_else(|| self.outer.as_ref()?.get_function(name))
    }
    fn get_unary_function(&self, name: &str) -> Option<&Rc<dyn UnaryFunction<Sym>>> {
        let f = self.uns.iter().find(|f| f.name().eq_ignore_ascii_case(name));
        f.or_else(|| self.outer.as_ref()?.get_unary_function(name))
    }
    fn get_binary_function(&self, name: &str) -> Option<&Rc<dyn BinaryFunction<Sym>>> {
        let f = self.bins.iter().find(|f| f.name().eq_ignore_ascii_case(name));
        f.or_else(|| self.outer.as_ref()?.get_binary_function(name))
    }
}

fn define<C: Context<'static, Sym>>(c: &mut C, lang: &Lang, which: impl Fn(usize) -> bool) {
    let mut n = 0;
    let mut mine = || {
        n += 1;
        which(n)
    };
    for v in &lang.vars {
        if mine() {
            c.set_variable(v, Sym(Hash.var(v))).unwrap();
        }
    }
    for v in &lang.cons {
        if mine() {
            c.add_constant(v, Sym(Hash.con(v))).unwrap();
        }
    }
    for f in &lang.funs {
        if mine() {
            c.add_function(SymFun(f)).unwrap();
        }
    }
    for o in &lang.ops {
        if let Some((p, a)) = o.bin {
            if mine() {
                c.add_binary_function(SymBin(o.name, p, a)).unwrap();
            }
        }
        if let Some(u) = o.un {
            if mine() {
                c.add_unary_function(SymUn(o.name, u)).unwrap();
            }
        }
    }
}

pub fn c32(run: &Run) {
    let al: Vec<Lex> = [
        lx(K::Num, "1"),
        lx(K::Var, "x"),
        lx(K::Op, "-"),
        lx(K::Op, "!"),
        lx(K::Op, "^"),
        lx(K::Open, "("),
        lx(K::Close, ")"),
        lx(K::Fun, "f"),
        lx(K::Comma, ","),
        lx(K::Con, "K"),
        lx(K::Open, "["),
        lx(K::Close, "]"),
        lx(K::Op, "mod"),
        lx(K::Bad, "?"),
    ]
    .to_vec();
    let len = run.pick(5, 6);
    run.bound("alphabet", al.iter().map(|l| l.s).collect::<Vec<_>>());
    run.bound("max lexemes", len as u64);
    run.bound("contexts", "lists; two scopes with the definitions divided between them in 8 ways; each configuration of implicit products and call brackets; evaluation of the text and of the tokens");
    run.assume("an expression tree is identified by a 64 bit hash of its operators and ordered, position-distinct operands");
    for conf in 0..4 {
        let mut lang = Lang::standard();
        lang.implicit = conf & 1 != 0;
        lang.custom_call = conf & 2 != 0;
        let items: Vec<(usize, Vec<usize>)> = (0..9).flat_map(|s| raw_prefixes(al.len(), 1).into_iter().map(move |p| (s, p))).collect();
        run.par(
            &items,
            || (),
            |w, _, (shape, it)| {
                let cfg = || Config::new().with_implicit_mul(lang.implicit).with_custom_function_call(lang.custom_call);
                let make = || -> Scope {
                    if *shape == 0 {
                        let mut c = Scope::new(cfg(), None);
                        define(&mut c, &lang, |_| true);
                        return c;
                    }
                    let inner = |n: usize| match shape {
                        1 => n % 2 == 0,
                        2 => n % 2 == 1,
                        3 => n % 3 == 0,
                        4 => n < 4,
                        5 => n < 7,
                        6 => n > 9,
                        7 => false,
                        _ => true,
                    };
                    // the configuration is the one of the inner scope
                    let mut outer = Scope::new(Config::new().with_implicit_mul(!lang.implicit), None);
                    define(&mut outer, &lang, |n| !inner(n));
                    let mut c = Scope::new(cfg(), Some(Box::new(outer)));
                    define(&mut c, &lang, inner);
                    c
                };
                let ev: &'static Evaluator<'static, Sym, Scope> = Box::leak(Box::new(Evaluator::with_context(make())));
                let tk: Tokenizer<'static, Sym, Scope> = Tokenizer::new();
                let ctx = make();
                // the long ones only for some of the shapes
                let len = if *shape == 0 || *shape == 1 { len } else { len - 1 };
                raw_dfs(w, al.len(), it, len, &mut |w, ix| {
                    let toks: Vec<Lex> =
                        ix.iter().enumerate().map(|(p, i)| if al[*i].k == K::Num { lx(K::Num, NUMS[p]) } else { al[*i] }).collect();
                    let text = join(&toks, " ");
                    let want = ref_hash(&lang, &toks);
                    w.begin(&text);
                    let got = guard(|| {
                        let a = ev.eval(&text).ok().map(|v| v.0);
                        let b = tk.tokenize(&ctx, &text).and_then(|t| ev.eval_tokens(&t)).ok().map(|v| v.0);
                        (a, b)
                    });
                    w.end();
                    if got != Ok((want, want)) {
                        w.violation(
                            format!("[context {}, implicit {}, custom call {}] {}", shape, lang.implicit, lang.custom_call, text),
                            format!("must be {}, but (text, tokens) {:?}", ref_show(&lang, &toks), got),
                        );
                    }
                });
            },
        );
    }
    // what a context is asked about a name
    let names = ["x", "X", "y", "K", "k", "f", "F", "+", "-", "!", "mod", "MOD", "^", "?", "", "z"];
    let mut w = Vec::new();
    for shape in 0..2 {
        let lang = Lang::standard();
        let mut outer = Scope::new(Config::new(), None);
        define(&mut outer, &lang, |n| shape == 0 || n % 2 == 0);
        let mut c = Scope::new(Config::new(), Some(Box::new(outer)));
        define(&mut c, &lang, |n| shape == 1 && n % 2 == 1);
        let d = lang.context();
        for n in names {
            let a = (c.is_variable(n), c.is_constant(n), c.is_function(n), c.is_unary_function(n), c.is_binary_function(n));
            let b = (d.is_variable(n), d.is_constant(n), d.is_function(n), d.is_unary_function(n), d.is_binary_function(n));
            let want = (
                lang.vars.contains(&n),
                lang.cons.iter().any(|v| v.eq_ignore_ascii_case(n)),
                lang.funs.iter().any(|v| v.eq_ignore_ascii_case(n)),
                lang.op(n).map_or(false, |o| o.un.is_some()),
                lang.op(n).map_or(false, |o| o.bin.is_some()),
            );
            if a != want || b != want {
                w.push((format!("kinds of the name {:?}", n), format!("must be {:?}, but {:?} and {:?}", want, a, b)));
            }
        }
    }
    // a name defined as each set of kinds, in the inner or in the outer scope
    for set in 0..32u32 {
        for outer in [false, true] {
            let mut c = Scope::new(Config::new(), None);
            let has = |i: u32| set & (1 << i) != 0;
            if has(0) {
                c.set_variable("n", Sym(1)).unwrap();
            }
            if has(1) {
                c.add_constant("n", Sym(2)).unwrap();
            }
            if has(2) {
                c.add_function(SymFun("n")).unwrap();
            }
            if has(3) {
                c.add_unary_function(SymUn("n", Notation::Prefix)).unwrap();
            }
            if has(4) {
                c.add_binary_function(SymBin("n", 1, L)).unwrap();
            }
            if outer {
                c = Scope::new(Config::new(), Some(Box::new(c)));
            }
            let got = (c.is_variable("n"), c.is_constant("n"), c.is_function("n"), c.is_unary_function("n"), c.is_binary_function("n"));
            let want = (has(0), has(1), has(2), has(3), has(4));
            if got != want {
                w.push((format!("kinds of a name defined as {:?}", want), format!("but {:?}", got)));
            }
        }
    }
    for (k, d) in w {
        run.violation(k, d);
    }
}

// ---------------------------------------------------------------- errors

const KINDS: [ErrorKind; 11] = [
    ErrorKind::Overflow,
    ErrorKind::Zero,
    ErrorKind::NAN,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidArgumentCount,
    ErrorKind::DivisionByZero,
    ErrorKind::NegativeValue,
    ErrorKind::PositiveValue,
    ErrorKind::InvalidExpression,
    ErrorKind::Empty,
    ErrorKind::Unknown,
];

#[derive(Debug, Clone)]
struct Mine {
    text: String,
    cause: Option<Box<Mine>>,
}
impl fmt::Display for Mine {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mine: {}", self.text)
    }
}
impl std::error::Error for Mine {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.cause.as_ref().map(|c| &**c as &(dyn std::error::Error + 'static))
    }
}

/// How an error is made.
#[derive(Clone, Debug)]
enum Made {
    Kind,
    Str(&'static str),
    Text(String),
    Other(&'static str),
    Custom(Mine),
    /// an error of the crate inside of another
    Nested(ErrorKind, Box<Made>),
}

/// The error, what it displays, the messages of its causes.
fn build(kind: ErrorKind, m: &Made) -> (Error, ErrorKind, Option<String>, Vec<String>) {
    match m {
        Made::Kind => (Error::from(kind), kind, None, vec![]),
        Made::Str(s) => (Error::new(kind, *s), kind, Some(s.to_string()), vec![]),
        Made::Text(s) => (Error::new(kind, s.clone()), kind, Some(s.clone()), vec![]),
        Made::Other(s) => (Error::other(s), ErrorKind::Unknown, Some(s.to_string()), vec![]),
        Made::Custom(e) => {
            let mut causes = Vec::new();
            let mut c = &e.cause;
            while let Some(x) = c {
                causes.push(x.to_string());
                c = &x.cause;
            }
            (Error::new(kind, e.clone()), kind, Some(e.to_string()), causes)
        }
        Made::Nested(k, inner) => {
            let (e, k2, text, causes) = build(*k, inner);
            let shown = text.unwrap_or_else(|| k2.as_str().to_string());
            (Error::new(kind, e), kind, Some(shown), causes)
        }
    }
}

fn observe_error(e: &mut Error, kind: ErrorKind, text: &Option<String>, causes: &[String]) -> Result<(), String> {
    let shown = text.clone().unwrap_or_else(|| kind.as_str().to_string());
    if e.kind() != kind {
        return Err(format!("kind {:?}", e.kind()));
    }
    if e.to_string() != shown {
        return Err(format!("displays {:?}, not {:?}", e.to_string(), shown));
    }
    let dbg = format!("{:?}", e);
    if dbg.is_empty() {
        return Err("shows nothing for debugging".into());
    }
    if e.get_ref().map(|r| r.to_string()) != *text {
        return Err(format!("get_ref gives {:?}", e.get_ref().map(|r| r.to_string())));
    }
    if e.get_mut().map(|r| r.to_string()) != *text {
        return Err("get_mut gives another error".into());
    }
    let mut c = std::error::Error::source(e);
    let mut n = 0;
    while let Some(x) = c {
        if causes.get(n) != Some(&x.to_string()) {
            return Err(format!("cause {} is {:?}", n, x.to_string()));
        }
        n += 1;
        c = x.source();
    }
    if n != causes.len() {
        return Err(format!("{} causes", n));
    }
    Ok(())
}

struct Fail(Rc<dyn Fn() -> Error>, &'static str);
impl Function<f64> for Fail {
    fn name(&self) -> &str {
        self.1
    }
    fn call(&self, _: &[f64]) -> prexel::Result<f64> {
        Err((self.0)())
    }
}
impl UnaryFunction<f64> for Fail {
    fn name(&self) -> &str {
        self.1
    }
    fn notation(&self) -> Notation {
        if self.1 == "$" {
            Notation::Prefix
        } else {
            Notation::Postfix
        }
    }
    fn call(&self, _: f64) -> prexel::Result<f64> {
        Err((self.0)())
    }
}
impl BinaryFunction<f64> for Fail {
    fn name(&self) -> &str {
        self.1
    }
    fn precedence(&self) -> Precedence {
        Precedence(2)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, _: f64, _: f64) -> prexel::Result<f64> {
        Err((self.0)())
    }
}

pub fn c33(run: &Run) {
    let long = "é∑".repeat(5000);
    let mut makes: Vec<Made> = vec![Made::Kind];
    for s in ["", "message", "{} {:?} \"quoted\" \\ \n\t", "Overflow", "ñ∞\u{0}"] {
        makes.push(Made::Str(s));
        makes.push(Made::Text(s.to_string()));
        makes.push(Made::Other(s));
    }
    makes.push(Made::Text(long));
    let mut cause = None;
    for i in 0..4 {
        let e = Mine { text: format!("level {}", i), cause: cause.take() };
        makes.push(Made::Custom(e.clone()));
        cause = Some(Box::new(e));
    }
    let base = makes.clone();
    for k in KINDS {
        for b in &base {
            makes.push(Made::Nested(k, Box::new(b.clone())));
        }
    }
    for b in base.iter().take(6) {
        makes.push(Made::Nested(ErrorKind::Zero, Box::new(Made::Nested(ErrorKind::NAN, Box::new(b.clone())))));
    }
    run.bound("errors: kinds", KINDS.len() as u64);
    run.bound("errors: ways to make them (kind alone, &str, String, other, an error with 0 to 3 causes, an error of the crate inside of another)", makes.len() as u64);
    run.bound("accessors", "kind, Display, Debug, get_ref, get_mut, source, into_inner, ==; through ?, Box<dyn Error>, and the evaluation of a failing operation in 12 expressions");
    // every kind has its own message
    for (i, a) in KINDS.iter().enumerate() {
        for (j, b) in KINDS.iter().enumerate() {
            if (a.as_str() == b.as_str()) != (i == j) || (a == b) != (i == j) || a.as_str().is_empty() {
                run.violation(format!("{:?} and {:?}", a, b), "two kinds with the same message");
            }
        }
    }
    let texts = ["fail(1)", "1 + fail()", "fail(1) + 2", "max(1, fail(2), 3)", "(fail(1))", "-fail(2)", "2 fails 3", "1 + 2 fails 3", "$ 2", "2 ~", "max(1, 2 fails 3)", "fail(fail(1))"];
    let items: Vec<(usize, ErrorKind)> = (0..makes.len()).flat_map(|m| KINDS.iter().map(move |k| (m, *k))).collect();
    run.par(
        &items,
        || (),
        |w, _, (m, kind)| {
            let made = &makes[*m];
            let key = format!("{:?} {}", kind, format!("{:?}", made).chars().take(200).collect::<String>());
            w.states += 1;
            w.begin(&key);
            let got = guard(|| -> Result<u64, String> {
                let mut n = 0;
                let (mut e, k, text, causes) = build(*kind, made);
                for _ in 0..2 {
                    observe_error(&mut e, k, &text, &causes)?;
                    n += 1;
                }
                // changed in place
                if let Made::Custom(c) = made {
                    let (mut e, ..) = build(*kind, made);
                    match e.get_mut().and_then(|b| b.downcast_mut::<Mine>()) {
                        Some(x) => x.text = "changed".into(),
                        None => return Err("get_mut is not the error given".into()),
                    }
                    let want = Mine { text: "changed".into(), cause: c.cause.clone() };
                    observe_error(&mut e, k, &Some(want.to_string()), &causes)?;
                    match e.get_ref().and_then(|b| b.downcast_ref::<Mine>()) {
                        Some(x) if x.text == "changed" => {}
                        _ => return Err("get_ref is not the error changed".into()),
                    }
                }
                // equality is of the kinds
                for k2 in KINDS {
                    for m2 in [Made::Kind, Made::Str("message")] {
                        let (e2, k2, ..) = build(k2, &m2);
                        if (e == e2) != (k == k2) || (e2 == e) != (k == k2) {
                            return Err(format!("== {:?} is {}", k2, e == e2));
                        }
                        n += 1;
                    }
                }
                let boxed: Box<dyn std::error::Error> = Box::new(build(*kind, made).0);
                match boxed.downcast::<Error>() {
                    Ok(mut e) => observe_error(&mut e, k, &text, &causes)?,
                    Err(_) => return Err("boxed, it is another type".into()),
                }
                if build(*kind, made).0.into_inner().map(|e| e.to_string()) != text {
                    return Err("into_inner gives another error".into());
                }
                // through an evaluation
                let mk = made.clone();
                let kd = *kind;
                let f: Rc<dyn Fn() -> Error> = Rc::new(move || build(kd, &mk).0);
                let mut c: DefaultContext<'static, f64> = DefaultContext::new_checked();
                c.add_function(Fail(f.clone(), "fail")).unwrap();
                c.add_binary_function(Fail(f.clone(), "fails")).unwrap();
                c.add_unary_function(Fail(f.clone(), "$")).unwrap();
                c.add_unary_function(Fail(f, "~")).unwrap();
                let ev = Box::leak(Box::new(Evaluator::with_context(c)));
                let mut res = Ok(());
                for t in texts {
                    n += 1;
                    match ev.eval(t) {
                        Ok(v) => res = Err(format!("`{}` is {}", t, v)),
                        Err(mut e) => {
                            if let Err(x) = observe_error(&mut e, k, &text, &causes) {
                                res = Err(format!("`{}`: {}", t, x));
                            }
                        }
                    }
                }
                res.map(|_| n)
            });
            w.end();
            match got {
                Ok(Ok(n)) => w.transitions += n,
                Ok(Err(e)) => w.violation(key, e),
                Err(p) => w.violation(key, format!("panic: {}", p)),
            }
        },
    );
}
