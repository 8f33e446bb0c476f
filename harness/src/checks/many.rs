//! Many definitions, long histories and many rules: families that grow one element at a time, in which
//! everything that was there before is observed again at chosen sizes.
use super::long::{counts, cycles};
use crate::fw::*;
use crate::sym::*;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::rules::{Outcome, SplitRule};
use prexel::utils::splitter::{rules, DefaultSplitterBuilder, SplitWhitespaceOption, Splitter};
use std::iter::Peekable;
use std::str::Chars;

struct Def {
    name: String,
    aliases: Vec<&'static str>,
    tag: u64,
}

impl Def {
    fn al(&self) -> Option<&[&str]> {
        if self.aliases.is_empty() {
            None
        } else {
            Some(&self.aliases)
        }
    }
}
impl Function<Sym> for Def {
    fn name(&self) -> &str {
        &self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.al()
    }
    fn call(&self, _: &[Sym]) -> prexel::Result<Sym> {
        Ok(Sym(self.tag))
    }
}
impl BinaryFunction<Sym> for Def {
    fn name(&self) -> &str {
        &self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.al()
    }
    fn precedence(&self) -> Precedence {
        Precedence(3)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, _: Sym, _: Sym) -> prexel::Result<Sym> {
        Ok(Sym(self.tag))
    }
}
impl UnaryFunction<Sym> for Def {
    fn name(&self) -> &str {
        &self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.al()
    }
    fn notation(&self) -> Notation {
        Notation::Prefix
    }
    fn call(&self, _: Sym) -> prexel::Result<Sym> {
        Ok(Sym(self.tag))
    }
}

/// The i-th name of a family, in lower case.
fn name(family: usize, i: usize) -> String {
    match family {
        0 => format!("n{}", i),
        1 => "x".repeat(i + 1),
        2 => char::from_u32(0x4e00 + i as u32).unwrap().to_string(),
        3 => format!("{}{}", "long_common_prefix_".repeat(4), i),
        4 => format!("{}_z", char::from(b'a' + (i % 26) as u8).to_string().repeat(i / 26 + 1)),
        // Cyrillic capital and small letters, Greek, Armenian: letters of two cases
        _ => {
            let l: Vec<char> = ('α'..='ω').chain('а'..='я').chain('ա'..='ֆ').filter(|c| *c != 'ς').collect();
            let mut s = String::new();
            let mut k = i;
            loop {
                s.push(l[k % l.len()]);
                k /= l.len();
                if k == 0 {
                    return s;
                }
            }
        }
    }
}
const FAMILIES: usize = 6;

fn define(c: &mut DefaultContext<'static, Sym>, kind: usize, name: &str, aliases: &[&'static str], tag: u64) -> bool {
    let d = || Def { name: name.to_string(), aliases: aliases.to_vec(), tag };
    match kind {
        0 => c.set_variable(name, Sym(tag)).is_ok(),
        1 => c.add_constant(name, Sym(tag)).is_ok(),
        2 => c.add_function(d()).is_ok(),
        3 => c.add_unary_function(d()).is_ok(),
        4 => c.add_binary_function(d()).is_ok(),
        5 => c.add_function_as(d(), &format!("{}_as", name)).is_ok(),
        6 => c.add_unary_function_as(d(), &format!("{}_as", name)).is_ok(),
        _ => c.add_binary_function_as(d(), &format!("{}_as", name)).is_ok(),
    }
}

fn find(c: &DefaultContext<'static, Sym>, kind: usize, name: &str) -> Option<u64> {
    match kind {
        0 => c.get_variable(name).map(|v| v.0),
        1 => c.get_constant(name).map(|v| v.0),
        2 => c.get_function(name).map(|f| f.call(&[]).unwrap().0),
        3 => c.get_unary_function(name).map(|f| f.call(Sym(1)).unwrap().0),
        4 => c.get_binary_function(name).map(|f| f.call(Sym(1), Sym(1)).unwrap().0),
        5 => c.get_function(&format!("{}_as", name)).map(|f| f.call(&[]).unwrap().0),
        6 => c.get_unary_function(&format!("{}_as", name)).map(|f| f.call(Sym(1)).unwrap().0),
        _ => c.get_binary_function(&format!("{}_as", name)).map(|f| f.call(Sym(1), Sym(1)).unwrap().0),
    }
}

const KINDS: [&str; 8] = ["variable", "constant", "function", "unary operator", "binary operator", "function_as", "unary_as", "binary_as"];

pub fn c07(run: &Run) {
    let max = run.pick(300, 1100);
    let ns = counts(run, 40, max);
    run.bound("many definitions: families of names", FAMILIES as u64);
    run.bound("many definitions: kinds, alone and all of them together", KINDS.to_vec());
    run.bound("many definitions: defined one after the other, all observed at these sizes", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    // one kind, or all but the constants (whose names would be those of the variables)
    let mut items: Vec<(usize, Vec<usize>)> = vec![];
    for f in 0..FAMILIES {
        for k in 0..KINDS.len() {
            items.push((f, vec![k]));
        }
        items.push((f, vec![0, 2, 3, 4]));
        items.push((f, vec![1, 5, 6, 7]));
    }
    run.par(
        &items,
        || (),
        |w, _, (family, kinds)| {
            let tell = |kind: usize, what: String| (format!("{} definitions of a {} (family {})", what, KINDS[kind], family), ());
            let res = guard(|| -> Result<(), (String, String)> {
                let mut c = DefaultContext::<'static, Sym>::with_config(Config::new());
                for i in 0..*ns.last().unwrap() {
                    let n = name(*family, i);
                    let up: String = n.chars().flat_map(|c| c.to_uppercase()).collect();
                    for &k in kinds {
                        w.states += 1;
                        w.transitions += 1;
                        w.traces += 1;
                        let tag = (i * 10 + k + 1) as u64;
                        let given = if k != 0 && i % 2 == 1 { &up } else { &n };
                        if find(&c, k, &n).is_some() {
                            return Err((tell(k, i.to_string()).0, format!("`{}` is found before it is defined", n)));
                        }
                        if !define(&mut c, k, given, &[], tag) {
                            return Err((tell(k, i.to_string()).0, format!("`{}` is refused", given)));
                        }
                        if k >= 2 && (define(&mut c, k, &n, &[], 7) || define(&mut c, k, &up, &[], 7)) {
                            return Err((tell(k, (i + 1).to_string()).0, format!("`{}` is accepted again", n)));
                        }
                        if find(&c, k, &n) != Some(tag) {
                            return Err((tell(k, (i + 1).to_string()).0, format!("`{}` is {:?}", n, find(&c, k, &n))));
                        }
                    }
                    if ns.contains(&(i + 1)) {
                        for j in 0..=i {
                            let n = name(*family, j);
                            let up: String = n.chars().flat_map(|c| c.to_uppercase()).collect();
                            for &k in kinds {
                                w.transitions += 1;
                                let want = Some((j * 10 + k + 1) as u64);
                                let upper = if k == 0 && up != n { None } else { want };
                                if find(&c, k, &n) != want || find(&c, k, &up) != upper {
                                    return Err((
                                        tell(k, (i + 1).to_string()).0,
                                        format!("`{}` is {:?} and `{}` {:?}, must be {:?} and {:?}", n, find(&c, k, &n), up, find(&c, k, &up), want, upper),
                                    ));
                                }
                            }
                        }
                        let has = |a: usize, b: usize| kinds.iter().filter(|k| **k == a || **k == b).count() * (i + 1);
                        let sizes = [c.variables().len(), c.constants().len(), c.functions().len(), c.unary_functions().len(), c.binary_functions().len()];
                        let want = [has(0, 0), has(1, 1), has(2, 5), has(3, 6), has(4, 7)];
                        if sizes != want {
                            return Err((format!("{} definitions (family {})", i + 1, family), format!("listed {:?}, must be {:?}", sizes, want)));
                        }
                    }
                }
                Ok(())
            });
            match res {
                Ok(Ok(())) => {}
                Ok(Err((k, d))) => w.violation(k, d),
                Err(p) => w.violation(format!("many definitions, family {} kinds {:?}", family, kinds), format!("panic: {}", p)),
            }
        },
    );
    // many aliases of one definition, and one of the others refused for its last alias
    let counts: Vec<usize> = ns.iter().copied().filter(|n| *n <= 300).collect();
    run.bound("many aliases of one definition, up to", *counts.last().unwrap() as u64);
    run.par(
        &counts,
        || (),
        |w, _, n| {
            for family in [0, 1, 5] {
                let al: Vec<&'static str> = (0..*n).map(|i| &*Box::leak(name(family, i).into_boxed_str())).collect();
                for kind in 2..8 {
                    w.states += 1;
                    w.transitions += 1;
                    w.traces += 1;
                    let key = format!("{} aliases of a {} (family {})", n, KINDS[kind], family);
                    let r = guard(|| -> Result<(), String> {
                        let mut c = DefaultContext::<'static, Sym>::with_config(Config::new());
                        if !define(&mut c, kind, "first", &al, 5) {
                            return Err("refused".into());
                        }
                        let base = [2, 3, 4][(kind - 2) % 3];
                        for a in &al {
                            let up: String = a.chars().flat_map(|c| c.to_uppercase()).collect();
                            if find(&c, base, a) != Some(5) || find(&c, base, &up) != Some(5) {
                                return Err(format!("alias `{}` is {:?}", a, find(&c, base, a)));
                            }
                        }
                        for a in &al {
                            let up: &'static str = Box::leak(a.to_uppercase().into_boxed_str());
                            if define(&mut c, base, "second", &["free", up], 6) {
                                return Err(format!("a definition with the alias `{}` of another one is accepted", up));
                            }
                            if define(&mut c, base, up, &[], 6) {
                                return Err(format!("a definition with the name `{}`, an alias of another one, is accepted", up));
                            }
                            if find(&c, base, "second").is_some() || find(&c, base, "free").is_some() || find(&c, base, a) != Some(5) {
                                return Err(format!("the definition refused for `{}` changed the context", up));
                            }
                        }
                        Ok(())
                    });
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(d)) => w.violation(key, d),
                        Err(p) => w.violation(key, format!("panic: {}", p)),
                    }
                }
            }
        },
    );
}

/// Expressions over floats with `x` = 2 and what they give.
const EXPRS: [(&str, Option<f64>); 18] = [
    ("1 + 2 * 3", Some(7.0)),
    ("(1 + x) ^ 2 - 1", Some(8.0)),
    ("max(1, sum(2, 3, x), 4) !", Some(5040.0)),
    ("- x ^ 2 - 1", Some(3.0)),
    ("((((((((x))))))))", Some(2.0)),
    ("1 / 0", None),
    ("log(1, 2, 3)", None),
    ("max()", None),
    ("(-1)!", None),
    ("", None),
    ("1 +", None),
    ("max(1, (2", None),
    ("(((((1", None),
    ("1)", None),
    ("1 ? 2", None),
    ("y + 1", None),
    ("max(1, 2, ", None),
    ("sum(1, 2, 1 / 0) + max(1", None),
];

fn histories<C>(run: &Run, tag: &str, make: impl Fn() -> C + Sync)
where
    C: Context<'static, f64> + 'static,
{
    let n = run.pick(300usize, 2100);
    let ns = counts(run, 12, n);
    let pairs: Vec<(usize, usize)> = (0..EXPRS.len()).flat_map(|a| (0..EXPRS.len()).map(move |b| (a, b))).collect();
    run.par(
        &pairs,
        || (),
        |w, _, (a, b)| {
            let ev: &'static mut Evaluator<'static, f64, C> = Box::leak(Box::new(Evaluator::with_context(make())));
            ev.mut_context().set_variable("x", 2.0).unwrap();
            let ev: &'static Evaluator<'static, f64, C> = ev;
            let tok: Tokenizer<'static, f64, C> = Tokenizer::new();
            let check = |w: &mut Worker, e: usize, i: usize, tokens: bool| {
                w.transitions += 1;
                w.traces += 1;
                let (s, want) = EXPRS[e];
                let got = guard(|| {
                    if tokens {
                        tok.tokenize(ev.context(), s).and_then(|t| ev.eval_tokens(&t)).ok()
                    } else {
                        ev.eval(s).ok()
                    }
                });
                if got.as_ref() != Ok(&want) {
                    w.violation(
                        format!("{}: `{}` and `{}` {} times, then `{}`", tag, EXPRS[*a].0, EXPRS[*b].0, i, s),
                        format!("got {:?}, must be {:?}", got, want),
                    );
                    false
                } else {
                    true
                }
            };
            for i in 1..=n {
                w.states += 1;
                let mut ok = check(w, *a, i, false) && check(w, *b, i, i % 2 == 0);
                if ok && ns.contains(&i) {
                    for e in 0..EXPRS.len() {
                        ok = ok && check(w, e, i, false) && check(w, e, i, true);
                    }
                }
                if !ok {
                    break;
                }
            }
            // SAFETY: leaked above, and used no more.
            unsafe { drop(Box::from_raw(ev as *const _ as *mut Evaluator<'static, f64, C>)) };
        },
    );
}

pub fn c12(run: &Run) {
    run.bound("long histories: every pair of these expressions, repeated", EXPRS.map(|e| e.0).to_vec());
    run.bound("long histories: repetitions", run.pick(300u64, 2100));
    histories(run, "floats", DefaultContext::<f64>::new_checked);
    histories(run, "unchecked floats", DefaultContext::<f64>::new_unchecked);
    // many variables, redefined many times
    let max = run.pick(300, 1100);
    run.bound("many variables, each redefined after every other one, up to", max as u64);
    let items: Vec<usize> = counts(run, 20, max);
    run.par(
        &items,
        || (),
        |w, _, n| {
            w.states += 1;
            let r = guard(|| -> Result<(), String> {
                let mut c = DefaultContext::<f64>::new_checked();
                let mut want = vec![0.0; *n];
                for i in 0..*n {
                    if c.set_variable(&format!("v{}", i), i as f64).map_err(|e| e.to_string())?.is_some() {
                        return Err(format!("v{} had a value", i));
                    }
                    want[i] = i as f64;
                }
                let ev: &'static mut Evaluator<'static, f64> = Box::leak(Box::new(Evaluator::with_context(c)));
                let p = ev as *mut Evaluator<'static, f64>;
                for i in 0..*n {
                    let k = (i * 7 + 3) % *n;
                    // SAFETY: no evaluation is going on, and its results do not borrow.
                    let old = unsafe { (*p).mut_context() }.set_variable(&format!("v{}", k), 1e6 + i as f64).map_err(|e| e.to_string())?;
                    if old != Some(want[k]) {
                        return Err(format!("v{} was {:?}, must be {}", k, old, want[k]));
                    }
                    want[k] = 1e6 + i as f64;
                    w.transitions += 1;
                    w.traces += 1;
                    // the variables next to it, and at the ends
                    for j in [k, (k + 1) % *n, (k + n - 1) % *n, 0, *n - 1, i] {
                        let ev: &'static Evaluator<'static, f64> = unsafe { &*p };
                        let got = ev.eval(&format!("v{} + 1", j)).map_err(|e| e.to_string())?;
                        if got != want[j] + 1.0 {
                            return Err(format!("after {} redefinitions v{} + 1 is {}, must be {}", i + 1, j, got, want[j] + 1.0));
                        }
                    }
                }
                let all = (0..*n).map(|i| format!("v{}", i)).collect::<Vec<_>>().join("+");
                let ev: &'static Evaluator<'static, f64> = unsafe { &*p };
                let got = ev.eval(&all).map_err(|e| e.to_string())?;
                let sum: f64 = want.iter().sum();
                unsafe { drop(Box::from_raw(p)) };
                if got != sum {
                    return Err(format!("the sum of all is {}, must be {}", got, sum));
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => w.violation(format!("{} variables", n), e),
                Err(p) => w.violation(format!("{} variables", n), format!("panic: {}", p)),
            }
        },
    );
}

/// Accepts one character, as the lexeme `tag`.
struct One(char, usize);
impl SplitRule for One {
    fn split(&self, c: char, _: &mut Peekable<Chars>) -> Outcome {
        if c == self.0 {
            Outcome::Data(format!("r{}", self.1))
        } else {
            Outcome::Continue
        }
    }
}

pub fn c21(run: &Run) {
    let ns = counts(run, 40, run.pick(300, 1100));
    run.bound("many rules, of one character each", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    let ch = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
    run.par(
        &ns,
        || (),
        |w, _, n| {
            // 0: in order, 1: in reverse, 2: each at the middle, 3: in order with each character twice
            for mode in 0..4 {
                for ws in [false, true] {
                    let mut b = DefaultSplitterBuilder::new();
                    if ws {
                        b = b.whitespace(SplitWhitespaceOption::Remove);
                    }
                    let mut order: Vec<(char, usize)> = vec![];
                    for i in 0..*n {
                        let c = if mode == 3 { ch(i / 2) } else if mode == 0 { ch(i) } else { ch(i * 2 / 3) };
                        let at = match mode {
                            1 => 0,
                            2 => order.len() / 2,
                            _ => order.len(),
                        };
                        b = if at == order.len() && mode != 2 { b.rule(One(c, i)) } else { b.insert_rule(at, One(c, i)) };
                        order.insert(at, (c, i));
                    }
                    let s = b.build();
                    let text: String = (0..*n + 2).flat_map(|i| [ch(i), ' ', ch(*n + 1 - i), '\n', 'a']).collect();
                    let want: Vec<String> = text
                        .chars()
                        .filter(|c| !(ws && c.is_whitespace()))
                        .map(|c| order.iter().find(|o| o.0 == c).map_or(c.to_string(), |o| format!("r{}", o.1)))
                        .collect();
                    w.states += 1;
                    w.transitions += text.chars().count() as u64;
                    w.traces += 1;
                    let got = guard(|| s.split_into_tokens(&text));
                    if got.as_ref() != Ok(&want) {
                        let at = got.as_ref().map_or(0, |g| g.iter().zip(&want).take_while(|(a, b)| a == b).count());
                        w.violation(
                            format!("{} rules (order {}, whitespace removed: {})", n, mode, ws),
                            format!("lexeme {} is {:?}, must be {:?}", at, got.as_ref().map(|g| g.get(at)), want.get(at)),
                        );
                    }
                }
            }
        },
    );
    // long lexemes and long texts: each cycle of characters, for the rules alone
    let chars = ['0', '.', 'a', '_', '+', ' ', '(', 'é', 'b', '1'];
    let cy = cycles(chars.len(), 2);
    let ns = counts(run, 20, run.pick(1100, 8200));
    run.bound("long texts: cycles of up to 2 characters, after a first one", chars.iter().map(|c| c.to_string()).collect::<Vec<_>>());
    run.bound("long texts: repetitions", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    let sets: [(&str, fn() -> DefaultSplitterBuilder<'static>); 5] = [
        ("numeric", || DefaultSplitterBuilder::new().rule(rules::SplitNumeric)),
        ("identifier", || DefaultSplitterBuilder::new().rule(rules::SplitIdentifier)),
        ("operator", || DefaultSplitterBuilder::new().rule(rules::SplitOperator)),
        ("binary", || DefaultSplitterBuilder::new().rule(rules::SplitBinary)),
        ("whitespace", || DefaultSplitterBuilder::new().rule(rules::SkipWhitespace)),
    ];
    run.par(
        &cy,
        || (),
        |w, _, c| {
            for (k, (what, make)) in sets.iter().enumerate() {
                let s = make().build();
                for first in chars {
                    for n in &ns {
                        let mut t = vec![first];
                        for i in 0..*n {
                            t.push(chars[c[i % c.len()]]);
                        }
                        let want = super::lex::provided(k, &t);
                        let text: String = t.iter().collect();
                        w.states += 1;
                        w.transitions += 1;
                        w.traces += 1;
                        let got = guard(|| s.split_into_tokens(&text));
                        if got.as_ref() != Ok(&want) {
                            w.violation(
                                format!("rule {}: {:?} and {} of {:?}", what, first, n, c.iter().map(|i| chars[*i]).collect::<String>()),
                                format!("{} lexemes, must be {}", got.as_ref().map_or(0, |g| g.len()), want.len()),
                            );
                        }
                    }
                }
            }
        },
    );
}
