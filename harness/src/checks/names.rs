//! Names: case folding, the registration state machine of the context, the splitter.
use crate::fw::*;
use crate::gen::*;
use crate::sym::*;
use prexel::context::{Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::function::*;
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::ignore_case_str::{eq_ignore_case, IgnoreCaseStr};
use prexel::utils::ignore_case_string::IgnoreCaseString;
use prexel::utils::splitter::{rules, DefaultSplitter, DefaultSplitterBuilder, SplitWhitespaceOption, Splitter};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash as StdHash, Hasher};

fn h<T: StdHash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Reference: characters compared one by one by their lower case.
fn fold(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_lowercase().collect::<String>()).collect()
}

fn check_pair(w: &mut Worker, a: &str, b: &str) {
    w.transitions += 1;
    let r = guard(|| -> Result<(), String> {
        let (fa, fb) = (fold(a), fold(b));
        let (sa, sb) = (IgnoreCaseStr::new(a), IgnoreCaseStr::new(b));
        let (oa, ob) = (IgnoreCaseString::from(a), IgnoreCaseString::from(b));
        let want = fa == fb;
        if (sa == sb) != want || (oa == ob) != want || eq_ignore_case(a, b) != want {
            return Err(format!("equality must be {}", want));
        }
        let ord = fa.cmp(&fb);
        if sa.cmp(&sb) != ord || oa.cmp(&ob) != ord {
            return Err(format!("order must be {:?}", ord));
        }
        if sa.partial_cmp(&sb) != Some(ord) || oa.partial_cmp(&ob) != Some(ord) {
            return Err(format!("partial order must be {:?}", ord));
        }
        if want && (h(&sa) != h(&sb) || h(&oa) != h(&ob)) {
            return Err("equal strings with different hashes".into());
        }
        if oa.as_str() != a || sa.as_str() != a {
            return Err("the original spelling is lost".into());
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => w.violation(format!("{:?} vs {:?}", a, b), e),
        Err(p) => w.violation(format!("{:?} vs {:?}", a, b), format!("panic: {}", p)),
    }
}

pub fn c08(run: &Run) {
    // every unicode scalar against its case variants
    let blocks: Vec<u32> = (0..0x110000u32).step_by(0x1000).collect();
    run.bound("scalars", "all 1,112,064 Unicode scalar values");
    run.par(&blocks, || (), |w, _, b| {
        for u in *b..*b + 0x1000 {
            let c = match char::from_u32(u) {
                Some(c) => c,
                None => continue,
            };
            w.states += 1;
            let s = c.to_string();
            w.begin(&s);
            let variants = [s.clone(), s.to_lowercase(), s.to_uppercase(), format!("a{}", s), format!("A{}", s), "i".to_string()];
            for v in &variants {
                check_pair(w, &s, v);
                check_pair(w, v, &s);
                check_pair(w, &format!("{}Z", s), &format!("{}z", v));
            }
            // lookup through a context
            if !c.is_whitespace() && !c.is_control() {
                let r = guard(|| -> Result<(), String> {
                    let mut ctx: DefaultContext<Sym> = DefaultContext::new();
                    ctx.add_constant(&s, Sym(u as u64)).map_err(|e| e.to_string())?;
                    let l: String = c.to_lowercase().collect();
                    let up: String = c.to_uppercase().collect();
                    for v in [&s, &l, &up] {
                        let want = if fold(v) == fold(&s) { Some(u as u64) } else { None };
                        if ctx.get_constant(v).map(|x| x.0) != want {
                            return Err(format!("get_constant({:?}) must be {:?}", v, want));
                        }
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => w.violation(format!("constant {:?}", s), e),
                    Err(p) => w.violation(format!("constant {:?}", s), format!("panic: {}", p)),
                }
            }
            w.end();
        }
    });
    // all pairs / triples of short strings over the characters with unusual case mappings
    let al = ['a', 'A', 'b', '_', '1', 'i', 'I', 'İ', 'ı', 'K', '\u{212a}', 'ß', 'ẞ', 'Σ', 'σ', 'ς', 'ǅ', 'ǆ', '\u{307}'];
    let mut strs: Vec<String> = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..run.pick(2, 2) {
        let mut n = vec![];
        for s in &level {
            for c in al {
                n.push(format!("{}{}", s, c));
            }
        }
        strs.extend(n.clone());
        level = n;
    }
    run.bound("pairs and triples", format!("all strings of at most 2 characters over {:?}", al));
    run.par(&strs, || (), |w, _, a| {
        w.states += 1;
        w.begin(a);
        for b in &strs {
            check_pair(w, a, b);
            let (sa, sb) = (IgnoreCaseString::from(a.as_str()), IgnoreCaseString::from(b.as_str()));
            if sa.cmp(&sb) != sb.cmp(&sa).reverse() {
                w.violation(format!("{:?} vs {:?}", a, b), "order is not antisymmetric");
            }
            if sa.cmp(&sb) == Ordering::Less {
                for c in strs.iter().step_by(run.pick(7, 1)) {
                    let sc = IgnoreCaseString::from(c.as_str());
                    if sb.cmp(&sc) == Ordering::Less && sa.cmp(&sc) != Ordering::Less {
                        w.violation(format!("{:?} < {:?} < {:?}", a, b, c), "order is not transitive");
                    }
                }
            }
        }
        w.end();
    });
}

#[derive(Clone, Debug)]
struct Tagged {
    name: &'static str,
    aliases: &'static [&'static str],
    tag: u64,
}
impl Function<Sym> for Tagged {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        if self.aliases.is_empty() {
            None
        } else {
            Some(self.aliases)
        }
    }
    fn call(&self, _: &[Sym]) -> prexel::Result<Sym> {
        Ok(Sym(self.tag + 1000))
    }
}
impl BinaryFunction<Sym> for Tagged {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        Function::<Sym>::aliases(self)
    }
    fn precedence(&self) -> Precedence {
        Precedence(3)
    }
    fn associativity(&self) -> Associativity {
        L
    }
    fn call(&self, _: Sym, _: Sym) -> prexel::Result<Sym> {
        Ok(Sym(self.tag + 2000))
    }
}
impl UnaryFunction<Sym> for Tagged {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        Function::<Sym>::aliases(self)
    }
    fn notation(&self) -> Notation {
        Notation::Prefix
    }
    fn call(&self, _: Sym) -> prexel::Result<Sym> {
        Ok(Sym(self.tag + 3000))
    }
}

#[derive(Clone, Debug)]
enum Op {
    Var(&'static str, u64),
    Con(&'static str, u64),
    Fun(Tagged, Option<&'static str>),
    Un(Tagged, Option<&'static str>),
    Bin(Tagged, Option<&'static str>),
}

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct Model {
    vars: BTreeMap<String, u64>,
    cons: BTreeMap<String, u64>,
    funs: BTreeMap<String, u64>,
    uns: BTreeMap<String, u64>,
    bins: BTreeMap<String, u64>,
}

fn valid_name(n: &str) -> bool {
    !n.is_empty() && !n.chars().any(|c| c.is_whitespace() || c.is_control())
}

fn register(map: &mut BTreeMap<String, u64>, t: &Tagged, alt: Option<&str>) -> bool {
    let name = alt.unwrap_or(t.name);
    if !valid_name(name) || map.contains_key(&name.to_lowercase()) {
        return false;
    }
    if t.aliases.iter().any(|a| map.contains_key(&a.to_lowercase())) {
        return false;
    }
    for a in t.aliases {
        map.insert(a.to_lowercase(), t.tag);
    }
    map.insert(name.to_lowercase(), t.tag);
    true
}

/// The outcome of an operation: did it succeed, and the returned previous value of a variable.
fn model_step(m: &mut Model, op: &Op) -> (bool, Option<u64>) {
    match op {
        Op::Var(n, v) => {
            if !valid_name(n) || m.cons.contains_key(&n.to_lowercase()) {
                return (false, None);
            }
            (true, m.vars.insert(n.to_string(), *v))
        }
        Op::Con(n, v) => {
            if !valid_name(n) || m.vars.keys().any(|k| k.to_lowercase() == n.to_lowercase()) {
                return (false, None);
            }
            m.cons.insert(n.to_lowercase(), *v);
            (true, None)
        }
        Op::Fun(t, a) => (register(&mut m.funs, t, *a), None),
        Op::Un(t, a) => (register(&mut m.uns, t, *a), None),
        Op::Bin(t, a) => (register(&mut m.bins, t, *a), None),
    }
}

fn real_step(c: &mut DefaultContext<'static, Sym>, op: &Op) -> (bool, Option<u64>) {
    match op {
        Op::Var(n, v) => match c.set_variable(n, Sym(*v)) {
            Ok(o) => (true, o.map(|s| s.0)),
            Err(_) => (false, None),
        },
        Op::Con(n, v) => (c.add_constant(n, Sym(*v)).is_ok(), None),
        Op::Fun(t, None) => (c.add_function(t.clone()).is_ok(), None),
        Op::Fun(t, Some(a)) => (c.add_function_as(t.clone(), a).is_ok(), None),
        Op::Un(t, None) => (c.add_unary_function(t.clone()).is_ok(), None),
        Op::Un(t, Some(a)) => (c.add_unary_function_as(t.clone(), a).is_ok(), None),
        Op::Bin(t, None) => (c.add_binary_function(t.clone()).is_ok(), None),
        Op::Bin(t, Some(a)) => (c.add_binary_function_as(t.clone(), a).is_ok(), None),
    }
}

const NAMES: [&str; 8] = ["a", "A", "b", "B", "c", "C", "d", "@"];

fn observe(c: DefaultContext<'static, Sym>, m: &Model) -> Result<(), String> {
    let one = || vec![Sym(1)];
    let sizes = [c.variables().len(), c.constants().len(), c.functions().len(), c.unary_functions().len(), c.binary_functions().len()];
    let want = [m.vars.len(), m.cons.len(), m.funs.len(), m.uns.len(), m.bins.len()];
    if sizes != want {
        return Err(format!("listed (variables, constants, functions, unary, binary) {:?}, must be {:?}", sizes, want));
    }
    for n in NAMES {
        let f = n.to_lowercase();
        let got = [
            c.get_variable(n).map(|s| s.0),
            c.get_constant(n).map(|s| s.0),
            c.get_function(n).map(|f| f.call(&one()).unwrap().0),
            c.get_unary_function(n).map(|f| f.call(Sym(1)).unwrap().0),
            c.get_binary_function(n).map(|f| f.call(Sym(1), Sym(2)).unwrap().0),
        ];
        let want = [
            m.vars.get(n).copied(),
            m.cons.get(&f).copied(),
            m.funs.get(&f).map(|t| t + 1000),
            m.uns.get(&f).map(|t| t + 3000),
            m.bins.get(&f).map(|t| t + 2000),
        ];
        if got != want {
            return Err(format!("lookup of `{}` (variable, constant, function, unary, binary) is {:?}, must be {:?}", n, got, want));
        }
        let is = [c.is_variable(n), c.is_constant(n), c.is_function(n), c.is_unary_function(n), c.is_binary_function(n)];
        if is.iter().zip(want.iter()).any(|(a, b)| *a != b.is_some()) {
            return Err(format!("is_* of `{}` is {:?}, must be {:?}", n, is, want));
        }
    }
    // the same resolution inside an expression: variable, constant, function, operator
    let ev: &'static Evaluator<'static, Sym> = Box::leak(Box::new(Evaluator::with_context(c)));
    let res = (|| {
        for n in NAMES {
            let f = n.to_lowercase();
            let var = m.vars.get(n).copied().or_else(|| m.cons.get(&f).copied());
            let fun = m.funs.get(&f).map(|t| t + 1000);
            let un = m.uns.get(&f).map(|t| t + 3000);
            let bin = m.bins.get(&f).map(|t| t + 2000);
            let cases = [
                (n.to_string(), var),
                (format!("{} ( 1 )", n), if var.is_some() { None } else { fun.or(un) }),
                (format!("1 {} 2", n), if var.is_some() || fun.is_some() { None } else { bin }),
                (format!("{} 1", n), if var.is_some() || fun.is_some() { None } else { un }),
            ];
            for (s, want) in cases {
                let got = ev.eval(&s).ok().map(|v| v.0);
                if got != want {
                    return Err(format!("`{}` evaluates to {:?}, must be {:?}", s, got, want));
                }
            }
        }
        Ok(())
    })();
    // SAFETY: the evaluator was leaked above and is not used any more.
    unsafe { drop(Box::from_raw(ev as *const _ as *mut Evaluator<'static, Sym>)) };
    res
}

pub fn c07(run: &Run) {
    let mut ops: Vec<Op> = Vec::new();
    for n in ["a", "A", "b"] {
        for v in [1, 2] {
            ops.push(Op::Var(n, v));
            ops.push(Op::Con(n, v));
        }
    }
    for n in ["", " ", "a b", "a\n", "\u{0}", "d\t"] {
        ops.push(Op::Var(n, 1));
        ops.push(Op::Con(n, 1));
    }
    let mut tag = 10;
    let mut t = |name: &'static str, aliases: &'static [&'static str]| {
        tag += 1;
        Tagged { name, aliases, tag }
    };
    for (n, al, alt) in [
        ("a", &[][..], None),
        ("A", &[][..], None),
        ("b", &["c"][..], None),
        ("c", &["B", "d"][..], None),
        ("a", &["C"][..], Some("d")),
        ("a", &[][..], Some("c d")),
        ("d", &["D", "c", "a"][..], None),
    ] {
        ops.push(Op::Fun(t(n, al), alt));
        ops.push(Op::Un(t(n, al), alt));
        ops.push(Op::Bin(t(n, al), alt));
    }
    ops.push(Op::Bin(t("@", &["b"]), None));
    ops.push(Op::Un(t("@", &[]), None));
    let depth = run.pick(4, 6);
    run.bound("operations", ops.len() as u64);
    run.bound("history length", depth as u64);
    run.bound("names", NAMES.to_vec());
    run.assume("names are validated as in a build with debug assertions");
    // breadth first search over the states of the reference model; every transition is executed on
    // a real context rebuilt by replaying the (shortest) history of its source state
    let mut seen: HashSet<Model> = HashSet::new();
    seen.insert(Model::default());
    let mut frontier: Vec<(Model, Vec<usize>)> = vec![(Model::default(), vec![])];
    for _ in 0..depth {
        let next = std::sync::Mutex::new(Vec::<(Model, Vec<usize>)>::new());
        run.par(&frontier, || (), |w, _, (m, hist)| {
            w.states += 1;
            let mut local = Vec::new();
            for (i, op) in ops.iter().enumerate() {
                w.transitions += 1;
                let mut m2 = m.clone();
                let want = model_step(&mut m2, op);
                let mut hh = hist.clone();
                hh.push(i);
                let text = hh.iter().map(|i| format!("{:?}", ops[*i])).collect::<Vec<_>>().join("; ");
                w.begin(&text);
                let r = guard(|| -> Result<(), String> {
                    let mut c: DefaultContext<'static, Sym> = DefaultContext::new();
                    for j in hist {
                        real_step(&mut c, &ops[*j]);
                    }
                    let got = real_step(&mut c, op);
                    if got != want {
                        return Err(format!("outcome {:?}, must be {:?}", got, want));
                    }
                    observe(c, &m2)
                });
                w.end();
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => w.violation(text, e),
                    Err(p) => w.violation(text, format!("panic: {}", p)),
                }
                if m2 != *m {
                    local.push((m2, hh));
                }
            }
            next.lock().unwrap().extend(local);
        });
        let mut nf = Vec::new();
        let mut found = next.into_inner().unwrap();
        found.sort_by(|a, b| a.1.cmp(&b.1));
        for (m, hst) in found {
            if seen.insert(m.clone()) {
                nf.push((m, hst));
            }
        }
        frontier = nf;
    }
    run.bound("distinct context states reached", seen.len() as u64);
    standard_namespaces(run);
    super::many::c07(run);
}

/// The functions, operators and constants documented for the standard contexts are all there, with
/// its documented spelling and the same in every build configuration.
fn standard_namespaces(run: &Run) {
    run.solo(|w| {
        let common = [
            "sum", "product", "avg", "max", "min", "sqrt", "ln", "log", "random", "to_radians", "to_degrees", "exp", "sin", "cos",
            "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot", "sinh", "cosh", "tanh", "csch", "sech",
            "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth",
        ];
        let check = |w: &mut Worker, what: &str, have: Vec<String>, want: &[&str]| {
            w.begin(what);
            w.states += 1;
            for n in want {
                if !have.iter().any(|k| k == n) {
                    w.violation(format!("{} {}", what, n), "documented name is not defined");
                }
            }
            w.end();
        };
        macro_rules! names {
            ($c:expr) => {{
                let c = $c;
                let mut v: Vec<String> = c.functions().keys().map(|k| k.as_str().to_lowercase()).collect();
                v.extend(c.binary_functions().keys().map(|k| k.as_str().to_lowercase()));
                v.extend(c.unary_functions().keys().map(|k| k.as_str().to_lowercase()));
                v.extend(c.constants().keys().map(|k| k.as_str().to_lowercase()));
                v
            }};
        }
        let mut w1 = common.to_vec();
        w1.extend(["+", "-", "*", "/", "^", "mod", "!", "pi", "e"]);
        let mut w2 = w1.clone();
        w2.extend(["abs", "floor", "ceil", "truncate", "round", "sign"]);
        check(w, "checked f64", names!(DefaultContext::<f64>::new_checked()), &w2);
        check(w, "checked i32", names!(DefaultContext::<i32>::new_checked()), &w2);
        check(w, "unchecked f64", names!(DefaultContext::<f64>::new_unchecked()), &w1);
        let mut wd = w1.clone();
        wd.extend(["cbrt", "floor", "ceil", "truncate", "round"]);
        check(w, "decimal", names!(DefaultContext::<prexel::decimal::Decimal>::new_decimal()), &wd);
        let wc: Vec<&str> =
            common.iter().copied().filter(|n| !["max", "min", "to_radians", "to_degrees"].contains(n)).chain(["+", "-", "*", "/", "^", "mod", "i", "pi", "e"]).collect();
        check(w, "complex", names!(DefaultContext::<prexel::complex::Complex<f64>>::new_complex()), &wc);
        check(
            w,
            "binary",
            names!(DefaultContext::<prexel::binary::Binary>::new_binary()),
            &[
                "~", "not", "&", "and", "|", "or", "^", "xor", "==", "eq", "!=", "ne", ">", "gt", "<", "lt", ">=", "gte", "<=", "lte",
                ">>", "shr", "<<", "shl",
            ],
        );
    });
}

// ---------------------------------------------------------------------------------------------
// splitter
// ---------------------------------------------------------------------------------------------

pub const OPERATORS: &str = "~`!@#$%^&*-+:;\"'|\\?.<>/=,";

/// Reference splitter.
pub fn ref_split(s: &[char], ops: &str, keep_ws: bool, numeric: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let mut j = i + 1;
        if numeric && c.is_ascii_digit() {
            let mut dot = false;
            while j < s.len() && (s[j].is_ascii_digit() || (s[j] == '.' && !dot)) {
                dot |= s[j] == '.';
                j += 1;
            }
        } else if c.is_ascii_alphabetic() || c == '_' {
            while j < s.len() && (s[j].is_ascii_alphanumeric() || s[j] == '_') {
                j += 1;
            }
        } else if ops.contains(c) {
            while j < s.len() && ops.contains(s[j]) {
                j += 1;
            }
        } else if c.is_whitespace() && !keep_ws {
            i = j;
            continue;
        }
        out.push(s[i..j].iter().collect());
        i = j;
    }
    out
}

pub fn c06(run: &Run) {
    let al: Vec<char> = vec!['1', '.', 'a', ' ', '+', '<', '_', '(', 'é', '0', ',', '\t', 'Z', '\u{a0}'];
    let len = run.pick(5, 7);
    run.bound("characters", al.iter().map(|c| c.to_string()).collect::<Vec<_>>());
    run.bound("max characters", len as u64);
    let items = raw_prefixes(al.len(), 2);
    let except: String = OPERATORS.chars().filter(|c| *c != '<').chain(['_']).collect();
    let with_custom: String = OPERATORS.chars().chain(['_', 'é']).collect();
    run.par(
        &items,
        || {
            let custom = || {
                let mut b = rules::SplitWithOperatorsBuilder::new();
                b.add_operator('é');
                b.build()
            };
            let v: Vec<(&str, DefaultSplitter, &str, bool, bool)> = vec![
                ("default", DefaultSplitter::default(), OPERATORS, false, true),
                ("default, keep whitespaces", DefaultSplitter::new(SplitWhitespaceOption::None), OPERATORS, true, true),
                (
                    "operators except <",
                    DefaultSplitterBuilder::new()
                        .rule(rules::SplitNumeric)
                        .rule(rules::SplitIdentifier)
                        .rule(rules::SplitWithOperators::builder().except('<').build())
                        .whitespace(SplitWhitespaceOption::Remove)
                        .build(),
                    &except,
                    false,
                    true,
                ),
                (
                    "operators and é",
                    DefaultSplitter::builder()
                        .rule(rules::SplitIdentifier)
                        .rule(custom())
                        .insert_rule(0, rules::SplitNumeric)
                        .whitespace(SplitWhitespaceOption::Remove)
                        .build(),
                    &with_custom,
                    false,
                    true,
                ),
                (
                    "no numeric rule",
                    DefaultSplitter::builder()
                        .rule(rules::SplitIdentifier)
                        .rule(rules::SplitOperator)
                        .whitespace(SplitWhitespaceOption::Remove)
                        .build(),
                    OPERATORS,
                    false,
                    false,
                ),
            ];
            v
        },
        |w, sp, it| {
            raw_dfs(w, al.len(), it, len, &mut |w, ix| {
                let chars: Vec<char> = ix.iter().map(|i| al[*i]).collect();
                let s: String = chars.iter().collect();
                w.begin(&s);
                for (name, sp, ops, keep, numeric) in sp.iter() {
                    w.transitions += 1;
                    let got = guard(|| sp.split_into_tokens(&s));
                    let want = ref_split(&chars, ops, *keep, *numeric);
                    match got {
                        Ok(g) => {
                            if g != want {
                                w.violation(format!("[{}] {:?}", name, s), format!("split in {:?}, must be {:?}", g, want));
                            }
                        }
                        Err(p) => w.violation(format!("[{}] {:?}", name, s), format!("panic: {}", p)),
                    }
                }
                w.end();
            });
        },
    );
    // each character, next to digits, points, letters and signs
    let odd = "éñßÑ中٣²Ⅷªʰ\u{301}\u{a0}\u{2003}\u{3000}\u{feff}\u{0}\u{7f}\u{1b}\u{1F600}×÷−٫–";
    let each: Vec<char> = (1..0x7fu8).map(char::from).chain(odd.chars()).collect();
    let len = run.pick(5, 6);
    run.bound("strings of 1 . a - and each ASCII character (and others), max characters", len as u64);
    run.par(
        &each,
        || vec![("default", DefaultSplitter::default(), false), ("default, keep whitespaces", DefaultSplitter::new(SplitWhitespaceOption::None), true)],
        |w, sp, c| {
            let al = [*c, '1', '.', 'a', '-'];
            raw_dfs(w, al.len(), &[], len, &mut |w, ix| {
                let chars: Vec<char> = ix.iter().map(|i| al[*i]).collect();
                let s: String = chars.iter().collect();
                for (name, sp, keep) in sp.iter() {
                    w.transitions += 1;
                    w.traces += 1;
                    let got = guard(|| sp.split_into_tokens(&s));
                    let want = ref_split(&chars, OPERATORS, *keep, true);
                    if got.as_ref() != Ok(&want) {
                        w.violation(format!("[{}] {:?}", name, s), format!("split in {:?}, must be {:?}", got, want));
                    }
                }
            });
        },
    );
    // runs of operators in a context with operators that are prefixes of others
    let names = ["<", "<<", "<<=", "=", "==", "<=", "!", "!="];
    let chars = ["<", "=", "!", ",", "%"];
    let len = run.pick(6, 7);
    run.bound("operators", names.to_vec());
    run.bound("max length of an operator run", len as u64);
    let sets: Vec<Vec<&'static str>> =
        (1u32..1 << names.len()).map(|m| (0..names.len()).filter(|i| m & (1 << i) != 0).map(|i| names[i]).collect()).collect();
    run.bound("operator sets", sets.len() as u64);
    run.par(
        &sets,
        || Tokenizer::<'static, Sym>::new(),
        |w, tk, set| {
            let mut ctx: DefaultContext<'static, Sym> = DefaultContext::new();
            for n in set {
                // `!` is postfix so that it may be the last one
                if *n == "!" {
                    ctx.add_unary_function(SymUn("!", Notation::Postfix)).unwrap();
                } else {
                    ctx.add_binary_function(SymBin(n, 1, L)).unwrap();
                }
            }
            let k = chars.len();
            for l in 1..=len {
                for code in 0..k.pow(l as u32) {
                    let mut c = code;
                    let mut r = String::new();
                    for _ in 0..l {
                        r.push_str(chars[c % k]);
                        c /= k;
                    }
                    // longest known operator first; a run that does not decompose is one token
                    let mut parts: Vec<&str> = Vec::new();
                    let known = |s: &str| s == "," || set.contains(&s);
                    let mut rest = r.as_str();
                    while !rest.is_empty() {
                        match (1..=rest.len()).rev().find(|n| known(&rest[..*n])) {
                            Some(n) => {
                                parts.push(&rest[..n]);
                                rest = &rest[n..];
                            }
                            None => {
                                parts = vec![&r];
                                break;
                            }
                        }
                    }
                    let text = format!("1{}2", r);
                    w.states += 1;
                    w.begin(&text);
                    let got = guard(|| tk.tokenize(&ctx, &text));
                    w.end();
                    let bad = match got {
                        Err(p) => Some(format!("panic: {}", p)),
                        Ok(Err(_)) => Some("rejected".to_string()),
                        Ok(Ok(t)) => {
                            let mid: Vec<String> = t[1..t.len() - 1]
                                .iter()
                                .map(|t| match t {
                                    Token::BinaryOperator(s) | Token::UnaryOperator(s) | Token::Unknown(s) => s.clone(),
                                    Token::Comma => ",".into(),
                                    t => format!("{:?}", t),
                                })
                                .collect();
                            if mid == parts {
                                None
                            } else {
                                Some(format!("tokens {:?}", mid))
                            }
                        }
                    };
                    if let Some(b) = bad {
                        // `!` in a position where it can't be postfix is rejected by the tokenizer
                        if b == "rejected" && parts.contains(&"!") {
                            continue;
                        }
                        w.violation(format!("{:?} with operators {:?}", text, set), format!("must be {:?}: {}", parts, b));
                    }
                }
            }
        },
    );
    super::long::c06(run);
}
