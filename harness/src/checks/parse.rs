//! The expression language: every lexeme sequence within the bounds is run through the real
//! tokenizer, shunting-yard and evaluator and compared with the reference model of `sym.rs`.
use crate::fw::*;
use crate::gen::*;
use crate::sym::*;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::{infix_to_rpn, Evaluator};
use prexel::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use std::collections::HashMap;

pub struct Real {
    ev: Evaluator<'static, Sym>,
}

impl Real {
    pub fn new(lang: &Lang) -> &'static Real {
        Real::of(lang.context())
    }
    pub fn of(c: DefaultContext<'static, Sym>) -> &'static Real {
        Box::leak(Box::new(Real { ev: Evaluator::with_context(c) }))
    }
}

pub type Out = Result<Option<u64>, String>;

/// `Ok(Some)` value, `Ok(None)` error, `Err` panic.
pub fn eval(r: &'static Real, s: &str) -> Out {
    guard(|| r.ev.eval(s).ok().map(|v| v.0))
}

fn show(o: &Out) -> String {
    match o {
        Ok(Some(v)) => format!("value #{:016x}", v),
        Ok(None) => "error".into(),
        Err(p) => format!("panic: {}", p),
    }
}

/// Runs one expression and compares.
pub fn check_expr(w: &mut Worker, r: &'static Real, lang: &Lang, toks: &[Lex], text: &str, tag: &str) {
    let want = ref_hash(lang, toks);
    w.begin(text);
    let got = eval(r, text);
    w.end();
    if got != Ok(want) {
        w.violation(
            format!("{}{}", tag, text),
            format!(
                "`{}` must be {} but got {}",
                text,
                ref_show(lang, toks),
                match &got {
                    Ok(Some(_)) => "a different value".to_string(),
                    o => show(o),
                }
            ),
        );
    }
}

fn run_gen(run: &Run, g: &Gen, split: usize, tag: &str) {
    let items = g.split(split);
    run.par(
        &items,
        || Real::new(&g.lang),
        |w, r, it| {
            let r: &'static Real = r;
            g.dfs(w, it, &mut |w, toks| {
                let text = join(toks, " ");
                check_expr(w, r, &g.lang, toks, &text, tag);
            });
        },
    );
}

pub fn c01(run: &Run) {
    run.assume("an expression tree is identified by a 64 bit hash of its operators and ordered, position-distinct operands");
    let lang = Lang::standard();
    // everything
    let len = run.pick(8, 9);
    let mut g = Gen::of(&lang, len);
    g.binary = vec!["+", "-", "*", "/", "mod", "^"];
    g.groups = vec!["(", "[", "{"];
    run.bound("mixed: operators + - * / mod ^ ! with groups, calls, variables, constants, max lexemes", len as u64);
    run_gen(run, &g, 3, "");
    // operators only
    let len = run.pick(12, 14);
    let mut g = Gen::of(&lang, len);
    g.operands.clear();
    g.groups.clear();
    g.funs.clear();
    g.binary = vec!["+", "-", "*", "^"];
    g.prefix = vec!["-"];
    run.bound("operators only, max lexemes", len as u64);
    run_gen(run, &g, 5, "");
    // nesting
    let len = run.pick(13, 16);
    let mut g = Gen::of(&lang, len);
    g.operands.clear();
    g.groups = vec!["("];
    g.binary = vec!["*", "^"];
    g.prefix = vec!["-"];
    g.funs.clear();
    run.bound("nested groups, max lexemes", len as u64);
    run_gen(run, &g, 5, "");
    super::real::grouping(run);
    super::long::c01(run);
}

fn alphabet() -> Vec<Lex> {
    vec![
        lx(K::Num, "1"),
        lx(K::Var, "x"),
        lx(K::Op, "-"),
        lx(K::Op, "!"),
        lx(K::Op, "*"),
        lx(K::Open, "("),
        lx(K::Close, ")"),
        lx(K::Fun, "f"),
        lx(K::Comma, ","),
        lx(K::Op, "^"),
        lx(K::Open, "["),
        lx(K::Close, "]"),
        lx(K::Con, "K"),
        lx(K::Bad, "?"),
    ]
}

/// Position distinct numbers.
fn lexemes(al: &[Lex], ix: &[usize]) -> Vec<Lex> {
    ix.iter()
        .enumerate()
        .map(|(p, i)| if al[*i].k == K::Num { lx(K::Num, NUMS[p]) } else { al[*i] })
        .collect()
}

fn run_raw(run: &Run, lang: &Lang, al: &[Lex], max_len: usize, tag: &str) {
    let items = raw_prefixes(al.len(), 2);
    run.par(
        &items,
        || Real::new(lang),
        |w, r, it| {
            let r: &'static Real = r;
            raw_dfs(w, al.len(), it, max_len, &mut |w, ix| {
                let toks = lexemes(al, ix);
                let text = join(&toks, " ");
                check_expr(w, r, lang, &toks, &text, tag);
            });
        },
    );
}

pub fn c02(run: &Run) {
    let al = alphabet();
    run.assume("an expression tree is identified by a 64 bit hash of its operators and ordered, position-distinct operands");
    let mut lang = Lang::standard();
    let n = run.pick(6, 7);
    run.bound("alphabet", al.iter().map(|l| l.s).collect::<Vec<_>>());
    run.bound("max lexemes, default configuration", n as u64);
    run_raw(run, &lang, &al, n, "");
    let m = run.pick(5, 6);
    run.bound("max lexemes, each of the other configurations", m as u64);
    lang.implicit = true;
    run_raw(run, &lang, &al, m, "implicit_mul: ");
    lang.custom_call = true;
    run_raw(run, &lang, &al, m, "implicit_mul+custom_call: ");
    lang.implicit = false;
    run_raw(run, &lang, &al, m, "custom_call: ");
    // longer sequences over the structural symbols
    let mut lang = Lang::standard();
    let al: Vec<Lex> = al.into_iter().filter(|l| matches!(l.s, "1" | "-" | "(" | ")" | "f" | ",")).collect();
    let n = run.pick(8, 9);
    run.bound("structural alphabet", al.iter().map(|l| l.s).collect::<Vec<_>>());
    run.bound("max lexemes, structural alphabet", n as u64);
    run_raw(run, &lang, &al, n, "");
    lang.implicit = true;
    run_raw(run, &lang, &al, n - 1, "implicit_mul: ");
    // the three kinds of brackets
    let al: Vec<Lex> = [
        lx(K::Num, "1"),
        lx(K::Op, "-"),
        lx(K::Open, "("),
        lx(K::Close, ")"),
        lx(K::Open, "["),
        lx(K::Close, "]"),
        lx(K::Open, "{"),
        lx(K::Close, "}"),
        lx(K::Fun, "f"),
        lx(K::Comma, ","),
    ]
    .to_vec();
    let n = run.pick(6, 7);
    run.bound("bracket alphabet", al.iter().map(|l| l.s).collect::<Vec<_>>());
    run.bound("max lexemes, bracket alphabet, every configuration", n as u64);
    for implicit in [false, true] {
        for custom_call in [false, true] {
            lang.implicit = implicit;
            lang.custom_call = custom_call;
            let tag = format!("{}{}", if implicit { "implicit_mul: " } else { "" }, if custom_call { "custom_call: " } else { "" });
            run_raw(run, &lang, &al, n, &tag);
        }
    }
    super::long::c02(run);
}

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '.'
}

/// Must the two lexemes be separated?
pub fn must_separate(a: &Lex, b: &Lex) -> bool {
    let x = a.s.chars().last().unwrap();
    let y = b.s.chars().next().unwrap();
    word(x) && word(y) && !(a.k == K::Num && b.k != K::Num)
}

/// The other white space of Unicode.
const WHITE: [char; 21] = [
    '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}',
    '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

pub fn c05(run: &Run) {
    let mut al = alphabet();
    al.push(lx(K::Op, "mod"));
    al.push(lx(K::Open, "{"));
    al.push(lx(K::Close, "}"));
    let n = run.pick(5, 6);
    run.bound("max lexemes", n as u64);
    run.bound("separators", "every pattern of present/absent separators, leading and trailing included; ' ', tab, newline, carriage return and runs of them; each of the other 21 white space characters of Unicode everywhere");
    for implicit in [false, true] {
        let mut lang = Lang::standard();
        lang.implicit = implicit;
        let items = raw_prefixes(al.len(), 2);
        run.par(
            &items,
            || Real::new(&lang),
            |w, r, it| {
                let r: &'static Real = r;
                raw_dfs(w, al.len(), it, n, &mut |w, ix| {
                    let toks = lexemes(&al, ix);
                    let base = join(&toks, " ");
                    w.begin(&base);
                    let want = eval(r, &base);
                    w.end();
                    if want == Ok(None) && ix.len() > n - 1 {
                        // the malformed sequences of maximal length are covered by C02
                        return;
                    }
                    let try_text = |w: &mut Worker, text: String| {
                        if text == base {
                            return;
                        }
                        w.transitions += 1;
                        w.begin(&text);
                        let got = eval(r, &text);
                        w.end();
                        if got != want {
                            w.violation(
                                format!("{:?}", text),
                                format!("`{:?}` is {} but `{}` is {}", text, show(&got), base, show(&want)),
                            );
                        }
                    };
                    let gaps = toks.len() - 1;
                    for m in 0..(1u32 << gaps) {
                        let mut s = String::from(toks[0].s);
                        let mut ok = true;
                        for i in 0..gaps {
                            if m & (1 << i) == 0 {
                                s.push(' ');
                            } else if must_separate(&toks[i], &toks[i + 1]) {
                                ok = false;
                                break;
                            }
                            s.push_str(toks[i + 1].s);
                        }
                        if ok {
                            try_text(w, s);
                        }
                    }
                    for sep in ["  ", "\t", "\n", "\r\n", " \t ", "\t \n"] {
                        try_text(w, join(&toks, sep));
                        try_text(w, format!("{}{}{}", sep, base, sep));
                    }
                    if toks.len() < n {
                        for c in WHITE {
                            let sep = c.to_string();
                            try_text(w, join(&toks, &sep));
                            try_text(w, format!("{}{}{}", sep, base, sep));
                        }
                    }
                    // a single exotic separator at each gap
                    for i in 0..gaps {
                        let mut s = String::new();
                        for (j, t) in toks.iter().enumerate() {
                            s.push_str(t.s);
                            if j < gaps {
                                s.push_str(if j == i { "\t" } else { " " });
                            }
                        }
                        try_text(w, s);
                    }
                });
            },
        );
    }
    super::long::c05(run);
}

pub fn c09(run: &Run) {
    let mut lang = Lang::standard();
    lang.implicit = true;
    let len = run.pick(8, 9);
    run.bound("all operand kinds, max lexemes", len as u64);
    let mut g = Gen::of(&lang, len);
    g.binary = vec!["+", "*", "^"];
    g.prefix = vec!["-"];
    run_gen(run, &g, 3, "");
    let len = run.pick(11, 13);
    run.bound("numbers, variables, groups and ^, max lexemes", len as u64);
    let mut g = Gen::of(&lang, len);
    g.operands = vec![lx(K::Var, "x")];
    g.groups = vec!["("];
    g.funs.clear();
    g.binary = vec!["^", "/"];
    g.prefix = vec!["-"];
    g.postfix.clear();
    run_gen(run, &g, 4, "");
    // compact rendering: `2x`, `2(3)`, `(2)x`
    let len = run.pick(7, 8);
    run.bound("written without separators, max lexemes", len as u64);
    let g = Gen::of(&lang, len);
    let items = g.split(3);
    run.par(
        &items,
        || Real::new(&g.lang),
        |w, r, it| {
            let r: &'static Real = r;
            g.dfs(w, it, &mut |w, toks| {
                let mut s = String::from(toks[0].s);
                for p in toks.windows(2) {
                    if must_separate(&p[0], &p[1]) {
                        s.push(' ');
                    }
                    s.push_str(p[1].s);
                }
                check_expr(w, r, &g.lang, toks, &s, "");
            });
        },
    );
    // juxtapositions that are not allowed
    let al: Vec<Lex> = [
        lx(K::Num, "1"),
        lx(K::Var, "x"),
        lx(K::Con, "K"),
        lx(K::Fun, "f"),
        lx(K::Open, "("),
        lx(K::Close, ")"),
        lx(K::Op, "^"),
        lx(K::Op, "!"),
        lx(K::Op, "-"),
        lx(K::Comma, ","),
    ]
    .to_vec();
    let len = run.pick(6, 7);
    run.bound("arbitrary sequences of operands, brackets and operators, max lexemes", len as u64);
    run_raw(run, &lang, &al, len, "");
    super::real::implicit(run);
    super::long::c09(run);
}

pub fn c10(run: &Run) {
    let mut lang = Lang::standard();
    let len = run.pick(14, 17);
    run.bound("calls of f and g, one prefix, one binary and one postfix operator, max lexemes", len as u64);
    let mut g = Gen::of(&lang, len);
    g.operands.clear();
    g.funs = vec!["f", "g"];
    g.groups = vec!["("];
    g.binary = vec!["-"];
    g.prefix.clear();
    g.postfix.clear();
    run_gen(run, &g, 4, "");
    let len = run.pick(11, 13);
    let mut g = Gen::of(&lang, len);
    g.operands = vec![lx(K::Var, "x")];
    g.groups = vec!["("];
    g.binary = vec!["*", "^"];
    g.prefix = vec!["-"];
    run_gen(run, &g, 4, "");
    lang.custom_call = true;
    let len = run.pick(9, 11);
    run.bound("custom call brackets, max lexemes", len as u64);
    let mut g = Gen::of(&lang, len);
    g.operands.clear();
    g.call_open = vec!["(", "[", "{"];
    g.groups = vec!["[", "{"];
    g.binary = vec!["-"];
    g.prefix = vec!["-"];
    g.postfix.clear();
    run_gen(run, &g, 4, "custom_call: ");
    // many arguments
    run.bound("argument counts", "0 to 64 at depths 0 to 3, 65 to 520 at depths 0 and 1, 1000, 65535, 65536, 65537");
    let lang = Lang::standard();
    let r = Real::new(&lang);
    run.solo(|w| {
        for n in (0..=520usize).chain([1000, 65535, 65536, 65537]) {
            let depths = match n {
                0..=64 => 4,
                65..=520 => 2,
                _ => 1,
            };
            for depth in 0..depths {
                let mut toks = vec![];
                for _ in 0..depth {
                    toks.extend([lx(K::Fun, "g"), lx(K::Open, "("), lx(K::Num, "7"), lx(K::Comma, ",")]);
                }
                toks.extend([lx(K::Fun, "f"), lx(K::Open, "(")]);
                for i in 0..n {
                    if i > 0 {
                        toks.push(lx(K::Comma, ","));
                    }
                    toks.push(lx(K::Num, NUMS[(i * 7) % 24]));
                }
                toks.push(lx(K::Close, ")"));
                for _ in 0..depth {
                    toks.extend([lx(K::Comma, ","), lx(K::Num, "8"), lx(K::Close, ")")]);
                }
                let text = join(&toks, " ");
                w.states += 1;
                check_expr(w, r, &lang, &toks, &text, "");
            }
        }
    });
    // deep calls
    let deep: Vec<usize> = (1..=300).collect();
    run.bound("nesting of calls, in the first, the middle, the last and every argument or in groups", "1 to 300");
    run.par(&deep, || Real::new(&lang), |w, r, n| {
        for shape in 0..6usize {
            let mut toks = vec![];
            let num = |i: usize| lx(K::Num, NUMS[i % 24]);
            for i in 0..*n {
                toks.push(lx(K::Fun, ["f", "g"][i % 2]));
                toks.push(lx(K::Open, "("));
                match shape {
                    1 => toks.extend([num(i), lx(K::Comma, ",")]),
                    2 => toks.extend([num(i), lx(K::Comma, ","), num(i + 3), lx(K::Comma, ",")]),
                    3 => toks.extend([lx(K::Op, "-"), lx(K::Open, "(")]),
                    4 => toks.extend([num(i), lx(K::Comma, ","), lx(K::Fun, "f"), lx(K::Open, "("), lx(K::Close, ")"), lx(K::Comma, ",")]),
                    5 => toks.extend([num(i), lx(K::Op, "-")]),
                    _ => {}
                }
            }
            toks.push(lx(K::Num, "7"));
            for i in 0..*n {
                match shape {
                    0 | 4 => toks.extend([lx(K::Comma, ","), num(i)]),
                    2 if i % 3 == 0 => toks.extend([lx(K::Comma, ","), num(i), lx(K::Comma, ","), num(i + 1)]),
                    3 => toks.push(lx(K::Close, ")")),
                    _ => {}
                }
                toks.push(lx(K::Close, ")"));
            }
            let text = join(&toks, " ");
            w.states += 1;
            check_expr(w, r, &lang, &toks, &text, "");
        }
    });
    super::real::calls(run);
}

pub fn c11(run: &Run) {
    // three binary operators over every weak order of precedences and every associativity per level
    let levels = [0u32, 1, u32::MAX];
    let names = ["@", "op", "&"];
    let mut langs = Vec::new();
    for c in 0..27usize {
        let pr = [levels[c % 3], levels[c / 3 % 3], levels[c / 9]];
        for m in 0..8usize {
            let assoc = |p: u32| -> Associativity {
                let i = levels.iter().position(|l| *l == p).unwrap();
                if m & (1 << i) == 0 {
                    L
                } else {
                    R
                }
            };
            // skip the associativity of the unused levels
            if (0..3).any(|i| !pr.contains(&levels[i]) && m & (1 << i) != 0) {
                continue;
            }
            for un in 0..3 {
                let mut ops: Vec<OpSpec> =
                    (0..3).map(|i| OpSpec { name: names[i], bin: Some((pr[i], assoc(pr[i]))), un: None }).collect();
                match un {
                    0 => {
                        ops.push(OpSpec { name: "~", bin: None, un: Some(Notation::Prefix) });
                        ops.push(OpSpec { name: "!", bin: None, un: Some(Notation::Postfix) });
                    }
                    1 => {
                        ops[0].un = Some(Notation::Prefix);
                        ops.push(OpSpec { name: "post", bin: None, un: Some(Notation::Postfix) });
                    }
                    _ => {
                        ops[1].un = Some(Notation::Prefix);
                        ops.push(OpSpec { name: "pre", bin: None, un: Some(Notation::Prefix) });
                    }
                }
                langs.push(Lang { ops, vars: vec!["x"], cons: vec![], funs: vec!["f"], implicit: false, custom_call: false });
            }
        }
    }
    let len = run.pick(7, 9);
    run.bound("contexts (3 binary operators over every weak order of precedences, associativity per level, 3 unary sets)", langs.len() as u64);
    run.bound("max lexemes", len as u64);
    run.assume("operators of equal precedence have the same associativity; a symbol is not both binary and postfix");
    let brackets = run.pick(6, 7);
    run.bound("max lexemes with calls, variables and the three kinds of brackets", brackets as u64);
    run.par(
        &langs,
        || (),
        |w, _, lang| {
            let r = Real::new(lang);
            let tag = format!(
                "[{}] ",
                lang.ops
                    .iter()
                    .map(|o| format!(
                        "{}{}{}",
                        o.name,
                        o.bin.map_or(String::new(), |(p, a)| format!(" {}{}", p, if a == L { "L" } else { "R" })),
                        match o.un {
                            None => "",
                            Some(Notation::Prefix) => " prefix",
                            Some(Notation::Postfix) => " postfix",
                        }
                    ))
                    .collect::<Vec<_>>()
                    .join(", ")
            );
            let mut g = Gen::of(lang, len);
            g.operands.clear();
            g.groups = vec!["("];
            g.funs.clear();
            g.dfs(w, &g.start(), &mut |w, toks| {
                let text = join(toks, " ");
                check_expr(w, r, lang, toks, &text, &tag);
            });
            let mut g = Gen::of(lang, brackets);
            g.operands = vec![lx(K::Var, "x")];
            g.groups = vec!["(", "[", "{"];
            g.dfs(w, &g.start(), &mut |w, toks| {
                let text = join(toks, " ");
                check_expr(w, r, lang, toks, &text, &tag);
            });
        },
    );
    aliases(run);
    super::long::c11(run);
}

struct AliasBin(SymBin, &'static [&'static str]);
impl BinaryFunction<Sym> for AliasBin {
    fn name(&self) -> &str {
        self.0.name()
    }
    fn aliases(&self) -> Option<&[&str]> {
        Some(self.1)
    }
    fn precedence(&self) -> Precedence {
        self.0.precedence()
    }
    fn associativity(&self) -> Associativity {
        self.0.associativity()
    }
    fn call(&self, l: Sym, r: Sym) -> prexel::Result<Sym> {
        self.0.call(l, r)
    }
}

struct AliasUn(SymUn, &'static [&'static str]);
impl UnaryFunction<Sym> for AliasUn {
    fn name(&self) -> &str {
        self.0.name()
    }
    fn aliases(&self) -> Option<&[&str]> {
        Some(self.1)
    }
    fn notation(&self) -> Notation {
        self.0.notation()
    }
    fn call(&self, v: Sym) -> prexel::Result<Sym> {
        self.0.call(v)
    }
}

/// Operators used by their names, by their aliases and by the name they are registered with.
fn aliases(run: &Run) {
    // what each operator can be called: its name, two aliases, the name of a second registration
    const NAMES: [(&str, [&str; 2], &str); 5] =
        [("@", ["$", "at"], "::"), ("op", ["%", "oper"], "\\"), ("-", ["_", "minus"], ";"), ("~", ["`", "pre"], "flip"), ("!", ["?", "post"], "\"")];
    let len = run.pick(6, 7);
    run.bound("max lexemes of the expressions over operators with aliases, each occurrence called in each way", len as u64);
    let cases: Vec<(Associativity, Associativity, u32, u32)> =
        [L, R].iter().flat_map(|a| [L, R].map(|b| (*a, b))).flat_map(|(a, b)| [(a, b, 1, 2), (a, b, 2, 1), (a, b, 5, 3)]).collect();
    run.par(
        &cases,
        || (),
        |w, _, (a1, a2, p1, p2)| {
            let lang = Lang {
                ops: vec![
                    OpSpec { name: "@", bin: Some((*p1, *a1)), un: None },
                    OpSpec { name: "op", bin: Some((*p2, *a2)), un: None },
                    OpSpec { name: "-", bin: Some((4, L)), un: Some(Notation::Prefix) },
                    OpSpec { name: "~", bin: None, un: Some(Notation::Prefix) },
                    OpSpec { name: "!", bin: None, un: Some(Notation::Postfix) },
                ],
                vars: vec![],
                cons: vec![],
                funs: vec![],
                implicit: false,
                custom_call: false,
            };
            let mut c = DefaultContext::with_config(Config::new());
            for (o, (_, al, other)) in lang.ops.iter().zip(&NAMES) {
                if let Some((p, a)) = o.bin {
                    c.add_binary_function(AliasBin(SymBin(o.name, p, a), al)).unwrap();
                    c.add_binary_function_as(SymBin(o.name, p, a), other).unwrap();
                }
                if let Some(n) = o.un {
                    c.add_unary_function(AliasUn(SymUn(o.name, n), al)).unwrap();
                    c.add_unary_function_as(SymUn(o.name, n), other).unwrap();
                }
            }
            let r: &'static Real = Box::leak(Box::new(Real { ev: Evaluator::with_context(c) }));
            let mut g = Gen::of(&lang, len);
            g.operands.clear();
            g.funs.clear();
            g.groups = vec!["("];
            g.dfs(w, &g.start(), &mut |w, toks| {
                let at: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].k == K::Op).collect();
                let called = |s: &str, n: usize| {
                    let (name, al, other) = NAMES.iter().find(|o| o.0 == s).unwrap();
                    [name, al[0], al[1], other][n]
                };
                // one of them in another way, or all of them
                let mut texts: Vec<Vec<Lex>> = Vec::new();
                let total = 4usize.pow(at.len().min(3) as u32);
                for k in 0..total {
                    let mut t = toks.to_vec();
                    for (j, i) in at.iter().enumerate() {
                        t[*i] = lx(K::Op, called(toks[*i].s, k / 4usize.pow(j as u32 % 3) % 4));
                    }
                    texts.push(t);
                }
                for t in texts {
                    w.transitions += 1;
                    check_expr(w, r, &lang, toks, &join(&t, " "), "[aliases] ");
                }
            });
        },
    );
}

/// One step of a history on a live evaluator.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Eval(usize),
    EvalTokens(usize),
    Tokenize(usize),
    Set(&'static str, u64),
    AddFun,
}

pub fn c12(run: &Run) {
    let exprs: Vec<Vec<Lex>> = {
        let n = |s| lx(K::Num, s);
        let o = |s| lx(K::Op, s);
        let (a, c, f, x, y, cm) =
            (lx(K::Open, "("), lx(K::Close, ")"), lx(K::Fun, "f"), lx(K::Var, "x"), lx(K::Var, "y"), lx(K::Comma, ","));
        vec![
            vec![n("1"), o("+"), n("2"), o("*"), x],
            vec![f, a, n("1"), cm, x, cm, y, c, o("!")],
            vec![o("-"), x, o("^"), y],
            vec![f, a, n("1"), cm, n("2")],
            vec![n("1"), n("2"), o("+")],
            vec![a, n("1"), o("+")],
            vec![f, a, c],
            vec![lx(K::Fun, "h"), a, x, c],
            vec![x, lx(K::Bad, "?")],
            vec![f, a, f, a, y, c, cm, n("3"), c],
        ]
    };
    let mut steps = Vec::new();
    for i in 0..exprs.len() {
        steps.push(Step::Eval(i));
        steps.push(Step::EvalTokens(i));
    }
    steps.push(Step::Tokenize(1));
    steps.push(Step::Tokenize(3));
    for v in ["x", "y"] {
        for k in [0, 1] {
            steps.push(Step::Set(v, k));
        }
    }
    steps.push(Step::AddFun);
    let depth = run.pick(4, 5);
    run.bound("operations", steps.len() as u64);
    run.bound("history length", depth as u64);
    let mut base = Lang::standard();
    base.vars = vec!["x", "y"];
    let n = steps.len();
    let items = raw_prefixes(n, 2);

    struct Model {
        vars: HashMap<&'static str, u64>,
        fun: bool,
    }
    struct VHash<'m>(&'m Model);
    impl Algebra for VHash<'_> {
        type T = u64;
        fn num(&self, s: &str) -> u64 {
            Hash.num(s)
        }
        fn var(&self, s: &str) -> u64 {
            self.0.vars[s]
        }
        fn con(&self, s: &str) -> u64 {
            Hash.con(s)
        }
        fn un(&self, op: &str, a: u64) -> u64 {
            Hash.un(op, a)
        }
        fn bin(&self, op: &str, a: u64, b: u64) -> u64 {
            Hash.bin(op, a, b)
        }
        fn call(&self, f: &str, args: &[u64]) -> u64 {
            Hash.call(f, args)
        }
    }

    run.par(
        &items,
        || (),
        |w, _, it| {
            raw_dfs(w, n, it, depth, &mut |w, ix| {
                // replay the history on a fresh evaluator
                let text = ix.iter().map(|i| format!("{:?}", steps[*i])).collect::<Vec<_>>().join("; ");
                w.begin(&text);
                let res = guard(|| -> Result<(), String> {
                    let mut ev: Evaluator<'static, Sym> = Evaluator::with_context(base.context());
                    let tokenizer: Tokenizer<'static, Sym> = Tokenizer::new();
                    let mut m = Model { vars: HashMap::new(), fun: false };
                    for v in ["x", "y"] {
                        m.vars.insert(v, Hash.var(v));
                    }
                    for i in ix {
                        match steps[*i] {
                            Step::Eval(e) | Step::EvalTokens(e) => {
                                let mut lang = base.clone();
                                if m.fun {
                                    lang.funs.push("h");
                                }
                                let toks: Vec<Lex> = exprs[e]
                                    .iter()
                                    .map(|t| if t.s == "h" && !m.fun { lx(K::Bad, "h") } else { *t })
                                    .collect();
                                let want = Parser::parse(&lang, &toks, &VHash(&m));
                                let s = join(&exprs[e], " ");
                                let got = if matches!(steps[*i], Step::Eval(_)) {
                                    // SAFETY: the evaluator is not moved nor mutated while the result (an owned
                                    // value) is computed; `eval` only asks for a longer borrow than it uses.
                                    let ev: &'static Evaluator<'static, Sym> = unsafe { &*(&ev as *const _) };
                                    ev.eval(&s).ok().map(|v| v.0)
                                } else {
                                    tokenizer
                                        .tokenize(ev.context(), &s)
                                        .and_then(|t| ev.eval_tokens(&t))
                                        .ok()
                                        .map(|v| v.0)
                                };
                                if got != want {
                                    return Err(format!("{:?} `{}`: got {:?}, expected {:?}", steps[*i], s, got, want));
                                }
                            }
                            Step::Tokenize(e) => {
                                let _ = tokenizer.tokenize(ev.context(), &join(&exprs[e], " "));
                            }
                            Step::Set(v, k) => {
                                let val = hstr(20 + k, v);
                                let old = ev.mut_context().set_variable(v, Sym(val)).map_err(|e| e.to_string())?;
                                if old.map(|o| o.0) != m.vars.insert(v, val) {
                                    return Err(format!("set_variable({}) returned the wrong previous value", v));
                                }
                            }
                            Step::AddFun => {
                                let r = ev.mut_context().add_function(SymFun("h"));
                                if r.is_ok() == m.fun {
                                    return Err("add_function(h): wrong outcome".into());
                                }
                                m.fun = true;
                            }
                        }
                    }
                    Ok(())
                });
                w.end();
                match res {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => w.violation(text, e),
                    Err(p) => w.violation(text, format!("panic: {}", p)),
                }
            });
        },
    );
    super::real::histories(run);
    super::many::c12(run);
}

/// Evaluates RPN tokens.
pub fn rpn(tokens: &[Token<Sym>]) -> Result<u64, String> {
    let mut st: Vec<u64> = Vec::new();
    let mut argc: Option<usize> = None;
    for t in tokens {
        match t {
            Token::Number(n) => st.push(n.0),
            Token::Variable(v) => st.push(Hash.var(v)),
            Token::Constant(c) => st.push(Hash.con(c)),
            Token::UnaryOperator(o) => {
                let a = st.pop().ok_or("stack underflow")?;
                st.push(Hash.un(&o.to_lowercase(), a));
            }
            Token::BinaryOperator(o) => {
                let b = st.pop().ok_or("stack underflow")?;
                let a = st.pop().ok_or("stack underflow")?;
                st.push(Hash.bin(&o.to_lowercase(), a, b));
            }
            Token::ArgCount(n) => argc = Some(*n),
            Token::Function(f) => {
                let n = argc.take().ok_or("function without argument count")?;
                if st.len() < n {
                    return Err("stack underflow".into());
                }
                let args = st.split_off(st.len() - n);
                st.push(Hash.call(&f.to_lowercase(), &args));
            }
            t => return Err(format!("token {:?} in the output", t)),
        }
    }
    if st.len() == 1 {
        Ok(st[0])
    } else {
        Err(format!("{} values left", st.len()))
    }
}

pub type St = (&'static Real, Tokenizer<'static, Sym>, DefaultContext<'static, Sym>);

/// The text, its tokens and their reverse polish notation have the same value.
pub fn agree(w: &mut Worker, st: &St, lang: &Lang, toks: &[Lex]) {
    let text = join(toks, " ");
    w.begin(&text);
    let r = guard(|| -> Result<(), String> {
        let whole = st.0.ev.eval(&text).ok().map(|v| v.0);
        let ref_v = ref_hash(lang, toks);
        let tk = match st.1.tokenize(&st.2, &text) {
            Ok(t) => t,
            Err(_) => {
                return if whole.is_some() { Err("eval succeeds but tokenize fails".into()) } else { Ok(()) };
            }
        };
        let again = st.1.tokenize(&st.2, &text).map_err(|e| e.to_string())?;
        if again != tk {
            return Err("tokenize is not deterministic".into());
        }
        let by_tokens = st.0.ev.eval_tokens(&tk).ok().map(|v| v.0);
        if by_tokens != whole {
            return Err(format!("eval_tokens gives {:?} and eval {:?}", by_tokens, whole));
        }
        let out = infix_to_rpn(&tk, &st.2);
        match (out, ref_v) {
            (Err(_), None) => Ok(()),
            (Err(e), Some(_)) => Err(format!("infix_to_rpn rejects a valid expression: {}", e)),
            (Ok(o), None) => Err(format!("infix_to_rpn accepts a malformed expression: {:?}", o)),
            (Ok(o), Some(v)) => {
                let got = rpn(&o).map_err(|e| format!("invalid RPN {:?}: {}", o, e))?;
                if got != v {
                    return Err(format!("RPN {:?} is another expression, must be {}", o, ref_show(lang, toks)));
                }
                // every operand and operator of the input is in the output exactly once
                let count = |ts: &[Token<Sym>]| {
                    ts.iter()
                        .filter(|t| {
                            !(t.is_comma() || t.is_grouping_open() || t.is_grouping_close() || t.is_arg_count())
                        })
                        .count()
                };
                if !lang.implicit && count(&o) != count(&tk) {
                    return Err(format!("RPN {:?} lost or duplicated tokens of {:?}", o, tk));
                }
                Ok(())
            }
        }
    });
    w.end();
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => w.violation(format!("{}{}", if lang.implicit { "implicit_mul: " } else { "" }, text), e),
        Err(p) => w.violation(text.clone(), format!("panic: {}", p)),
    }
}

pub fn c27(run: &Run) {
    let al = alphabet();
    let n = run.pick(5, 6);
    run.bound("alphabet", al.iter().map(|l| l.s).collect::<Vec<_>>());
    run.bound("max lexemes of arbitrary sequences", n as u64);
    let len = run.pick(9, 10);
    run.bound("max lexemes of well formed expressions", len as u64);

    for implicit in [false, true] {
        let mut lang = Lang::standard();
        lang.implicit = implicit;
        let items = raw_prefixes(al.len(), 2);
        let init = || -> St { (Real::new(&lang), Tokenizer::new(), lang.context()) };
        run.par(&items, init, |w, st, it| {
            raw_dfs(w, al.len(), it, n, &mut |w, ix| agree(w, st, &lang, &lexemes(&al, ix)));
        });
        let mut g = Gen::of(&lang, len);
        g.binary = vec!["+", "^"];
        g.prefix = vec!["-"];
        g.groups = vec!["("];
        g.operands = vec![lx(K::Var, "x")];
        let items = g.split(3);
        run.par(&items, init, |w, st, it| {
            g.dfs(w, it, &mut |w, toks| agree(w, st, &lang, toks));
        });
    }
    super::real::texts(run);
    super::long::c27(run);
}
