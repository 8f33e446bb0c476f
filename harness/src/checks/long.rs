//! Long and deep inputs: families of expressions built by repeating a pattern, for every pattern
//! up to a size and every count of a list that covers the small ones and the powers of two.
use super::names::ref_split;
use super::parse::{agree, check_expr, eval, must_separate, Real, St};
use crate::fw::*;
use crate::sym::*;
use prexel::context::{Context, DefaultContext};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::{DefaultSplitter, Splitter};
use std::sync::OnceLock;

/// Position distinct numbers.
pub fn num(i: usize) -> &'static str {
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| (1..=20_000).map(|i: u32| &*Box::leak(i.to_string().into_boxed_str())).collect())[i]
}

pub fn renumber(t: &mut [Lex]) {
    for (i, l) in t.iter_mut().enumerate() {
        if l.k == K::Num {
            l.s = num(i);
        }
    }
}

pub fn counts(run: &Run, small: usize, max: usize) -> Vec<usize> {
    let small = if run.tier == Tier::Thorough { small * 4 } else { small };
    let mut v: Vec<usize> = (1..=small).collect();
    for k in 5..=13 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([100, 300, 1000]);
    v.sort();
    v.dedup();
    v.retain(|n| *n <= max);
    v
}

/// Sequences of 1..=len symbols.
pub fn cycles(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = Vec::new();
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        level = level
            .iter()
            .flat_map(|p| {
                (0..n).map(move |i| {
                    let mut q = p.clone();
                    q.push(i);
                    q
                })
            })
            .collect();
        out.extend(level.iter().cloned());
    }
    out
}

pub fn lexemes(s: &str) -> Vec<Lex> {
    s.split_whitespace()
        .map(|p| {
            let s: &'static str = Box::leak(p.to_string().into_boxed_str());
            let k = match s {
                "(" | "[" | "{" => K::Open,
                ")" | "]" | "}" => K::Close,
                "," => K::Comma,
                "x" | "y" => K::Var,
                "K" => K::Con,
                "f" | "g" => K::Fun,
                _ if s.as_bytes()[0].is_ascii_digit() => K::Num,
                _ => K::Op,
            };
            lx(k, s)
        })
        .collect()
}

/// What surrounds an expression at each level.
const UNITS: [(&str, &str); 18] = [
    ("(", ")"),
    ("[", "]"),
    ("{", "}"),
    ("f (", ")"),
    ("f ( 1 ,", ")"),
    ("g (", ", 1 )"),
    ("1 + (", ")"),
    ("1 ^ (", ")"),
    ("(", ") - 1"),
    ("(", ") !"),
    ("- (", ")"),
    ("-", ""),
    ("1 ^", ""),
    ("1 -", ""),
    ("1 * -", ""),
    ("", "!"),
    ("", "* 1"),
    ("", "^ 1"),
];

pub fn nest(units: &[(Vec<Lex>, Vec<Lex>)], cycle: &[usize], n: usize) -> Vec<Lex> {
    let mut t = Vec::new();
    for i in 0..n {
        t.extend_from_slice(&units[cycle[i % cycle.len()]].0);
    }
    t.push(lx(K::Num, "1"));
    for i in (0..n).rev() {
        t.extend_from_slice(&units[cycle[i % cycle.len()]].1);
    }
    renumber(&mut t);
    t
}

pub fn units() -> Vec<(Vec<Lex>, Vec<Lex>)> {
    UNITS.iter().map(|(a, b)| (lexemes(a), lexemes(b))).collect()
}

pub fn chain(ops: &[&'static str], operand: &[Lex], every: usize, n: usize) -> Vec<Lex> {
    let mut t = Vec::new();
    for i in 0..=n {
        if i > 0 {
            t.push(lx(K::Op, ops[(i - 1) % ops.len()]));
        }
        if i % every == every - 1 {
            t.extend_from_slice(operand);
        } else {
            t.push(lx(K::Num, "1"));
        }
    }
    renumber(&mut t);
    t
}

fn compact(toks: &[Lex]) -> String {
    let mut s = String::from(toks[0].s);
    for p in toks.windows(2) {
        if must_separate(&p[0], &p[1]) {
            s.push(' ');
        }
        s.push_str(p[1].s);
    }
    s
}

pub fn c01(run: &Run) {
    let ops = ["+", "-", "*", "/", "mod", "^"];
    let cy = cycles(ops.len(), run.pick(3, 4));
    let ns = counts(run, 40, 1100);
    run.bound("long chains: every cycle of binary operators up to length", run.pick(3u64, 4));
    run.bound("long chains and deep nests: repetitions", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    let operands: Vec<(Vec<Lex>, usize)> = [("1", 1), ("- 1", 2), ("1 !", 3), ("f ( 1 , x )", 2), ("( 1 - 1 )", 3), ("K", 1)]
        .iter()
        .map(|(s, e)| (lexemes(s), *e))
        .collect();
    let lang = Lang::standard();
    run.par(
        &cy,
        || Real::new(&lang),
        |w, r, c| {
            let ops: Vec<&'static str> = c.iter().map(|i| ops[*i]).collect();
            for (o, e) in operands.iter() {
                for n in &ns {
                    let t = chain(&ops, o, *e, *n);
                    w.states += 1;
                    w.transitions += 1;
                    check_expr(w, r, &lang, &t, &join(&t, " "), "");
                }
            }
        },
    );
    let u = units();
    let cy = cycles(u.len(), run.pick(2, 3));
    run.bound("deep nests: what surrounds the expression at each level", UNITS.map(|(a, b)| format!("{} _ {}", a, b)).to_vec());
    run.bound("deep nests: every cycle of those up to length", run.pick(2u64, 3));
    let ns = if run.tier == Tier::Thorough { counts(run, 6, 600) } else { ns };
    run.par(
        &cy,
        || Real::new(&lang),
        |w, r, c| {
            for n in &ns {
                let t = nest(&u, c, *n);
                w.states += 1;
                w.transitions += 1;
                check_expr(w, r, &lang, &t, &join(&t, " "), "");
            }
        },
    );
}

pub fn c02(run: &Run) {
    let al: Vec<Lex> = ["(", ")", "[", "]", "}", ",", "-", "!", "*", "1", "x", "f"].iter().flat_map(|s| lexemes(s)).collect();
    let u = units();
    let cy = cycles(u.len(), 2);
    let ns = if run.tier == Tier::Thorough { vec![5, 9, 14, 20, 33] } else { vec![7] };
    let deep = [130usize, 260, 1030];
    run.bound(
        "one lexeme removed, replaced or inserted, at each position of the nests of levels",
        ns.iter().map(|n| *n as u64).collect::<Vec<_>>(),
    );
    run.bound("the same at the ends and the middle of the nests of levels", deep.map(|n| n as u64).to_vec());
    for implicit in [false, true] {
        let mut lang = Lang::standard();
        lang.implicit = implicit;
        let tag = if implicit { "implicit_mul: " } else { "" };
        run.par(
            &cy,
            || Real::new(&lang),
            |w, r, c| {
                for n in ns.iter().chain(&deep) {
                    let t = nest(&u, c, *n);
                    let at: Vec<usize> = if *n < 100 {
                        (0..=t.len()).collect()
                    } else {
                        let m = t.iter().position(|l| l.k == K::Num && t.len() > 2).unwrap_or(0);
                        let mut v = vec![0, 1, m, t.len() / 2, t.len() / 2 + 1, t.len() - 1, t.len()];
                        v.dedup();
                        v
                    };
                    let als: &[Lex] = if *n < 100 { &al } else { &al[..2] };
                    for p in at {
                        let try_one = |w: &mut Worker, mut e: Vec<Lex>| {
                            renumber(&mut e);
                            w.states += 1;
                            w.transitions += 1;
                            let text = join(&e, " ");
                            check_expr(w, r, &lang, &e, &text, tag);
                        };
                        if p < t.len() {
                            let mut e = t.clone();
                            e.remove(p);
                            if !e.is_empty() {
                                try_one(w, e);
                            }
                        }
                        for a in als {
                            let mut e = t.clone();
                            e.insert(p, *a);
                            try_one(w, e);
                            if p < t.len() {
                                let mut e = t.clone();
                                e[p] = *a;
                                try_one(w, e);
                            }
                        }
                    }
                }
            },
        );
    }
}

pub fn c05(run: &Run) {
    let lang = Lang::standard();
    let u = units();
    let cy = cycles(u.len(), 2);
    let ns = counts(run, 40, 1100);
    run.bound("written without separators, and with long ones: deep nests of levels", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    run.par(
        &cy,
        || Real::new(&lang),
        |w, r, c| {
            for n in &ns {
                let t = nest(&u, c, *n);
                w.states += 1;
                w.transitions += 2;
                check_expr(w, r, &lang, &t, &compact(&t), "");
                if *n < 10 || *n % 64 == 1 {
                    let mut s = String::new();
                    for (i, l) in t.iter().enumerate() {
                        s.extend(std::iter::repeat([' ', '\t', '\n'][i % 3]).take(i % 70));
                        s.push(' ');
                        s.push_str(l.s);
                    }
                    s.extend(std::iter::repeat(' ').take(*n * 10));
                    check_expr(w, r, &lang, &t, &s, "");
                }
            }
        },
    );
    // one separator of any length
    let toks = lexemes("1 + 2 * f ( 3 , - x ) !");
    let lens: Vec<usize> = counts(run, 40, 9000).into_iter().chain([65_535, 65_536, 65_537, 1 << 20]).collect();
    run.bound("max length of one separator", 1u64 << 20);
    run.par(
        &lens,
        || Real::new(&lang),
        |w, r, n| {
            for c in [' ', '\t', '\n', '\u{2003}'] {
                for gap in 0..=toks.len() {
                    let mut s = String::new();
                    for i in 0..=toks.len() {
                        if i == gap {
                            s.extend(std::iter::repeat(c).take(*n));
                        }
                        if i < toks.len() {
                            s.push_str(toks[i].s);
                        }
                    }
                    w.states += 1;
                    w.transitions += 1;
                    let want = ref_hash(&lang, &toks);
                    w.begin("long separator");
                    let got = eval(r, &s);
                    w.end();
                    if got != Ok(want) {
                        w.violation(
                            format!("{} with {} times {:?} before the lexeme {}", join(&toks, " "), n, c, gap),
                            format!("must be {} but got {:?}", ref_show(&lang, &toks), got),
                        );
                    }
                }
            }
        },
    );
}

pub fn c09(run: &Run) {
    let mut lang = Lang::standard();
    lang.implicit = true;
    let atoms: Vec<Vec<Lex>> =
        ["1", "K", "x", "( 1 )", "[ 1 - 1 ]", "f ( 1 )", "1 ^ 1", "( - 1 ) !", "* 1"].iter().map(|s| lexemes(s)).collect();
    let cy = cycles(atoms.len(), run.pick(3, 4));
    let ns = if run.tier == Tier::Thorough { counts(run, 8, 600) } else { counts(run, 20, 520) };
    run.bound("long products: every cycle of these terms up to length 3 (4)", atoms.iter().map(|a| join(a, " ")).collect::<Vec<_>>());
    run.bound("long products: terms", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    run.par(
        &cy,
        || Real::new(&lang),
        |w, r, c| {
            for n in &ns {
                let mut t = Vec::new();
                for i in 0..*n {
                    t.extend_from_slice(&atoms[c[i % c.len()]]);
                }
                renumber(&mut t);
                w.states += 1;
                w.transitions += 1;
                check_expr(w, r, &lang, &t, &join(&t, " "), "");
            }
        },
    );
}

pub fn c11(run: &Run) {
    // many operators, each with its own precedence
    let ns: Vec<usize> = if run.tier == Tier::Thorough {
        (2..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect()
    } else {
        vec![2, 3, 4, 5, 7, 11, 16, 17, 31, 33, 64, 129, 257]
    };
    run.bound("contexts with many operators, each one of its own precedence: operators", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    run.bound(
        "many operators: orders in the expression",
        "ascending, descending, both ends alternated and i*k modulo the count for every k up to 40; forwards and backwards, once and twice",
    );
    let cases: Vec<(usize, usize, usize)> =
        ns.iter().flat_map(|n| (0..4).flat_map(move |b| (0..4).map(move |a| (*n, b, a)))).collect();
    run.par(
        &cases,
        || (),
        |w, _, (n, base, assoc)| {
            let n = *n;
            let ops: Vec<OpSpec> = (0..n)
                .map(|i| OpSpec {
                    name: Box::leak(format!("o{}", i).into_boxed_str()),
                    bin: Some((
                        match base {
                            0 => i as u32,
                            1 => u32::MAX - i as u32,
                            2 => (i as u32) * 7919 + (1 << 20),
                            // around the sign bit, and around powers of two
                            _ => (1u32 << 31) - (n as u32 / 2) + i as u32,
                        },
                        match assoc {
                            0 => L,
                            1 => R,
                            2 => [L, R][i % 2],
                            _ => [R, L, L][i % 3],
                        },
                    )),
                    un: None,
                })
                .collect();
            let lang = Lang { ops, vars: vec![], cons: vec![], funs: vec![], implicit: false, custom_call: false };
            let r = Real::new(&lang);
            let mut orders: Vec<Vec<usize>> = (1..=n.min(40)).map(|k| (0..n).map(|i| i * k % n).collect()).collect();
            orders.push((0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect());
            for o in orders {
                let back: Vec<usize> = o.iter().rev().copied().collect();
                for o in [&o, &back] {
                    for times in [1, 2] {
                        let names: Vec<&'static str> = o.iter().map(|i| lang.ops[*i].name).collect();
                        let t = chain(&names, &[lx(K::Num, "1")], 1, n * times);
                        w.states += 1;
                        w.transitions += 1;
                        check_expr(w, r, &lang, &t, &join(&t, " "), &format!("[precedences {}, {}] ", base, assoc));
                    }
                }
            }
        },
    );
}

pub fn c06(run: &Run) {
    // a lexeme of any length, between others
    let classes: Vec<Box<dyn Fn(usize) -> String + Sync + Send>> = vec![
        Box::new(|n| "7".repeat(n)),
        Box::new(|n| "0".repeat(n)),
        Box::new(|n| format!("1.{}", "3".repeat(n))),
        Box::new(|n| format!("{}.5", "3".repeat(n))),
        Box::new(|n| format!("{}.", "3".repeat(n))),
        Box::new(|n| "1.".repeat(n)),
        Box::new(|n| ".".repeat(n)),
        Box::new(|n| "a".repeat(n)),
        Box::new(|n| "Z9".repeat(n)),
        Box::new(|n| "_".repeat(n)),
        Box::new(|n| format!("a{}", "0_".repeat(n))),
        Box::new(|n| "+".repeat(n)),
        Box::new(|n| "<>=".repeat(n)),
        Box::new(|n| "(".repeat(n)),
        Box::new(|n| "[]".repeat(n)),
        Box::new(|n| ",".repeat(n)),
        Box::new(|n| " ".repeat(n)),
        Box::new(|n| "\t\n".repeat(n)),
        Box::new(|n| "1+".repeat(n)),
        Box::new(|n| "1 a ".repeat(n)),
        Box::new(|n| "é".repeat(n)),
        Box::new(|n| "é1".repeat(n)),
    ];
    let ends = ["", "1", "a", "+", " ", "(", ".", "_", ",", "é"];
    let mut ns = counts(run, 100, 9000);
    ns.extend([65_535, 65_537]);
    run.bound("long lexemes: classes, each repeated and between each pair of ends", classes.iter().map(|c| c(2)).collect::<Vec<_>>());
    run.bound("long lexemes: ends", ends.map(String::from).to_vec());
    run.bound("long lexemes: repetitions", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    let items: Vec<(usize, usize)> = (0..classes.len()).flat_map(|c| ns.iter().map(move |n| (c, *n))).collect();
    run.par(
        &items,
        DefaultSplitter::default,
        |w, sp, (c, n)| {
            let body = classes[*c](*n);
            for (i, a) in ends.iter().enumerate() {
                for (j, b) in ends.iter().enumerate() {
                    if *n > 300 && i != j && i > 1 && j > 1 {
                        continue;
                    }
                    let s = format!("{}{}{}", a, body, b);
                    let chars: Vec<char> = s.chars().collect();
                    w.states += 1;
                    w.transitions += 1;
                    w.begin(if s.len() < 100 { &s } else { "long lexeme" });
                    let got = guard(|| sp.split_into_tokens(&s));
                    w.end();
                    let want = ref_split(&chars, super::names::OPERATORS, false, true);
                    if got.as_ref() != Ok(&want) {
                        let part = |v: &Vec<String>| format!("{} tokens", v.len());
                        w.violation(
                            if *n < 100 { format!("{:?}", s) } else { format!("{:?}, {} times {:?}, {:?}", a, n, classes[*c](1), b) },
                            format!("split in {}, must be {}", got.as_ref().map_or_else(|p| p.clone(), part), part(&want)),
                        );
                    }
                }
            }
        },
    );
    // runs of operators of any length in a context where they decompose, and where they do not
    let sets: [&[&str]; 5] = [&["-", "*"], &["-", "--", "*"], &["-", "*-*", "*"], &["--", "*"], &["-", "----------------", "*"]];
    let pats = ["-", "*", "*-", "--*", "-*-", "*-*-"];
    let mut ns = counts(run, 64, 9000);
    ns.push(65_537);
    run.bound("long runs of operators: operator sets", sets.map(|s| s.join(" ")).to_vec());
    run.bound("long runs of operators: patterns repeated", pats.map(String::from).to_vec());
    let items: Vec<(usize, usize)> = (0..sets.len()).flat_map(|s| ns.iter().map(move |n| (s, *n))).collect();
    run.par(
        &items,
        || (),
        |w, _, (set, n)| {
            let set = sets[*set];
            let mut ctx: DefaultContext<'static, Sym> = DefaultContext::new();
            for o in set {
                ctx.add_binary_function(SymBin(o, 1, L)).unwrap();
            }
            let tk = Tokenizer::<'static, Sym>::new();
            for p in pats {
                let r = p.repeat(*n);
                let mut parts: Vec<&str> = Vec::new();
                let mut rest: &str = &r;
                while !rest.is_empty() {
                    match (1..=rest.len().min(16)).rev().find(|n| set.contains(&&rest[..*n])) {
                        Some(n) => {
                            parts.push(&rest[..n]);
                            rest = &rest[n..];
                        }
                        None => {
                            parts = vec![&r];
                            break;
                        }
                    }
                }
                let text = format!("1{}2", r);
                w.states += 1;
                w.transitions += 1;
                w.begin(if text.len() < 100 { &text } else { "long run of operators" });
                let got = guard(|| tk.tokenize(&ctx, &text));
                w.end();
                let bad = match &got {
                    Err(p) => Some(format!("panic: {}", p)),
                    Ok(Err(e)) => Some(format!("rejected: {:?}", e.kind())),
                    Ok(Ok(t)) => {
                        let mid = &t[1..t.len() - 1];
                        let same = mid.len() == parts.len()
                            && mid.iter().zip(&parts).all(|(t, p)| match t {
                                Token::BinaryOperator(s) | Token::UnaryOperator(s) | Token::Unknown(s) => s == p,
                                _ => false,
                            });
                        if same {
                            None
                        } else {
                            Some(format!("{} tokens", mid.len()))
                        }
                    }
                };
                if let Some(b) = bad {
                    w.violation(
                        format!("1, {} times {:?}, 2 with operators {:?}", n, p, set),
                        format!("must be {} tokens between the numbers, but {}", parts.len(), b),
                    );
                }
            }
        },
    );
    // operators with letters and `_`: a name is one lexeme whatever operators it could be made of
    let set = ["a", "b", "ab", "_", "a1"];
    let len = run.pick(5, 6);
    run.bound("names made of operators a b ab _ a1, max characters", len as u64);
    let al = ['a', 'b', '_', '1'];
    let items = crate::gen::raw_prefixes(al.len(), 1);
    run.par(
        &items,
        || {
            let mut ctx: DefaultContext<'static, Sym> = DefaultContext::new();
            let known: Vec<&str> = set.into_iter().filter(|o| ctx.add_binary_function(SymBin(o, 1, L)).is_ok()).collect();
            (Tokenizer::<'static, Sym>::new(), ctx, known)
        },
        |w, (tk, ctx, known), it| {
            crate::gen::raw_dfs(w, al.len(), it, len, &mut |w, ix| {
                let name: String = ix.iter().map(|i| al[*i]).collect();
                // a run of `_` is made of operators
                if name.starts_with('1') || (name.len() > 1 && name.chars().all(|c| c == '_')) {
                    return;
                }
                let text = format!("1 {} 2", name);
                w.begin(&text);
                let got = guard(|| tk.tokenize(ctx, &text));
                w.end();
                w.transitions += 1;
                let ok = match &got {
                    Ok(Ok(t)) => {
                        t.len() == 3
                            && match &t[1] {
                                Token::BinaryOperator(s) => *s == name && known.contains(&name.as_str()),
                                Token::Unknown(s) => *s == name && !known.contains(&name.as_str()),
                                _ => false,
                            }
                    }
                    _ => false,
                };
                if !ok {
                    w.violation(format!("{:?} with operators {:?}", text, known), format!("the name must be one token, but {:?}", got));
                }
            });
        },
    );
}

pub fn c27(run: &Run) {
    let u = units();
    let cy = cycles(u.len(), 2);
    let ns = if run.tier == Tier::Thorough { counts(run, 8, 600) } else { counts(run, 16, 300) };
    let al: Vec<Lex> = ["(", ")", ",", "-", "*", "1"].iter().flat_map(|s| lexemes(s)).collect();
    run.bound("deep nests of levels, whole and with a lexeme inserted or replaced", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    for implicit in [false, true] {
        let mut lang = Lang::standard();
        lang.implicit = implicit;
        run.par(
            &cy,
            || -> St { (Real::new(&lang), Tokenizer::new(), lang.context()) },
            |w, st, c| {
                for n in &ns {
                    let t = nest(&u, c, *n);
                    let mut tries = vec![t.clone()];
                    for p in [0, t.len() / 3, t.len() / 2, t.len() - 1] {
                        for a in al.iter().take(if *n < 10 { 6 } else { 2 }) {
                            let mut e = t.clone();
                            e.insert(p, *a);
                            tries.push(e);
                            let mut e = t.clone();
                            e[p] = *a;
                            tries.push(e);
                        }
                    }
                    for mut e in tries {
                        renumber(&mut e);
                        w.states += 1;
                        w.transitions += 1;
                        agree(w, st, &lang, &e);
                    }
                }
            },
        );
    }
}
