//! Splitters built from any sequence of rules.
use crate::fw::*;
use prexel::context::{Config, Context, DefaultContext};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::rules::{Outcome, SplitRule};
use prexel::utils::splitter::{rules, DefaultSplitter, DefaultSplitterBuilder, SplitWhitespaceOption, Splitter};
use std::iter::Peekable;
use std::str::Chars;

/// The rules, provided and user defined.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum R {
    Num,
    Ident,
    Op,
    /// The default operators and `_`
    WithOps,
    /// Without `+`, with `é`
    Other,
    /// Only `.`
    OnlyDot,
    Bin,
    Ws,
    /// `0x` and hexadecimal digits
    Hex,
    /// From a quote to the next one, or to the end
    Quote,
    /// From `#` to the end
    Comment,
    /// A whitespace is a lexeme `ws`
    Space,
    /// Any digit is the lexeme `d`
    Digit,
    /// Letters are dropped
    NoLetters,
}

const ALL: [R; 14] =
    [R::Num, R::Ident, R::Op, R::WithOps, R::Other, R::OnlyDot, R::Bin, R::Ws, R::Hex, R::Quote, R::Comment, R::Space, R::Digit, R::NoLetters];

struct User(R);

impl SplitRule for User {
    fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
        match self.0 {
            R::Hex => {
                let mut look = rest.clone();
                if c == '0' && look.next() == Some('x') && look.next().map_or(false, |c| c.is_ascii_hexdigit()) {
                    let mut s = String::from("0");
                    s.extend(rest.next());
                    while let Some(c) = rest.next_if(|c| c.is_ascii_hexdigit()) {
                        s.push(c);
                    }
                    return Outcome::Data(s);
                }
                Outcome::Continue
            }
            R::Quote if c == '"' => {
                let mut s = String::from("\"");
                for c in rest {
                    s.push(c);
                    if c == '"' {
                        break;
                    }
                }
                Outcome::Data(s)
            }
            R::Comment if c == '#' => {
                rest.for_each(drop);
                Outcome::Skip
            }
            R::Space if c.is_whitespace() => Outcome::Data("ws".into()),
            R::Digit if c.is_ascii_digit() => Outcome::Data("d".into()),
            R::NoLetters if c.is_ascii_alphabetic() => Outcome::Skip,
            _ => Outcome::Continue,
        }
    }
}

fn real(r: R) -> Box<dyn SplitRule> {
    match r {
        R::Num => Box::new(rules::SplitNumeric),
        R::Ident => Box::new(rules::SplitIdentifier),
        R::Op => Box::new(rules::SplitOperator),
        R::WithOps => Box::new(rules::SplitWithOperators::new()),
        R::Other => {
            let mut b = rules::SplitWithOperators::builder().except('+');
            b.add_operator('é');
            Box::new(b.build())
        }
        R::OnlyDot => {
            let mut b = rules::SplitWithOperatorsBuilder::empty();
            b.add_operator('.');
            Box::new(b.build())
        }
        R::Bin => Box::new(rules::SplitBinary),
        R::Ws => Box::new(rules::SkipWhitespace),
        r => Box::new(User(r)),
    }
}

/// So that the boxed rules can be given to the builder.
struct Boxed(Box<dyn SplitRule>);
impl SplitRule for Boxed {
    fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
        self.0.split(c, rest)
    }
}

const OPS: &str = "~`!@#$%^&*-+:;\"'|\\?.<>/=,";

/// Reference: what the rule does at position `i`: the lexeme (or none if it is skipped) and the next position.
fn model(r: R, s: &[char], i: usize) -> Option<(Option<String>, usize)> {
    let c = s[i];
    let run = |f: &dyn Fn(char) -> bool, mut j: usize| {
        while j < s.len() && f(s[j]) {
            j += 1;
        }
        Some((Some(s[i..j].iter().collect::<String>()), j))
    };
    let ops = |extra: &str, without: &str| {
        let f = |c: char| (OPS.contains(c) || extra.contains(c)) && !without.contains(c);
        if f(c) {
            run(&f, i + 1)
        } else {
            None
        }
    };
    match r {
        R::Num if c.is_ascii_digit() => {
            let mut j = i + 1;
            let mut dot = false;
            while j < s.len() && (s[j].is_ascii_digit() || s[j] == '.' && !dot) {
                dot |= s[j] == '.';
                j += 1;
            }
            Some((Some(s[i..j].iter().collect()), j))
        }
        R::Ident if c.is_ascii_alphabetic() || c == '_' => run(&|c| c.is_ascii_alphanumeric() || c == '_', i + 1),
        R::Op => ops("", ""),
        R::WithOps => ops("_", ""),
        R::Other => ops("_é", "+"),
        R::OnlyDot if c == '.' => run(&|c| c == '.', i + 1),
        R::Bin if c == 'b' && i + 1 < s.len() && "01".contains(s[i + 1]) => run(&|c| c.is_ascii_digit(), i + 1),
        R::Ws if c.is_whitespace() => Some((None, i + 1)),
        R::Hex if c == '0' && i + 2 < s.len() && s[i + 1] == 'x' && s[i + 2].is_ascii_hexdigit() => run(&|c| c.is_ascii_hexdigit(), i + 2),
        R::Quote if c == '"' => {
            let mut j = i + 1;
            while j < s.len() && s[j] != '"' {
                j += 1;
            }
            let j = (j + 1).min(s.len());
            Some((Some(s[i..j].iter().collect()), j))
        }
        R::Comment if c == '#' => Some((None, s.len())),
        R::Space if c.is_whitespace() => Some((Some("ws".into()), i + 1)),
        R::Digit if c.is_ascii_digit() => Some((Some("d".into()), i + 1)),
        R::NoLetters if c.is_ascii_alphabetic() => Some((None, i + 1)),
        _ => None,
    }
}

fn expected(rules: &[R], s: &[char]) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        match rules.iter().find_map(|r| model(*r, s, i)) {
            Some((lexeme, j)) => {
                out.extend(lexeme);
                i = j;
            }
            None => {
                out.push(s[i].to_string());
                i += 1;
            }
        }
    }
    out
}

/// The lexemes of one of the provided rules alone.
pub fn provided(k: usize, s: &[char]) -> Vec<String> {
    expected(&[[R::Num, R::Ident, R::Op, R::Bin, R::Ws][k]], s)
}

/// A splitter that gives the lexemes of the reference.
struct Fixed(Vec<String>);
impl Splitter for Fixed {
    fn split_into_tokens(&self, _: &str) -> Vec<String> {
        self.0.clone()
    }
}

/// How the rules are given to the builder.
#[derive(Clone, Copy, Debug)]
enum How {
    /// One after the other
    Push,
    /// Each before the others
    InsertFirst,
    /// The last one is inserted after the first
    InsertSecond,
}

#[derive(Clone, Debug)]
struct Built {
    rules: Vec<R>,
    how: How,
    ws: Option<bool>,
    /// The whitespace option is chosen before the rules
    early: bool,
}

impl Built {
    fn build(&self) -> (DefaultSplitter<'static>, Vec<R>) {
        let opt = |b: bool| if b { SplitWhitespaceOption::Remove } else { SplitWhitespaceOption::None };
        let mut b = if self.early { DefaultSplitter::builder() } else { DefaultSplitterBuilder::new() };
        let mut order: Vec<R> = vec![];
        if self.early {
            if let Some(x) = self.ws {
                b = b.whitespace(opt(x));
            }
        }
        for (i, r) in self.rules.iter().enumerate() {
            match self.how {
                How::InsertFirst => {
                    b = b.insert_rule(0, Boxed(real(*r)));
                    order.insert(0, *r);
                }
                How::InsertSecond if i > 0 && i + 1 == self.rules.len() => {
                    b = b.insert_rule(1, Boxed(real(*r)));
                    order.insert(1, *r);
                }
                _ => {
                    b = b.rule(Boxed(real(*r)));
                    order.push(*r);
                }
            }
        }
        if !self.early {
            if let Some(x) = self.ws {
                b = b.whitespace(opt(x));
            }
        }
        if self.ws == Some(true) {
            order.push(R::Ws);
        }
        (b.build(), order)
    }
}

const CHARS: [char; 14] = ['0', 'x', '.', 'b', '1', '+', ' ', '#', '"', '_', 'é', '\t', '(', 'F'];

pub fn c21(run: &Run) {
    // sequences of rules
    let mut seqs: Vec<Vec<R>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..3 {
        let mut next = vec![];
        for s in &last {
            for r in ALL {
                if !s.contains(&r) {
                    let mut s = s.clone();
                    s.push(r);
                    next.push(s);
                }
            }
        }
        seqs.extend(next.iter().cloned());
        last = next;
    }
    let mut built = vec![];
    for rules in &seqs {
        for ws in [None, Some(false), Some(true)] {
            for how in [How::Push, How::InsertFirst, How::InsertSecond] {
                built.push(Built { rules: rules.clone(), how, ws, early: built.len() % 2 == 0 });
            }
        }
    }
    run.bound("rules", ALL.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>());
    run.bound("splitters", format!("{}: every sequence of up to 3 rules, added or inserted, with each whitespace option", built.len()));
    run.bound("characters", CHARS.iter().map(|c| c.to_string()).collect::<Vec<_>>());
    let (short, long) = (run.pick(3, 4), run.pick(4, 5));
    run.bound("max characters, with 3 rules", short as u64);
    run.bound("max characters, with up to 2 rules and for the provided splitters", long as u64);
    let texts = |n: usize| -> Vec<Vec<char>> {
        let mut all: Vec<Vec<char>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..n {
            last = last.iter().flat_map(|s| CHARS.iter().map(move |c| s.iter().copied().chain([*c]).collect::<Vec<char>>())).collect();
            all.extend(last.iter().cloned());
        }
        all
    };
    let (ts, tl) = (texts(short), texts(long));
    run.par(&built, || (), |w, _, b| {
        let (sp, order) = b.build();
        let name = format!("{:?}", b);
        w.begin(&name);
        let all = if b.rules.len() < 3 { &tl } else { &ts };
        check(w, &name, &sp, &order, all);
        w.end();
    });
    // the provided ones, and through the tokenizer
    type Make = fn() -> DefaultSplitter<'static>;
    let d = [R::Num, R::Ident, R::Op];
    let provided: Vec<(&str, Make, Vec<R>)> = vec![
        ("new(None)", || DefaultSplitter::new(SplitWhitespaceOption::None), d.to_vec()),
        ("new(Remove)", || DefaultSplitter::new(SplitWhitespaceOption::Remove), [&d[..], &[R::Ws]].concat()),
        ("default", DefaultSplitter::default, [&d[..], &[R::Ws]].concat()),
        ("with_numeric_rule(Hex)", || DefaultSplitter::with_numeric_rule(User(R::Hex)), vec![R::Hex, R::Ident, R::Op, R::Ws]),
        ("with_numeric_rule(Digit)", || DefaultSplitter::with_numeric_rule(User(R::Digit)), vec![R::Digit, R::Ident, R::Op, R::Ws]),
        ("with_numeric_rule(SplitBinary)", || DefaultSplitter::with_numeric_rule(rules::SplitBinary), vec![R::Bin, R::Ident, R::Op, R::Ws]),
        ("with_identifier_rule(Quote)", || DefaultSplitter::with_identifier_rule(User(R::Quote)), vec![R::Num, R::Quote, R::Ident, R::Op, R::Ws]),
        ("with_identifier_rule(NoLetters)", || DefaultSplitter::with_identifier_rule(User(R::NoLetters)), vec![R::Num, R::NoLetters, R::Ident, R::Op, R::Ws]),
        ("with_identifier_rule(Space)", || DefaultSplitter::with_identifier_rule(User(R::Space)), vec![R::Num, R::Space, R::Ident, R::Op, R::Ws]),
        ("binary_number_splitter", prexel::binary::binary_number_splitter, vec![R::Bin, R::Num, R::Ident, R::Op, R::Ws]),
    ];
    run.bound("provided splitters", provided.iter().map(|p| p.0).collect::<Vec<_>>());
    let items: Vec<(usize, usize)> = (0..provided.len()).flat_map(|p| (0..CHARS.len()).map(move |c| (p, c))).collect();
    run.par(&items, || (), |w, _, (p, first)| {
        let (name, make, order) = &provided[*p];
        let sp = make();
        w.begin(name);
        let own: Vec<Vec<char>> = tl.iter().filter(|t| t.first() == Some(&CHARS[*first])).cloned().collect();
        check(w, name, &sp, order, &own);
        w.end();
    });
    // the tokenizer uses the lexemes of the splitter
    run.par(&items, || context(), |w, ctx, (p, first)| {
        let (name, make, order) = &provided[*p];
        let tk = Tokenizer::<'static, f64, DefaultContext<'static, f64>, _>::with_splitter(make());
        for t in ts.iter().filter(|t| t.first() == Some(&CHARS[*first])) {
            let s: String = t.iter().collect();
            if s.trim().is_empty() {
                continue;
            }
            w.states += 1;
            w.traces += 1;
            w.begin(&s);
            let lexemes = expected(order, t);
            let want = Tokenizer::<'static, f64, DefaultContext<'static, f64>, _>::with_splitter(Fixed(lexemes.clone()));
            let a: Result<Option<Vec<Token<f64>>>, String> = guard(|| tk.tokenize(ctx, &s).ok());
            let b = guard(|| want.tokenize(ctx, &s).ok());
            if a != b {
                w.violation(format!("[{}, tokenizer] {:?}", name, s), format!("{:?} instead of {:?}", a, b));
            }
            if let Ok(Some(got)) = &a {
                let want: Vec<String> = lexemes.iter().flat_map(|l| shown(l)).collect();
                let got: Vec<String> = got.iter().map(token).collect();
                if got != want {
                    w.violation(format!("[{}, tokens] {:?}", name, s), format!("{:?} instead of {:?}", got, want));
                }
            }
            w.end();
        }
    });
    super::many::c21(run);
}

/// What the tokens of a lexeme are, in `context()`.
fn shown(l: &str) -> Vec<String> {
    let one = |k: &str, n: &str| vec![format!("{} {}", k, n)];
    if l == " " {
        vec![]
    } else if l.chars().all(|c| c.is_ascii_digit() || c == '.') && l.contains(|c: char| c.is_ascii_digit()) {
        one("number", &l.parse::<f64>().unwrap().to_string())
    } else if VARS.contains(&l) {
        one("variable", l)
    } else if l.chars().all(|c| c == '+') {
        l.chars().map(|_| "operator +".to_string()).collect()
    } else if l == "(" {
        one("open", l)
    } else {
        one("unknown", l)
    }
}

fn token(t: &Token<f64>) -> String {
    match t {
        Token::Number(n) => format!("number {}", n),
        Token::Variable(n) => format!("variable {}", n),
        Token::UnaryOperator(n) | Token::BinaryOperator(n) => format!("operator {}", n),
        Token::GroupingOpen(c) => format!("open {}", c),
        Token::Unknown(n) => format!("unknown {}", n),
        t => format!("{:?}", t),
    }
}

const VARS: [&str; 6] = ["x", "b", "_", "F", "b1", "ws"];

fn context() -> DefaultContext<'static, f64> {
    let mut c = DefaultContext::with_config_checked(Config::new());
    for n in VARS {
        c.set_variable(n, 2.0).unwrap();
    }
    c
}

fn check(w: &mut Worker, name: &str, sp: &DefaultSplitter<'static>, order: &[R], texts: &[Vec<char>]) {
    for t in texts {
        let s: String = t.iter().collect();
        w.states += 1;
        w.transitions += 1;
        w.traces += 1;
        let got = guard(|| sp.split_into_tokens(&s));
        let want = expected(order, t);
        match got {
            Ok(g) if g == want => {}
            Ok(g) => w.violation(format!("[{}] {:?}", name, s), format!("split in {:?}, must be {:?}", g, want)),
            Err(p) => w.violation(format!("[{}] {:?}", name, s), format!("panic: {}", p)),
        }
    }
}
