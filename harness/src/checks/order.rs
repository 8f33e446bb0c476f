//! Which operations an evaluation applies, in which order, and what a failing one does:
//! every expression within the bounds is run once without faults and once for each operation with
//! that operation failing (or panicking), and the operations applied are compared with the reference.
use super::long::{chain, counts, cycles, lexemes as words, nest, units};
use crate::fw::*;
use crate::gen::*;
use crate::sym::*;
use prexel::context::{Config, Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::tokenizer::Tokenizer;
use std::cell::{Cell, RefCell};

thread_local! {
    static LOG: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static FAULT: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
}

pub const KINDS: [ErrorKind; 11] = [
    ErrorKind::Overflow,
    ErrorKind::Zero,
    ErrorKind::NAN,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidArgumentCount,
    ErrorKind::DivisionByZero,
    ErrorKind::NegativeValue,
    ErrorKind::PositiveValue,
    ErrorKind::InvalidExpression,
    ErrorKind::Empty,
    ErrorKind::Unknown,
];
/// The fault which is a panic, and the one which is an error without message.
const PANIC: usize = KINDS.len();
const PLAIN: usize = KINDS.len() + 1;

/// An operation with its operands, known by the value that it gives.
fn apply(v: u64) -> prexel::Result<Sym> {
    let at = LOG.with(|l| {
        l.borrow_mut().push(v);
        l.borrow().len() - 1
    });
    match FAULT.with(|f| f.get()) {
        Some((k, PANIC)) if k == at => panic!("fault {}", k),
        Some((k, PLAIN)) if k == at => Err(Error::from(ErrorKind::Zero)),
        Some((k, kind)) if k == at => Err(Error::new(KINDS[kind], format!("fault {}", k))),
        _ => Ok(Sym(v)),
    }
}

struct Fun(&'static str);
impl Function<Sym> for Fun {
    fn name(&self) -> &str {
        self.0
    }
    fn call(&self, args: &[Sym]) -> prexel::Result<Sym> {
        let a: Vec<u64> = args.iter().map(|s| s.0).collect();
        apply(Hash.call(self.0, &a))
    }
}
struct Bin(&'static str, u32, Associativity);
impl BinaryFunction<Sym> for Bin {
    fn name(&self) -> &str {
        self.0
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.1)
    }
    fn associativity(&self) -> Associativity {
        self.2
    }
    fn call(&self, l: Sym, r: Sym) -> prexel::Result<Sym> {
        apply(Hash.bin(self.0, l.0, r.0))
    }
}
struct Un(&'static str, Notation);
impl UnaryFunction<Sym> for Un {
    fn name(&self) -> &str {
        self.0
    }
    fn notation(&self) -> Notation {
        self.1
    }
    fn call(&self, v: Sym) -> prexel::Result<Sym> {
        apply(Hash.un(self.0, v.0))
    }
}

fn context(lang: &Lang) -> DefaultContext<'static, Sym> {
    let cfg = Config::new().with_implicit_mul(lang.implicit).with_custom_function_call(lang.custom_call);
    let mut c = DefaultContext::with_config(cfg);
    for v in &lang.vars {
        c.set_variable(v, Sym(Hash.var(v))).unwrap();
    }
    for v in &lang.cons {
        c.add_constant(v, Sym(Hash.con(v))).unwrap();
    }
    for f in &lang.funs {
        c.add_function(Fun(f)).unwrap();
    }
    for o in &lang.ops {
        if let Some((p, a)) = o.bin {
            c.add_binary_function(Bin(o.name, p, a)).unwrap();
        }
        if let Some(n) = o.un {
            c.add_unary_function(Un(o.name, n)).unwrap();
        }
    }
    c
}

/// The reference, which notes the operations that it applies.
struct Noting(RefCell<Vec<u64>>);
impl Noting {
    fn note(&self, v: u64) -> u64 {
        self.0.borrow_mut().push(v);
        v
    }
}
impl Algebra for Noting {
    type T = u64;
    fn num(&self, s: &str) -> u64 {
        Hash.num(s)
    }
    fn var(&self, s: &str) -> u64 {
        Hash.var(s)
    }
    fn con(&self, s: &str) -> u64 {
        Hash.con(s)
    }
    fn un(&self, op: &str, a: u64) -> u64 {
        self.note(Hash.un(op, a))
    }
    fn bin(&self, op: &str, a: u64, b: u64) -> u64 {
        self.note(Hash.bin(op, a, b))
    }
    fn call(&self, f: &str, args: &[u64]) -> u64 {
        self.note(Hash.call(f, args))
    }
}

struct Real {
    ev: Evaluator<'static, Sym>,
    tok: Tokenizer<'static, Sym>,
}

fn real(lang: &Lang) -> &'static Real {
    Box::leak(Box::new(Real { ev: Evaluator::with_context(context(lang)), tok: Tokenizer::new() }))
}

type Res = Result<Result<u64, (ErrorKind, String)>, String>;

/// Evaluates with a fault (or none): the result and the operations applied.
fn run_one(r: &'static Real, text: &str, fault: Option<(usize, usize)>, tokens: bool) -> (Res, Vec<u64>) {
    LOG.with(|l| l.borrow_mut().clear());
    FAULT.with(|f| f.set(fault));
    let res = guard(|| {
        let v = if tokens { r.tok.tokenize(r.ev.context(), text).and_then(|t| r.ev.eval_tokens(&t)) } else { r.ev.eval(text) };
        v.map(|v| v.0).map_err(|e| (e.kind(), e.to_string()))
    });
    FAULT.with(|f| f.set(None));
    (res, LOG.with(|l| l.borrow().clone()))
}

fn applied(n: usize) -> String {
    format!("{} operations", n)
}

fn check(w: &mut Worker, r: &'static Real, lang: &Lang, toks: &[Lex], all_kinds: bool) {
    check_at(w, r, lang, toks, all_kinds, &|_, _| true)
}

fn check_at(w: &mut Worker, r: &'static Real, lang: &Lang, toks: &[Lex], all_kinds: bool, at: &dyn Fn(usize, usize) -> bool) {
    let text = join(toks, " ");
    let alg = Noting(RefCell::new(Vec::new()));
    let want = match Parser::parse(lang, toks, &alg) {
        Some(v) => v,
        None => {
            // nothing is applied for a malformed expression
            w.begin(&text);
            let (res, log) = run_one(r, &text, None, false);
            w.end();
            if !matches!(res, Ok(Err(_))) || !log.is_empty() {
                w.violation(text.clone(), format!("malformed: must apply nothing and fail, but {:?} after {}", res, applied(log.len())));
            }
            return;
        }
    };
    let ops = alg.0.into_inner();
    w.begin(&text);
    for tokens in [false, true] {
        w.transitions += 1;
        let (res, log) = run_one(r, &text, None, tokens);
        if res != Ok(Ok(want)) || log != ops {
            w.violation(
                format!("{}{}", text, if tokens { " (tokens)" } else { "" }),
                format!("must be {} with {}, but {:?} with {} (the same ones: {})", ref_show(lang, toks), applied(ops.len()), res, applied(log.len()), log == ops),
            );
        }
    }
    for k in (0..ops.len()).filter(|k| at(*k, ops.len())) {
        let kinds: Vec<usize> = if all_kinds { (0..PLAIN + 1).collect() } else { vec![(k * 5 + ops.len()) % KINDS.len(), PANIC] };
        for kind in kinds {
            w.transitions += 1;
            w.traces += 1;
            let (res, log) = run_one(r, &text, Some((k, kind)), false);
            let ok = match kind {
                PANIC => matches!(&res, Err(m) if m.starts_with(&format!("fault {}", k))),
                PLAIN => res == Ok(Err((ErrorKind::Zero, ErrorKind::Zero.as_str().to_string()))),
                _ => res == Ok(Err((KINDS[kind], format!("fault {}", k)))),
            };
            if !ok || log[..] != ops[..k + 1] {
                let what = match kind {
                    PANIC => "panics".to_string(),
                    PLAIN => "fails".to_string(),
                    _ => format!("fails with {:?}", KINDS[kind]),
                };
                w.violation(
                    format!("{} | operation {} {}", text, k, what),
                    format!("the evaluation must end with that after {}, but {:?} after {}", applied(k + 1), res, applied(log.len())),
                );
            }
        }
    }
    // and nothing remains of the faults
    let (res, log) = run_one(r, &text, None, false);
    w.end();
    if res != Ok(Ok(want)) || log != ops {
        w.violation(format!("{} | after the faults", text), format!("{:?} with {}", res, applied(log.len())));
    }
}

fn run_gen(run: &Run, g: &Gen, split: usize, all_kinds: bool) {
    let items = g.split(split);
    run.par(
        &items,
        || real(&g.lang),
        |w, r, it| {
            let r: &'static Real = r;
            g.dfs(w, it, &mut |w, toks| check(w, r, &g.lang, toks, all_kinds));
        },
    );
}

pub fn c26(run: &Run) {
    run.assume("an operation with its operands is identified by a 64 bit hash of the tree that it completes");
    for implicit in [false, true] {
        let mut lang = Lang::standard();
        lang.implicit = implicit;
        lang.custom_call = implicit;
        // every kind of operation, all the kinds of faults
        let len = run.pick(5, 6);
        let g = Gen::of(&lang, len);
        run.bound(&format!("all operators, every kind of fault at every operation, implicit {}, max lexemes", implicit), len as u64);
        run_gen(run, &g, 2, true);
        // longer, a panic and an error at every operation
        let len = run.pick(8, 9);
        let mut g = Gen::of(&lang, len);
        g.operands = vec![lx(K::Var, "x")];
        g.binary = vec!["+", "*", "^"];
        g.prefix = vec!["-"];
        g.groups = vec!["("];
        run.bound(&format!("one operator of each precedence, a fault and a panic at every operation, implicit {}, max lexemes", implicit), len as u64);
        run_gen(run, &g, 3, false);
        // calls within calls
        let len = run.pick(12, 14);
        let mut g = Gen::of(&lang, len);
        g.operands.clear();
        g.funs = vec!["f", "g"];
        g.binary = vec!["-"];
        g.prefix = vec!["-"];
        g.postfix.clear();
        g.groups.clear();
        g.numbers = true;
        run.bound(&format!("calls, max lexemes, implicit {}", implicit), len as u64);
        run_gen(run, &g, 4, false);
        // malformed
        let al = [
            lx(K::Num, "1"),
            lx(K::Var, "x"),
            lx(K::Op, "-"),
            lx(K::Op, "*"),
            lx(K::Op, "!"),
            lx(K::Open, "("),
            lx(K::Close, ")"),
            lx(K::Fun, "f"),
            lx(K::Comma, ","),
            lx(K::Bad, "?"),
        ];
        let len = run.pick(6, 7);
        run.bound(&format!("any sequence of {} lexemes, max lexemes, implicit {}", al.len(), implicit), len as u64);
        let items = raw_prefixes(al.len(), 2);
        run.par(
            &items,
            || real(&lang),
            |w, r, it| {
                let r: &'static Real = r;
                raw_dfs(w, al.len(), it, len, &mut |w, ix| {
                    let toks: Vec<Lex> = ix.iter().map(|i| al[*i]).collect();
                    check(w, r, &lang, &toks, false);
                });
            },
        );
    }
    // long and deep
    let u = units();
    let cy = cycles(u.len(), 2);
    let ns = counts(run, 12, run.pick(140, 300));
    run.bound("deep nests: levels, a fault and a panic at every operation of those of up to 24, and near the ends, the middle and every 64th of the others", ns.iter().map(|n| *n as u64).collect::<Vec<_>>());
    let lang = Lang::standard();
    let at = |k: usize, n: usize| n <= 24 || k < 3 || k + 3 > n || k.abs_diff(n / 2) < 2 || k % 64 < 2;
    run.par(
        &cy,
        || real(&lang),
        |w, r, c| {
            let r: &'static Real = r;
            for n in &ns {
                w.states += 1;
                check_at(w, r, &lang, &nest(&u, c, *n), false, &at);
            }
        },
    );
    let ops = ["+", "-", "*", "/", "mod", "^"];
    let cy = cycles(ops.len(), 3);
    let operands: Vec<Vec<Lex>> = ["f ( )", "f ( 1 , - 1 )", "( - 1 ) !", "x"].iter().map(|s| words(s)).collect();
    run.bound("long chains: every cycle of up to 3 binary operators, with these operands in them", vec!["f ( )", "f ( 1 , - 1 )", "( - 1 ) !", "x"]);
    run.par(
        &cy,
        || real(&lang),
        |w, r, c| {
            let r: &'static Real = r;
            let ops: Vec<&'static str> = c.iter().map(|i| ops[*i]).collect();
            for o in &operands {
                for n in &ns {
                    for every in [1, 3] {
                        w.states += 1;
                        check_at(w, r, &lang, &chain(&ops, o, every, *n), false, &at);
                    }
                }
            }
        },
    );
}
