//! Symbolic numbers, contexts over them, and the reference model of the expression language
//! (precedence climbing over lexemes, written independently from the shunting-yard of the crate).
use prexel::context::{Config, Context, DefaultContext};
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use std::str::FromStr;

/// Hash of an expression tree; two trees get the same number only if they are the same tree
/// (64 bit mixing, operands are ordered).
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Sym(pub u64);

fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x.wrapping_add(0x9e37_79b9_7f4a_7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = (h ^ (h >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    h ^ (h >> 31)
}

pub fn hstr(tag: u64, s: &str) -> u64 {
    let mut h = mix(0x1234_5678, tag);
    for b in s.bytes() {
        h = mix(h, b as u64);
    }
    h
}

impl FromStr for Sym {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let mut dots = 0;
        if !s.starts_with(|c: char| c.is_ascii_digit()) {
            return Err(());
        }
        for c in s.chars() {
            match c {
                '0'..='9' => {}
                '.' => dots += 1,
                _ => return Err(()),
            }
        }
        if dots > 1 {
            return Err(());
        }
        Ok(Sym(hstr(1, s)))
    }
}

/// Interpretation of a tree.
pub trait Algebra {
    type T: Clone;
    fn num(&self, s: &str) -> Self::T;
    fn var(&self, s: &str) -> Self::T;
    fn con(&self, s: &str) -> Self::T;
    fn un(&self, op: &str, a: Self::T) -> Self::T;
    fn bin(&self, op: &str, a: Self::T, b: Self::T) -> Self::T;
    fn call(&self, f: &str, args: &[Self::T]) -> Self::T;
}

pub struct Hash;
impl Algebra for Hash {
    type T = u64;
    fn num(&self, s: &str) -> u64 {
        hstr(1, s)
    }
    fn var(&self, s: &str) -> u64 {
        hstr(2, s)
    }
    fn con(&self, s: &str) -> u64 {
        hstr(3, &s.to_lowercase())
    }
    fn un(&self, op: &str, a: u64) -> u64 {
        mix(hstr(4, op), a)
    }
    fn bin(&self, op: &str, a: u64, b: u64) -> u64 {
        mix(mix(hstr(5, op), a), b)
    }
    fn call(&self, f: &str, args: &[u64]) -> u64 {
        let mut h = hstr(6, f);
        for a in args {
            h = mix(h, *a);
        }
        mix(h, args.len() as u64)
    }
}

pub struct Show;
impl Algebra for Show {
    type T = String;
    fn num(&self, s: &str) -> String {
        s.into()
    }
    fn var(&self, s: &str) -> String {
        s.into()
    }
    fn con(&self, s: &str) -> String {
        s.into()
    }
    fn un(&self, op: &str, a: String) -> String {
        format!("({} {})", op, a)
    }
    fn bin(&self, op: &str, a: String, b: String) -> String {
        format!("({} {} {})", op, a, b)
    }
    fn call(&self, f: &str, args: &[String]) -> String {
        format!("{}<{}>", f, args.join("; "))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Num,
    Var,
    Con,
    Fun,
    Open,
    Close,
    Comma,
    Op,
    Bad,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Lex {
    pub k: K,
    pub s: &'static str,
}

pub const fn lx(k: K, s: &'static str) -> Lex {
    Lex { k, s }
}

#[derive(Clone, Debug)]
pub struct OpSpec {
    pub name: &'static str,
    pub bin: Option<(u32, Associativity)>,
    pub un: Option<Notation>,
}

/// The language of a context.
#[derive(Clone, Debug)]
pub struct Lang {
    pub ops: Vec<OpSpec>,
    pub vars: Vec<&'static str>,
    pub cons: Vec<&'static str>,
    pub funs: Vec<&'static str>,
    pub implicit: bool,
    pub custom_call: bool,
}

pub const L: Associativity = Associativity::Left;
pub const R: Associativity = Associativity::Right;

impl Lang {
    pub fn standard() -> Lang {
        Lang {
            ops: vec![
                OpSpec { name: "+", bin: Some((1, L)), un: Some(Notation::Prefix) },
                OpSpec { name: "-", bin: Some((1, L)), un: Some(Notation::Prefix) },
                OpSpec { name: "*", bin: Some((2, L)), un: None },
                OpSpec { name: "/", bin: Some((2, L)), un: None },
                OpSpec { name: "mod", bin: Some((2, L)), un: None },
                OpSpec { name: "^", bin: Some((3, R)), un: None },
                OpSpec { name: "!", bin: None, un: Some(Notation::Postfix) },
            ],
            vars: vec!["x", "y"],
            cons: vec!["K"],
            funs: vec!["f", "g"],
            implicit: false,
            custom_call: false,
        }
    }
    pub fn op(&self, name: &str) -> Option<&OpSpec> {
        self.ops.iter().find(|o| o.name.eq_ignore_ascii_case(name))
    }
    pub fn context(&self) -> DefaultContext<'static, Sym> {
        let cfg = Config::new().with_implicit_mul(self.implicit).with_custom_function_call(self.custom_call);
        let mut c = DefaultContext::with_config(cfg);
        for v in &self.vars {
            c.set_variable(v, Sym(Hash.var(v))).unwrap();
        }
        for v in &self.cons {
            c.add_constant(v, Sym(Hash.con(v))).unwrap();
        }
        for f in &self.funs {
            c.add_function(SymFun(f)).unwrap();
        }
        for o in &self.ops {
            if let Some((p, a)) = o.bin {
                c.add_binary_function(SymBin(o.name, p, a)).unwrap();
            }
            if let Some(n) = o.un {
                c.add_unary_function(SymUn(o.name, n)).unwrap();
            }
        }
        c
    }
}

pub struct SymFun(pub &'static str);
impl Function<Sym> for SymFun {
    fn name(&self) -> &str {
        self.0
    }
    fn call(&self, args: &[Sym]) -> prexel::Result<Sym> {
        let a: Vec<u64> = args.iter().map(|s| s.0).collect();
        Ok(Sym(Hash.call(self.0, &a)))
    }
}
pub struct SymBin(pub &'static str, pub u32, pub Associativity);
impl BinaryFunction<Sym> for SymBin {
    fn name(&self) -> &str {
        self.0
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.1)
    }
    fn associativity(&self) -> Associativity {
        self.2
    }
    fn call(&self, l: Sym, r: Sym) -> prexel::Result<Sym> {
        Ok(Sym(Hash.bin(self.0, l.0, r.0)))
    }
}
pub struct SymUn(pub &'static str, pub Notation);
impl UnaryFunction<Sym> for SymUn {
    fn name(&self) -> &str {
        self.0
    }
    fn notation(&self) -> Notation {
        self.1
    }
    fn call(&self, v: Sym) -> prexel::Result<Sym> {
        Ok(Sym(Hash.un(self.0, v.0)))
    }
}

/// Reference parser. `None` = the expression is malformed.
pub struct Parser<'a, A: Algebra> {
    pub lang: &'a Lang,
    pub toks: &'a [Lex],
    pub pos: usize,
    pub alg: &'a A,
}

fn close_of(open: &str) -> &'static str {
    match open {
        "(" => ")",
        "[" => "]",
        _ => "}",
    }
}

impl<'a, A: Algebra> Parser<'a, A> {
    pub fn parse(lang: &'a Lang, toks: &'a [Lex], alg: &'a A) -> Option<A::T> {
        let mut p = Parser { lang, toks, pos: 0, alg };
        let t = p.expr(None)?;
        if p.pos == toks.len() {
            Some(t)
        } else {
            None
        }
    }
    fn peek(&self) -> Option<&'a Lex> {
        self.toks.get(self.pos)
    }

    /// `left`: the operator waiting for its right operand.
    fn expr(&mut self, left: Option<(u32, Associativity)>) -> Option<A::T> {
        let mut lhs = self.operand()?;
        loop {
            let t = match self.peek() {
                None => return Some(lhs),
                Some(t) => t,
            };
            match t.k {
                K::Close | K::Comma => return Some(lhs),
                K::Op => {
                    let (p, a) = self.lang.op(t.s)?.bin?;
                    if let Some((lp, la)) = left {
                        if lp > p || (lp == p && la == L) {
                            return Some(lhs);
                        }
                    }
                    self.pos += 1;
                    let rhs = self.expr(Some((p, a)))?;
                    lhs = self.alg.bin(self.lang.op(t.s)?.name, lhs, rhs);
                }
                _ => {
                    // juxtaposition
                    if !self.lang.implicit {
                        return None;
                    }
                    let prev = &self.toks[self.pos - 1];
                    let ok = match prev.k {
                        K::Num => matches!(t.k, K::Fun | K::Con | K::Var | K::Open),
                        K::Close => matches!(t.k, K::Num | K::Fun | K::Con | K::Var | K::Open),
                        _ => false,
                    };
                    if !ok {
                        return None;
                    }
                    let (p, a) = self.lang.op("*")?.bin?;
                    let rhs = self.expr(Some((p, a)))?;
                    lhs = self.alg.bin("*", lhs, rhs);
                }
            }
        }
    }

    /// operand := prefix* primary postfix*
    fn operand(&mut self) -> Option<A::T> {
        let t = self.peek()?;
        if t.k == K::Op {
            let o = self.lang.op(t.s)?;
            if o.un == Some(Notation::Prefix) {
                self.pos += 1;
                let v = self.operand()?;
                return Some(self.alg.un(o.name, v));
            }
            return None;
        }
        let mut v = self.primary()?;
        while let Some(t) = self.peek() {
            if t.k == K::Op {
                if let Some(o) = self.lang.op(t.s) {
                    if o.un == Some(Notation::Postfix) {
                        self.pos += 1;
                        v = self.alg.un(o.name, v);
                        continue;
                    }
                }
            }
            break;
        }
        Some(v)
    }

    fn primary(&mut self) -> Option<A::T> {
        let t = self.peek()?;
        self.pos += 1;
        match t.k {
            K::Num => Some(self.alg.num(t.s)),
            K::Var => Some(self.alg.var(t.s)),
            K::Con => Some(self.alg.con(t.s)),
            K::Open => {
                let v = self.expr(None)?;
                self.expect_close(t.s)?;
                Some(v)
            }
            K::Fun => {
                let o = self.peek()?;
                if o.k != K::Open || !(o.s == "(" || self.lang.custom_call) {
                    return None;
                }
                self.pos += 1;
                let mut args = Vec::new();
                if self.peek()?.k != K::Close {
                    loop {
                        args.push(self.expr(None)?);
                        if self.peek()?.k == K::Comma {
                            self.pos += 1;
                        } else {
                            break;
                        }
                    }
                }
                self.expect_close(o.s)?;
                Some(self.alg.call(&t.s.to_lowercase(), &args))
            }
            _ => None,
        }
    }

    fn expect_close(&mut self, open: &str) -> Option<()> {
        let t = self.peek()?;
        if t.k == K::Close && t.s == close_of(open) {
            self.pos += 1;
            Some(())
        } else {
            None
        }
    }
}

pub fn ref_hash(lang: &Lang, toks: &[Lex]) -> Option<u64> {
    Parser::parse(lang, toks, &Hash)
}

pub fn ref_show(lang: &Lang, toks: &[Lex]) -> String {
    Parser::parse(lang, toks, &Show).unwrap_or_else(|| "error".into())
}

pub fn join(toks: &[Lex], sep: &str) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push_str(sep);
        }
        s.push_str(t.s);
    }
    s
}
