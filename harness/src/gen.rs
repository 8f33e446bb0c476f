//! Exhaustive generators of lexeme sequences.
use crate::fw::Worker;
use crate::sym::*;
use prexel::function::Notation;

pub const NUMS: [&str; 24] = [
    "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21",
    "22", "23", "24",
];

/// Alphabet of the grammar directed generator.
#[derive(Clone)]
pub struct Gen {
    pub lang: Lang,
    /// operands besides numbers, calls and groups
    pub operands: Vec<Lex>,
    pub numbers: bool,
    pub funs: Vec<&'static str>,
    pub call_open: Vec<&'static str>,
    pub groups: Vec<&'static str>,
    pub binary: Vec<&'static str>,
    pub prefix: Vec<&'static str>,
    pub postfix: Vec<&'static str>,
    pub max_len: usize,
}

#[derive(Clone)]
pub struct GState {
    pub toks: Vec<Lex>,
    /// open groups, `true` = function call
    stack: Vec<(&'static str, bool)>,
    want_operand: bool,
}

pub fn close_of(o: &str) -> &'static str {
    match o {
        "(" => ")",
        "[" => "]",
        _ => "}",
    }
}

impl Gen {
    pub fn start(&self) -> GState {
        GState { toks: Vec::new(), stack: Vec::new(), want_operand: true }
    }
    fn need(&self, s: &GState) -> usize {
        s.stack.len() + s.want_operand as usize
    }
    pub fn complete(&self, s: &GState) -> bool {
        s.stack.is_empty() && !s.want_operand
    }
    /// Successors of a viable prefix, all of them viable within the length bound.
    pub fn next(&self, s: &GState) -> Vec<GState> {
        let mut out = Vec::new();
        let pos = s.toks.len();
        let mut add = |toks: &[Lex], stack: Vec<(&'static str, bool)>, want: bool| {
            let mut n = GState { toks: s.toks.clone(), stack, want_operand: want };
            n.toks.extend_from_slice(toks);
            if n.toks.len() + self.need(&n) <= self.max_len {
                out.push(n);
            }
        };
        // juxtaposition allowed here?
        let prev = s.toks.last().copied();
        let starts = |k: K| -> bool {
            s.want_operand
                || (self.lang.implicit
                    && match prev.map(|p| p.k) {
                        Some(K::Num) => matches!(k, K::Fun | K::Con | K::Var | K::Open),
                        Some(K::Close) => matches!(k, K::Num | K::Fun | K::Con | K::Var | K::Open),
                        _ => false,
                    })
        };
        if self.numbers && starts(K::Num) {
            add(&[lx(K::Num, NUMS[pos])], s.stack.clone(), false);
        }
        for o in &self.operands {
            if starts(o.k) {
                add(&[*o], s.stack.clone(), false);
            }
        }
        if starts(K::Open) {
            for g in &self.groups {
                let mut st = s.stack.clone();
                st.push((g, false));
                add(&[lx(K::Open, g)], st, true);
            }
        }
        if starts(K::Fun) {
            for f in &self.funs {
                for o in &self.call_open {
                    let mut st = s.stack.clone();
                    st.push((o, true));
                    add(&[lx(K::Fun, f), lx(K::Open, o)], st, true);
                    add(&[lx(K::Fun, f), lx(K::Open, o), lx(K::Close, close_of(o))], s.stack.clone(), false);
                }
            }
        }
        if s.want_operand {
            for p in &self.prefix {
                add(&[lx(K::Op, p)], s.stack.clone(), true);
            }
        } else {
            for b in &self.binary {
                add(&[lx(K::Op, b)], s.stack.clone(), true);
            }
            for p in &self.postfix {
                add(&[lx(K::Op, p)], s.stack.clone(), false);
            }
            if let Some((o, call)) = s.stack.last() {
                let mut st = s.stack.clone();
                st.pop();
                add(&[lx(K::Close, close_of(o))], st, false);
                if *call {
                    add(&[lx(K::Comma, ",")], s.stack.clone(), true);
                }
            }
        }
        out
    }
    /// Prefixes at the given depth plus the complete expressions above it.
    pub fn split(&self, depth: usize) -> Vec<GState> {
        let mut level = vec![self.start()];
        let mut done: Vec<GState> = Vec::new();
        for _ in 0..depth {
            let mut n = Vec::new();
            for s in &level {
                n.extend(self.next(s));
                if self.complete(s) {
                    // expression is visited, its extensions are in `n`
                    let mut leaf = s.clone();
                    leaf.stack = vec![("!", false)]; // marks: only visit
                    done.push(leaf);
                }
            }
            level = n;
        }
        done.extend(level);
        done
    }
    pub fn dfs(&self, w: &mut Worker, s: &GState, f: &mut dyn FnMut(&mut Worker, &[Lex])) {
        if s.stack.first().map_or(false, |x| x.0 == "!") {
            w.states += 1;
            f(w, &s.toks);
            return;
        }
        w.states += 1;
        if self.complete(s) {
            f(w, &s.toks);
        }
        for n in self.next(s) {
            w.transitions += 1;
            self.dfs(w, &n, f);
        }
    }
}

impl Gen {
    pub fn of(lang: &Lang, max_len: usize) -> Gen {
        Gen {
            lang: lang.clone(),
            operands: vec![lx(K::Var, "x"), lx(K::Con, "K")],
            numbers: true,
            funs: vec!["f"],
            call_open: vec!["("],
            groups: vec!["(", "["],
            binary: lang.ops.iter().filter(|o| o.bin.is_some()).map(|o| o.name).collect(),
            prefix: lang.ops.iter().filter(|o| o.un == Some(Notation::Prefix)).map(|o| o.name).collect(),
            postfix: lang.ops.iter().filter(|o| o.un == Some(Notation::Postfix)).map(|o| o.name).collect(),
            max_len,
        }
    }
}

/// All sequences over an alphabet of length 1..=max_len, work items are all the prefixes of `split` symbols.
pub fn raw_prefixes(n: usize, split: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..split {
        let mut nx = Vec::new();
        for p in &out {
            for i in 0..n {
                let mut q: Vec<usize> = p.clone();
                q.push(i);
                nx.push(q);
            }
        }
        out = nx;
    }
    out
}

/// Visits every sequence with the given prefix and length in prefix.len()..=max_len, and (for the
/// prefixes that end in symbol 0 only, so that each is visited once) the shorter ones.
pub fn raw_dfs(
    w: &mut Worker,
    n: usize,
    prefix: &[usize],
    max_len: usize,
    f: &mut dyn FnMut(&mut Worker, &[usize]),
) {
    // shorter sequences: visited by the item whose remaining symbols are all 0
    for k in 1..prefix.len() {
        if prefix[k..].iter().all(|x| *x == 0) {
            f(w, &prefix[..k]);
            w.states += 1;
        }
    }
    let mut v = prefix.to_vec();
    fn go(
        w: &mut Worker,
        n: usize,
        v: &mut Vec<usize>,
        max: usize,
        f: &mut dyn FnMut(&mut Worker, &[usize]),
    ) {
        w.states += 1;
        f(w, v);
        if v.len() < max {
            for i in 0..n {
                v.push(i);
                w.transitions += 1;
                go(w, n, v, max, f);
                v.pop();
            }
        }
    }
    go(w, n, &mut v, max_len, f);
}
