//! Integer arithmetic: checked operations against arbitrary precision, checked against unchecked,
//! and the wrapper macros against the type they wrap.
use crate::fw::*;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use std::fmt::Debug;

/// A sign and 256 bit magnitude: exact results of any operation over 128 bit operands.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big {
    neg: bool,
    hi: u128,
    lo: u128,
}

impl Big {
    fn mk(neg: bool, hi: u128, lo: u128) -> Big {
        Big { neg: neg && (hi != 0 || lo != 0), hi, lo }
    }
    pub fn i(n: i128) -> Big {
        Big::mk(n < 0, 0, n.unsigned_abs())
    }
    pub fn u(n: u128) -> Big {
        Big::mk(false, 0, n)
    }
    fn cmp_mag(a: &Big, b: &Big) -> std::cmp::Ordering {
        (a.hi, a.lo).cmp(&(b.hi, b.lo))
    }
    pub fn neg(self) -> Big {
        Big::mk(!self.neg, self.hi, self.lo)
    }
    pub fn add(self, o: Big) -> Big {
        if self.neg == o.neg {
            let (lo, c) = self.lo.overflowing_add(o.lo);
            return Big::mk(self.neg, self.hi + o.hi + c as u128, lo);
        }
        let (big, small) = if Big::cmp_mag(&self, &o).is_ge() { (self, o) } else { (o, self) };
        let (lo, c) = big.lo.overflowing_sub(small.lo);
        Big::mk(big.neg, big.hi - small.hi - c as u128, lo)
    }
    pub fn sub(self, o: Big) -> Big {
        self.add(o.neg())
    }
    /// Product of two values of at most 128 bits.
    pub fn mul(self, o: Big) -> Option<Big> {
        if self.hi != 0 || o.hi != 0 {
            return None;
        }
        const M: u128 = u64::MAX as u128;
        let (a, b, c, d) = (self.lo >> 64, self.lo & M, o.lo >> 64, o.lo & M);
        let bd = b * d;
        let (ad, bc) = (a * d, b * c);
        let mid = (bd >> 64) + (ad & M) + (bc & M);
        let lo = (bd & M) | (mid << 64);
        let hi = a * c + (ad >> 64) + (bc >> 64) + (mid >> 64);
        Some(Big::mk(self.neg != o.neg, hi, lo))
    }
    /// Truncated division (of 128 bit values).
    pub fn div(self, o: Big) -> Option<Big> {
        if o.lo == 0 || self.hi != 0 || o.hi != 0 {
            return None;
        }
        Some(Big::mk(self.neg != o.neg, 0, self.lo / o.lo))
    }
    pub fn rem(self, o: Big) -> Option<Big> {
        if o.lo == 0 || self.hi != 0 || o.hi != 0 {
            return None;
        }
        Some(Big::mk(self.neg, 0, self.lo % o.lo))
    }
    pub fn within(self, min: Big, max: Big) -> bool {
        let le = |a: Big, b: Big| match (a.neg, b.neg) {
            (true, false) => true,
            (false, true) => false,
            (false, false) => Big::cmp_mag(&a, &b).is_le(),
            (true, true) => Big::cmp_mag(&b, &a).is_le(),
        };
        le(min, self) && le(self, max)
    }
}

/// What a list operation must give: `must` = the value is required, otherwise an error is allowed too.
struct Want {
    exact: Option<Big>,
    must: bool,
}

fn fold(args: &[Big], min: Big, max: Big, f: impl Fn(Big, Big) -> Option<Big>) -> Want {
    if args.is_empty() {
        return Want { exact: None, must: false };
    }
    let mut acc = args[0];
    let mut must = true;
    for a in &args[1..] {
        match f(acc, *a) {
            Some(v) => acc = v,
            None => return Want { exact: None, must: false },
        }
        must &= acc.within(min, max);
    }
    Want { exact: Some(acc).filter(|v| v.within(min, max)), must }
}

fn judge(got: &Result<Option<Big>, String>, w: &Want) -> Result<(), String> {
    match (got, w.exact) {
        (Err(p), _) => Err(format!("panic: {}", p)),
        (Ok(Some(g)), Some(e)) if *g == e => Ok(()),
        (Ok(Some(g)), Some(e)) => Err(format!("{:?} instead of {:?}", g, e)),
        (Ok(Some(g)), None) => Err(format!("{:?} but the result is not representable", g)),
        (Ok(None), Some(e)) if w.must => Err(format!("error instead of {:?}", e)),
        (Ok(None), _) => Ok(()),
    }
}

macro_rules! int_check {
    ($run:expr, $t:ty, $big:expr, $grid:expr, $list:expr, $eval:expr) => {{
        let run: &Run = $run;
        let grid: Vec<$t> = $grid;
        let list: Vec<$t> = $list;
        let big: fn($t) -> Big = $big;
        let (min, max) = (big(<$t>::MIN), big(<$t>::MAX));
        let tn = stringify!($t);
        run.par(
            &grid,
            || {
                let mut c = DefaultContext::<$t>::new_checked();
                c.set_variable("x", 0).unwrap();
                c.set_variable("y", 0).unwrap();
                (DefaultContext::<$t>::new_checked(), Evaluator::with_context(c))
            },
            |w, (ctx, ev), a| {
                let a = *a;
                let ba = big(a);
                w.states += 1;
                w.begin(&format!("[{}] operators with left operand {}", tn, a));
                let report = |w: &Worker, what: String, got: Result<Option<Big>, String>, want: Want| {
                    if let Err(e) = judge(&got, &want) {
                        w.violation(format!("[{}] {}", tn, what), e);
                    }
                };
                // unary
                for (name, want) in [("-", ba.neg()), ("+", ba)] {
                    let f = ctx.get_unary_function(name).expect("operator is not defined");
                    let got = guard(|| f.call(a).ok().map(big));
                    w.transitions += 1;
                    w.traces += 1;
                    report(w, format!("{}({})", name, a), got, Want { exact: Some(want).filter(|v| v.within(min, max)), must: want.within(min, max) });
                }
                {
                    let f = ctx.get_unary_function("!").expect("operator is not defined");
                    let mut acc = Some(Big::i(1));
                    if ba.neg {
                        acc = None;
                    } else {
                        let mut k: i128 = 2;
                        while let Some(v) = acc {
                            if !Big::i(k).within(Big::i(0), ba) {
                                break;
                            }
                            acc = v.mul(Big::i(k)).filter(|v| v.within(min, max));
                            k += 1;
                        }
                    }
                    let got = guard(|| f.call(a).ok().map(big));
                    w.transitions += 1;
                    w.traces += 1;
                    report(w, format!("({})!", a), got, Want { exact: acc, must: true });
                }
                {
                    let f = ctx.get_function("abs").expect("function is not defined");
                    let want = if ba.neg { ba.neg() } else { ba };
                    let got = guard(|| f.call(&[a]).ok().map(big));
                    report(w, format!("abs({})", a), got, Want { exact: Some(want).filter(|v| v.within(min, max)), must: true });
                    for n in ["sum", "product", "avg"] {
                        let f = ctx.get_function(n).expect("function is not defined");
                        let got = guard(|| f.call(&[a]).ok().map(big));
                        report(w, format!("{}({})", n, a), got, Want { exact: Some(ba), must: true });
                    }
                }
                // binary
                let ops: [(&str, fn(Big, Big) -> Option<Big>); 5] = [
                    ("+", |a, b| Some(a.add(b))),
                    ("-", |a, b| Some(a.sub(b))),
                    ("*", |a, b| a.mul(b)),
                    ("/", |a, b| a.div(b)),
                    ("mod", |a, b| a.rem(b)),
                ];
                for (name, model) in ops {
                    let f = ctx.get_binary_function(name).expect("operator is not defined");
                    for b in &grid {
                        let exact = model(ba, big(*b)).filter(|v| v.within(min, max));
                        // MIN mod -1 overflows in the usual implementation of the remainder
                        let must = !(name == "mod" && a == <$t>::MIN && big(*b) == Big::i(-1));
                        let got = guard(|| f.call(a, *b).ok().map(big));
                        w.transitions += 1;
                        w.traces += 1;
                        if got != Ok(exact) {
                            report(w, format!("{} {} {}", a, name, b), got, Want { exact, must });
                        }
                    }
                }
                // as expressions
                if $eval {
                    for b in &grid {
                        ev.mut_context().set_variable("x", a).unwrap();
                        ev.mut_context().set_variable("y", *b).unwrap();
                        for (name, model) in ops {
                            let exact = model(ba, big(*b)).filter(|v| v.within(min, max));
                            let must = !(name == "mod" && a == <$t>::MIN && big(*b) == Big::i(-1));
                            let s = format!("x {} y", name);
                            // SAFETY: the evaluator is neither moved nor mutated while it evaluates.
                            let e2: &'static Evaluator<'static, $t> = unsafe { &*(ev as *const _) };
                            let got = guard(|| e2.eval(&s).ok().map(big));
                            w.traces += 1;
                            report(w, format!("{} with x={} y={}", s, a, b), got, Want { exact, must });
                        }
                    }
                }
                w.end();
            },
        );
        // argument lists
        run.par(
            &list,
            || DefaultContext::<$t>::new_checked(),
            |w, ctx, a| {
                let mut args: Vec<$t> = vec![*a];
                w.begin(&format!("[{}] lists starting with {}", tn, a));
                let one = |w: &mut Worker, args: &[$t]| {
                    let b: Vec<Big> = args.iter().map(|x| big(*x)).collect();
                    let sum = fold(&b, min, max, |a, b| Some(a.add(b)));
                    let avg = Want {
                        exact: {
                            // the exact average also when a partial sum does not fit
                            let t = b.iter().fold(Big::i(0), |x, y| x.add(*y));
                            t.div(Big::i(b.len() as i128))
                        },
                        must: sum.must && Big::i(b.len() as i128).within(min, max),
                    };
                    let cases: [(&str, Want); 5] = [
                        ("avg", avg),
                        ("sum", sum),
                        ("product", fold(&b, min, max, |a, b| a.mul(b))),
                        ("max", fold(&b, min, max, |a, b| Some(if b.within(a, max) { b } else { a }))),
                        ("min", fold(&b, min, max, |a, b| Some(if b.within(min, a) { b } else { a }))),
                    ];
                    for (name, mut want) in cases {
                        let f = ctx.get_function(name).expect("function is not defined");
                        if args.len() < 2 && (name == "max" || name == "min") {
                            want.must = false;
                        }
                        let got = guard(|| f.call(args).ok().map(big));
                        w.transitions += 1;
                        w.traces += 1;
                        if let Err(e) = judge(&got, &want) {
                            w.violation(format!("[{}] {}{:?}", tn, name, args), e);
                        }
                    }
                };
                for b in &list {
                    args.truncate(1);
                    args.push(*b);
                    w.states += 1;
                    one(w, &args);
                    for c in &list {
                        args.truncate(2);
                        args.push(*c);
                        w.states += 1;
                        one(w, &args);
                    }
                }
                // long lists: the value, followed by zeros and alternating signs
                for n in [4usize, 5, 7, 8, 16, 100, 126, 127, 128, 129, 200, 255, 256, 257, 300] {
                    let mut l = vec![0 as $t; n];
                    l[0] = *a;
                    one(w, &l);
                    l[n - 1] = *a;
                    one(w, &l);
                    let l: Vec<$t> = (0..n).map(|i| if i % 2 == 0 { *a } else { (0 as $t).wrapping_sub(*a) }).collect();
                    one(w, &l);
                    one(w, &vec![*a; n]);
                }
                // a value at each position
                for n in 4..=40usize {
                    for i in 0..n {
                        let mut l = vec![1 as $t; n];
                        l[i] = *a;
                        one(w, &l);
                    }
                    w.states += 1;
                }
                // all the lists of small values
                let few = [1 as $t, 2, 0, (0 as $t).wrapping_sub(1)];
                for n in 3..=5u32 {
                    for mut i in 0..4usize.pow(n) {
                        let mut l = vec![*a];
                        for _ in 0..n {
                            l.push(few[i % 4]);
                            i /= 4;
                        }
                        w.states += 1;
                        one(w, &l);
                    }
                }
                w.end();
            },
        );
    }};
}

macro_rules! grid {
    ($t:ty, $n:expr) => {{
        // every value next to a power of two or of its roots, and the small ones
        let mut v: Vec<$t> = Vec::new();
        let n: $t = $n;
        for k in 0..=n {
            v.push(k);
            v.push((0 as $t).wrapping_sub(k));
            v.push(<$t>::MAX - k);
            v.push(<$t>::MIN + k);
        }
        for s in 0..<$t>::BITS {
            let p = (1 as $t).wrapping_shl(s);
            for d in [-1i32, 0, 1] {
                let q = match d {
                    -1 => p.wrapping_sub(1),
                    0 => p,
                    _ => p.wrapping_add(1),
                };
                v.push(q);
                v.push((0 as $t).wrapping_sub(q));
            }
        }
        for d in 2..=n {
            for e in [<$t>::MAX / d, <$t>::MIN / d] {
                v.push(e);
                v.push(e.wrapping_add(1));
                v.push(e.wrapping_sub(1));
            }
        }
        let r = (<$t>::MAX as f64).sqrt() as $t;
        for k in 0..=2 {
            for q in [r - k, r + k] {
                v.push(q);
                v.push((0 as $t).wrapping_sub(q));
            }
        }
        v.sort();
        v.dedup();
        v
    }};
}

macro_rules! short {
    ($t:ty) => {{
        let mut v: Vec<$t> = vec![0, 1, 2, 3, 5, 11, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1, <$t>::MIN, <$t>::MIN + 1, <$t>::MIN / 2];
        for k in [1, 2, 3, 4, 7] {
            v.push((0 as $t).wrapping_sub(k));
        }
        v.push(<$t>::MAX / 3);
        v.push(<$t>::MIN / 3);
        v.sort();
        v.dedup();
        v
    }};
}

pub fn c04(run: &Run) {
    run.assume("a sum, product or average may also report the overflow of a partial result, and the minimum mod -1 may be 0 or an overflow");
    run.bound("i8", "all 65536 pairs of operands, as calls and as expressions");
    let n = run.pick(4, 12);
    run.bound("i16 to i128", "full product of a boundary grid: neighbours of 0, the extremes, powers of two, quotients and square root of the extremes");
    int_check!(run, i8, |x| Big::i(x as i128), (i8::MIN..=i8::MAX).collect(), if run.thorough() { (i8::MIN..=i8::MAX).collect() } else { grid!(i8, 3) }, true);
    int_check!(run, i16, |x| Big::i(x as i128), grid!(i16, n), short!(i16), true);
    int_check!(run, i32, |x| Big::i(x as i128), grid!(i32, n as i32), short!(i32), true);
    int_check!(run, i64, |x| Big::i(x as i128), grid!(i64, n as i64), short!(i64), true);
    int_check!(run, i128, |x| Big::i(x), grid!(i128, n as i128), short!(i128), true);
    int_check!(run, isize, |x| Big::i(x as i128), grid!(isize, n as isize), short!(isize), false);
    unsigned(run);
    if run.thorough() {
        run.bound("i16", "all pairs of operands of + - * / mod");
        let all: Vec<i16> = (i16::MIN..=i16::MAX).collect();
        run.par(
            &all,
            || DefaultContext::<i16>::new_checked(),
            |w, ctx, a| {
                w.begin(&format!("[i16] operators with left operand {}", a));
                let a = *a;
                let x = a as i64;
                let ops: [(&str, fn(i64, i64) -> Option<i64>); 5] = [
                    ("+", |a, b| Some(a + b)),
                    ("-", |a, b| Some(a - b)),
                    ("*", |a, b| Some(a * b)),
                    ("/", |a, b| if b == 0 { None } else { Some(a / b) }),
                    ("mod", |a, b| if b == 0 { None } else { Some(a % b) }),
                ];
                for (name, model) in ops {
                    let f = ctx.get_binary_function(name).expect("operator is not defined");
                    let r = guard(|| {
                        for b in i16::MIN..=i16::MAX {
                            if a == i16::MIN && b == -1 && name == "mod" {
                                continue;
                            }
                            let want = model(x, b as i64).filter(|v| (-32768..=32767).contains(v)).map(|v| v as i16);
                            let got = f.call(a, b).ok();
                            if got != want {
                                return Some((b, got, want));
                            }
                        }
                        None
                    });
                    w.transitions += 65536;
                    w.traces += 65536;
                    w.states += 1;
                    match r {
                        Ok(None) => {}
                        Ok(Some((b, g, e))) => w.violation(format!("[i16] {} {} {}", a, name, b), format!("{:?} instead of {:?}", g, e)),
                        Err(p) => w.violation(format!("[i16] {} {} ?", a, name), format!("panic: {}", p)),
                    }
                }
                w.end();
            },
        );
    }
}

/// The checked operations of the unsigned types (they have no negation, hence no context).
fn unsigned(run: &Run) {
    use prexel::num::checked::*;
    macro_rules! one {
        ($t:ty, $grid:expr) => {{
            let grid: Vec<$t> = $grid;
            run.par(&grid, || (), |w, _, a| {
                w.begin(&format!("[{}] operators with left operand {}", stringify!($t), a));
                let max = Big::u(<$t>::MAX as u128);
                let ba = Big::u(*a as u128);
                for b in &grid {
                    w.states += 1;
                    let bb = Big::u(*b as u128);
                    let r: [(&str, Result<Option<$t>, String>, Option<Big>); 5] = [
                        ("+", guard(|| CheckedAdd::checked_add(a, b)), Some(ba.add(bb))),
                        ("-", guard(|| CheckedSub::checked_sub(a, b)), Some(ba.sub(bb))),
                        ("*", guard(|| CheckedMul::checked_mul(a, b)), ba.mul(bb)),
                        ("/", guard(|| CheckedDiv::checked_div(a, b)), ba.div(bb)),
                        ("mod", guard(|| CheckedRem::checked_rem(a, b)), ba.rem(bb)),
                    ];
                    for (name, got, want) in r {
                        w.transitions += 1;
                        w.traces += 1;
                        let want = want.filter(|v| v.within(Big::i(0), max));
                        let got = got.map(|g| g.map(|v| Big::u(v as u128)));
                        if got != Ok(want) {
                            w.violation(format!("[{}] {} {} {}", stringify!($t), a, name, b), format!("{:?} instead of {:?}", got, want));
                        }
                    }
                }
                w.end();
            });
        }};
    }
    one!(u8, (0..=u8::MAX).collect());
    one!(u16, grid!(u16, 4));
    one!(u32, grid!(u32, 4));
    one!(u64, grid!(u64, 4));
    one!(u128, grid!(u128, 4));
    one!(usize, grid!(usize, 4));
}

// ---------------------------------------------------------------------------------------------
// checked against unchecked
// ---------------------------------------------------------------------------------------------

/// Runs everything both contexts define over the operands and compares the outcomes.
/// `all`: the errors must agree too; otherwise the second context is used only if the first succeeded.
#[allow(clippy::too_many_arguments)]
fn agree<A: Clone + Debug + 'static, B: Clone + Debug + 'static>(
    w: &mut Worker,
    tag: &str,
    ca: &DefaultContext<'static, A>,
    cb: &DefaultContext<'static, B>,
    conv: &dyn Fn(&A) -> B,
    same: &dyn Fn(&A, &B) -> bool,
    all: bool,
    a: &A,
    grid: &[A],
    thirds: &[A],
) {
    w.begin(&format!("[{}] operations with first operand {:?}", tag, a));
    let cmp = |w: &mut Worker, name: &str, args: &[A], fa: &dyn Fn() -> prexel::Result<A>, fb: &dyn Fn() -> prexel::Result<B>| {
        w.transitions += 1;
        w.traces += 1;
        let ra = guard(|| fa().ok());
        let skip = !all && !matches!(ra, Ok(Some(_)));
        if skip {
            return;
        }
        let rb = guard(|| fb().ok());
        let ok = match (&ra, &rb) {
            (Ok(Some(x)), Ok(Some(y))) => same(x, y),
            (Ok(None), Ok(None)) => true,
            _ => false,
        };
        if !ok {
            w.violation(format!("[{}] {}{:?}", tag, name, args), format!("{:?} against {:?}", ra, rb));
        }
    };
    w.states += 1;
    let ba = conv(a);
    for (n, f) in ca.unary_functions().iter() {
        if let Some(g) = cb.get_unary_function(n.as_str()) {
            cmp(w, n.as_str(), &[a.clone()], &|| f.call(a.clone()), &|| g.call(ba.clone()));
        }
    }
    for (n, f) in ca.binary_functions().iter() {
        if let Some(g) = cb.get_binary_function(n.as_str()) {
            for b in grid {
                let bb = conv(b);
                cmp(w, n.as_str(), &[a.clone(), b.clone()], &|| f.call(a.clone(), b.clone()), &|| g.call(ba.clone(), bb.clone()));
            }
        }
    }
    for (n, f) in ca.functions().iter() {
        if n.as_str().eq_ignore_ascii_case("random") {
            continue;
        }
        if let Some(g) = cb.get_function(n.as_str()) {
            cmp(w, n.as_str(), &[], &|| f.call(&[]), &|| g.call(&[]));
            cmp(w, n.as_str(), &[a.clone()], &|| f.call(&[a.clone()]), &|| g.call(&[ba.clone()]));
            for b in grid {
                let aa = [a.clone(), b.clone()];
                let bb = [ba.clone(), conv(b)];
                cmp(w, n.as_str(), &aa, &|| f.call(&aa), &|| g.call(&bb));
            }
            for b in thirds {
                for c in thirds {
                    let aa = [a.clone(), b.clone(), c.clone()];
                    let bb = [ba.clone(), conv(b), conv(c)];
                    cmp(w, n.as_str(), &aa, &|| f.call(&aa), &|| g.call(&bb));
                }
            }
            // longer lists, over four of the values
            let few: Vec<&A> = thirds.iter().step_by((thirds.len() / 4).max(1)).take(4).collect();
            for len in 3..=5u32 {
                for mut i in 0..few.len().pow(len) {
                    let mut aa = vec![a.clone()];
                    for _ in 0..len {
                        aa.push(few[i % few.len()].clone());
                        i /= few.len();
                    }
                    let bb: Vec<B> = aa.iter().map(conv).collect();
                    cmp(w, n.as_str(), &aa, &|| f.call(&aa), &|| g.call(&bb));
                }
            }
        }
    }
    w.end();
}


fn feq(a: &f64, b: &f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn c25(run: &Run) {
    run.bound("types", vec!["f64", "f32", "i8 (all pairs)", "i16", "i32", "i64", "i128"]);
    run.bound("functions", "every operator and function both contexts define, with 0 to 3 arguments");
    run.assume("the unchecked integer operations are compared only where the checked ones succeed (they are documented to panic or wrap otherwise)");
    let mut g = super::total::f64_grid();
    let n = run.pick(20, 120);
    for k in 0..n {
        g.push(k as f64 * 0.75 - 7.0);
        g.push((k as f64 * 1.37).exp());
    }
    let thirds = super::total::f64_grid();
    run.par(
        &g,
        || (DefaultContext::<f64>::new_checked(), DefaultContext::<f64>::new_unchecked()),
        |w, (a, b), x| agree(w, "f64", a, b, &|v| *v, &feq, true, x, &g, &thirds),
    );
    let g32: Vec<f32> = g.iter().map(|v| *v as f32).collect();
    let t32: Vec<f32> = thirds.iter().map(|v| *v as f32).collect();
    run.par(
        &g32,
        || (DefaultContext::<f32>::new_checked(), DefaultContext::<f32>::new_unchecked()),
        |w, (a, b), x| agree(w, "f32", a, b, &|v| *v, &|a: &f32, b: &f32| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), true, x, &g32, &t32),
    );
    macro_rules! ints {
        ($t:ty, $grid:expr, $thirds:expr) => {{
            let g: Vec<$t> = $grid;
            let t: Vec<$t> = $thirds;
            run.par(
                &g,
                || (DefaultContext::<$t>::new_checked(), DefaultContext::<$t>::new_unchecked()),
                |w, (a, b), x| agree(w, stringify!($t), a, b, &|v| *v, &|a, b| a == b, false, x, &g, &t),
            );
        }};
    }
    let n = run.pick(3, 12);
    ints!(i8, (i8::MIN..=i8::MAX).collect(), grid!(i8, 3));
    ints!(i16, grid!(i16, n), short!(i16));
    ints!(i32, grid!(i32, n as i32), short!(i32));
    ints!(i64, grid!(i64, n as i64), short!(i64));
    ints!(i128, grid!(i128, n as i128), short!(i128));
}

// ---------------------------------------------------------------------------------------------
// wrapper macros
// ---------------------------------------------------------------------------------------------

mod wrappers {
    #[allow(unused_imports)]
    use prexel::num_traits::Zero;
    pub struct W8(pub i8);
    pub struct W64 {
        pub value: i64,
    }
    pub struct W128(pub i128);
    pub struct U8(pub i8);
    pub struct UF {
        pub f: f64,
    }
    pub struct WF {
        pub f: f64,
    }
    pub struct N16 {
        pub n: i16,
    }
    pub struct M16 {
        pub n: i16,
    }
    macro_rules! from {
        ($w:ident, $t:ty, $f:tt) => {
            impl From<$t> for $w {
                fn from(x: $t) -> $w {
                    $w { $f: x }
                }
            }
        };
    }
    from!(W8, i8, 0);
    from!(W64, i64, value);
    from!(W128, i128, 0);
    from!(U8, i8, 0);
    from!(UF, f64, f);
    impl From<i32> for UF {
        fn from(x: i32) -> UF {
            UF { f: x as f64 }
        }
    }
    from!(WF, f64, f);
    impl From<i32> for WF {
        fn from(x: i32) -> WF {
            WF { f: x as f64 }
        }
    }
    from!(N16, i16, n);
    from!(M16, i16, n);
    prexel::impl_checked_num_traits_with_field_and_from_str!(W8 => 0, i8);
    prexel::impl_checked_num_traits_with_field_and_from_str!(W64 => value, i64);
    prexel::impl_checked_num_traits_with_field_and_from_str!(W128 => 0, i128);
    prexel::impl_unchecked_num_traits_with_field_and_from_str!(U8 => 0, i8);
    prexel::impl_unchecked_num_traits_with_field_and_from_str!(UF => f, f64);
    prexel::impl_checked_num_traits_with_field_and_from_str!(WF => f, f64);
    prexel::impl_checked_num_traits_with_field!(N16 => n, i16);
    prexel::impl_unchecked_num_traits_with_field!(M16 => n, i16);
    macro_rules! no_str {
        ($w:ident) => {
            impl std::str::FromStr for $w {
                type Err = std::num::ParseIntError;
                fn from_str(s: &str) -> Result<$w, Self::Err> {
                    s.parse::<i16>().map($w::from)
                }
            }
        };
    }
    no_str!(N16);
    no_str!(M16);
}

pub fn c19(run: &Run) {
    use prexel::num_traits::{FromPrimitive, One, ToPrimitive, Zero};
    use std::cmp::PartialOrd;
    use wrappers::*;
    run.bound("wrappers", "tuple and named fields over i8, i16, i64, i128 and f64 (checked and unchecked), by each of the four macros");
    run.bound("operands", "all pairs of i8, all values of i16 with a grid, boundary grids of the others");
    macro_rules! same_traits {
        ($w:ident, $f:tt, $t:ty, $grid:expr, $eq:expr) => {{
            let grid: Vec<$t> = $grid;
            let eq: fn($t, $t) -> bool = $eq;
            let tn = stringify!($w);
            run.par(&grid, || (), |w, _, a| {
                let a = *a;
                w.states += 1;
                w.begin(&format!("[{}] traits of {:?}", tn, a));
                let r = guard(|| -> Result<(), String> {
                    let wa = $w::from(a);
                    let chk = |ok: bool, what: &str| if ok { Ok(()) } else { Err(what.to_string()) };
                    chk(wa.to_i64() == a.to_i64(), "to_i64")?;
                    chk(wa.to_u64() == a.to_u64(), "to_u64")?;
                    chk(wa.to_f64().map(f64::to_bits) == a.to_f64().map(f64::to_bits), "to_f64")?;
                    chk(wa.to_f32().map(f32::to_bits) == a.to_f32().map(f32::to_bits), "to_f32")?;
                    chk(wa.to_i128() == a.to_i128(), "to_i128")?;
                    chk(wa.to_u128() == a.to_u128(), "to_u128")?;
                    chk((wa.to_i8(), wa.to_u8(), wa.to_i16(), wa.to_u16()) == (a.to_i8(), a.to_u8(), a.to_i16(), a.to_u16()), "to_i8, to_i16")?;
                    chk((wa.to_i32(), wa.to_u32(), wa.to_isize(), wa.to_usize()) == (a.to_i32(), a.to_u32(), a.to_isize(), a.to_usize()), "to_i32, to_isize")?;
                    for z in [a.to_i128().unwrap_or(0), i128::MAX, i128::MIN, i64::MAX as i128 + 1, i64::MIN as i128 - 1, u64::MAX as i128 + 1] {
                        chk($w::from_i128(z).map(|x| x.$f.to_string()) == <$t>::from_i128(z).map(|x| x.to_string()), "from_i128")?;
                        let z = z as u128;
                        chk($w::from_u128(z).map(|x| x.$f.to_string()) == <$t>::from_u128(z).map(|x| x.to_string()), "from_u128")?;
                    }
                    for z in [a.to_f32().unwrap_or(0.5), 1e30, -0.5, f32::NAN] {
                        chk($w::from_f32(z).map(|x| x.$f.to_string()) == <$t>::from_f32(z).map(|x| x.to_string()), "from_f32")?;
                    }
                    for z in [a.to_i64().unwrap_or(7), 127, -128, 300, 40000, -40000, 1 << 40] {
                        let (i, u, s, n) = (z as i32, z as usize, z as isize, z as i16);
                        chk($w::from_i32(i).map(|x| x.$f.to_string()) == <$t>::from_i32(i).map(|x| x.to_string()), "from_i32")?;
                        chk($w::from_u32(i as u32).map(|x| x.$f.to_string()) == <$t>::from_u32(i as u32).map(|x| x.to_string()), "from_u32")?;
                        chk($w::from_usize(u).map(|x| x.$f.to_string()) == <$t>::from_usize(u).map(|x| x.to_string()), "from_usize")?;
                        chk($w::from_isize(s).map(|x| x.$f.to_string()) == <$t>::from_isize(s).map(|x| x.to_string()), "from_isize")?;
                        chk($w::from_i16(n).map(|x| x.$f.to_string()) == <$t>::from_i16(n).map(|x| x.to_string()), "from_i16")?;
                        chk($w::from_u8(n as u8).map(|x| x.$f.to_string()) == <$t>::from_u8(n as u8).map(|x| x.to_string()), "from_u8")?;
                    }
                    for (x, y) in [
                        (format!("{:8}|{:<8}|{:+}|{:08.2}", wa, wa, wa, wa), format!("{:8}|{:<8}|{:+}|{:08.2}", a, a, a, a)),
                        (format!("{:8?}|{:+?}", wa, wa), format!("{:8?}|{:+?}", a, a)),
                    ] {
                        chk(x == y, "formatting")?;
                    }
                    chk(format!("{}|{:?}", wa, wa) == format!("{}|{:?}", a, a), "display")?;
                    chk(eq(wa.clone().$f, a), "clone")?;
                    chk(wa.is_zero() == a.is_zero(), "is_zero")?;
                    chk(wa.is_one() == a.is_one(), "is_one")?;
                    chk(eq($w::zero().$f, <$t>::zero()), "zero")?;
                    chk(eq($w::one().$f, <$t>::one()), "one")?;
                    let s = a.to_string();
                    chk(s.parse::<$w>().ok().map(|x| x.$f.to_string()) == s.parse::<$t>().ok().map(|x| x.to_string()), "from_str")?;
                    for d in [0i64, 1, -1, 127, 128, -128, -129, 32767, 32768, i64::MAX, i64::MIN] {
                        let k = a.to_i64().unwrap_or(0).wrapping_add(d);
                        chk($w::from_i64(k).map(|x| x.$f.to_string()) == <$t>::from_i64(k).map(|x| x.to_string()), "from_i64")?;
                        let u = k as u64;
                        chk($w::from_u64(u).map(|x| x.$f.to_string()) == <$t>::from_u64(u).map(|x| x.to_string()), "from_u64")?;
                        for z in [k as f64, k as f64 + 0.5, f64::NAN, f64::INFINITY] {
                            chk($w::from_f64(z).map(|x| x.$f.to_string()) == <$t>::from_f64(z).map(|x| x.to_string()), "from_f64")?;
                        }
                    }
                    for s in ["", "x", "1.5", "-", "99999999999999999999999999999999999999999"] {
                        chk(s.parse::<$w>().ok().map(|x| x.$f.to_string()) == s.parse::<$t>().ok().map(|x| x.to_string()), "from_str")?;
                    }
                    Ok(())
                });
                w.traces += 1;
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => w.violation(format!("[{}] {} of {:?}", tn, e, a), "differs from the underlying type"),
                    Err(p) => w.violation(format!("[{}] traits of {:?}", tn, a), format!("panic: {}", p)),
                }
                for b in &grid {
                    let b = *b;
                    w.transitions += 1;
                    w.traces += 1;
                    let cmp = guard(|| {
                        let (x, y) = ($w::from(a), $w::from(b));
                        (x.partial_cmp(&y), x == y, x < y, x >= y)
                    });
                    if cmp != Ok((a.partial_cmp(&b), a == b, a < b, a >= b)) {
                        w.violation(format!("[{}] {:?} compared with {:?}", tn, a, b), format!("{:?}", cmp));
                    }
                    macro_rules! bin {
                        ($op:tt) => {
                            let m = guard(|| a $op b);
                            let g = guard(|| ($w::from(a) $op $w::from(b)).$f);
                            let ok = match (&m, &g) {
                                (Ok(m), Ok(g)) => eq(*m, *g),
                                (Err(_), Err(_)) => true,
                                _ => false,
                            };
                            if !ok {
                                w.violation(format!("[{}] {:?} {} {:?}", tn, a, stringify!($op), b), format!("{:?} instead of {:?}", g, m));
                            }
                        };
                    }
                    bin!(+);
                    bin!(-);
                    bin!(*);
                    bin!(/);
                    bin!(%);
                }
                let m = guard(|| -a);
                let g = guard(|| (-$w::from(a)).$f);
                if !matches!((&m, &g), (Ok(m), Ok(g)) if eq(*m, *g)) && !(m.is_err() && g.is_err()) {
                    w.violation(format!("[{}] -({:?})", tn, a), format!("{:?} instead of {:?}", g, m));
                }
                w.end();
            });
        }};
    }
    let all8: Vec<i8> = (i8::MIN..=i8::MAX).collect();
    let n = run.pick(3, 12);
    let fg = super::total::f64_grid();
    same_traits!(W8, 0, i8, all8.clone(), |a, b| a == b);
    same_traits!(U8, 0, i8, all8.clone(), |a, b| a == b);
    same_traits!(N16, n, i16, grid!(i16, n), |a, b| a == b);
    same_traits!(M16, n, i16, grid!(i16, n), |a, b| a == b);
    same_traits!(W64, value, i64, grid!(i64, n as i64), |a, b| a == b);
    same_traits!(W128, 0, i128, grid!(i128, n as i128), |a, b| a == b);
    same_traits!(UF, f, f64, fg.clone(), |a, b| feq(&a, &b));
    same_traits!(WF, f, f64, fg.clone(), |a, b| feq(&a, &b));
    // the checked operations
    macro_rules! same_checked {
        ($w:ident, $f:tt, $t:ty, $grid:expr, $eq:expr) => {{
            use prexel::num::checked::*;
            let grid: Vec<$t> = $grid;
            let eq: fn($t, $t) -> bool = $eq;
            run.par(&grid, || (), |w, _, a| {
                let a = *a;
                w.states += 1;
                w.begin(&format!("[{}] checked operations of {:?}", stringify!($w), a));
                let mut one = |name: &str, b: Option<$t>, want: Result<Option<$t>, String>, got: Result<Option<$w>, String>| {
                    w.transitions += 1;
                    w.traces += 1;
                    let got = got.map(|o| o.map(|x| x.$f));
                    let ok = match (&want, &got) {
                        (Ok(Some(x)), Ok(Some(y))) => eq(*x, *y),
                        (Ok(None), Ok(None)) => true,
                        _ => false,
                    };
                    if !ok {
                        w.violation(format!("[{}] {} {:?} {:?}", stringify!($w), name, a, b), format!("{:?} instead of {:?}", got, want));
                    }
                };
                one("checked_neg", None, guard(|| CheckedNeg::checked_neg(&a)), guard(|| CheckedNeg::checked_neg(&$w::from(a))));
                for b in &grid {
                    let b = *b;
                    let (x, y) = ($w::from(a), $w::from(b));
                    one("checked_add", Some(b), guard(|| CheckedAdd::checked_add(&a, &b)), guard(|| CheckedAdd::checked_add(&x, &y)));
                    one("checked_sub", Some(b), guard(|| CheckedSub::checked_sub(&a, &b)), guard(|| CheckedSub::checked_sub(&x, &y)));
                    one("checked_mul", Some(b), guard(|| CheckedMul::checked_mul(&a, &b)), guard(|| CheckedMul::checked_mul(&x, &y)));
                    one("checked_div", Some(b), guard(|| CheckedDiv::checked_div(&a, &b)), guard(|| CheckedDiv::checked_div(&x, &y)));
                    one("checked_rem", Some(b), guard(|| CheckedRem::checked_rem(&a, &b)), guard(|| CheckedRem::checked_rem(&x, &y)));
                }
                w.end();
            });
        }};
    }
    same_checked!(W8, 0, i8, all8.clone(), |a, b| a == b);
    same_checked!(N16, n, i16, grid!(i16, n), |a, b| a == b);
    same_checked!(W64, value, i64, grid!(i64, n as i64), |a, b| a == b);
    same_checked!(W128, 0, i128, grid!(i128, n as i128), |a, b| a == b);
    same_checked!(WF, f, f64, fg.clone(), |a, b| feq(&a, &b));
    // contexts
    macro_rules! ctx {
        ($w:ident, $f:tt, $t:ty, checked, $grid:expr, $thirds:expr) => {{
            let g: Vec<$t> = $grid;
            let t: Vec<$t> = $thirds;
            run.par(
                &g,
                || (DefaultContext::<$t>::new_checked(), DefaultContext::<$w>::new_checked()),
                |w, (a, b), x| agree(w, stringify!($w), a, b, &|v| $w::from(*v), &|a, b: &$w| *a == b.$f || a.to_string() == b.$f.to_string(), true, x, &g, &t),
            );
        }};
        ($w:ident, $f:tt, $t:ty, unchecked, $grid:expr, $thirds:expr) => {{
            let g: Vec<$t> = $grid;
            let t: Vec<$t> = $thirds;
            run.par(
                &g,
                || (DefaultContext::<$t>::new_checked(), DefaultContext::<$w>::new_unchecked()),
                |w, (a, b), x| agree(w, stringify!($w), a, b, &|v| $w::from(*v), &|a, b: &$w| *a == b.$f || a.to_string() == b.$f.to_string(), false, x, &g, &t),
            );
        }};
    }
    ctx!(W8, 0, i8, checked, all8.clone(), grid!(i8, 2));
    ctx!(U8, 0, i8, unchecked, all8, grid!(i8, 2));
    ctx!(N16, n, i16, checked, grid!(i16, n), short!(i16));
    ctx!(M16, n, i16, unchecked, grid!(i16, n), short!(i16));
    ctx!(W64, value, i64, checked, grid!(i64, n as i64), short!(i64));
    ctx!(UF, f, f64, unchecked, fg.clone(), vec![0.0, 1.0, -1.5, 1e300, 0.1, 7.0]);
    ctx!(WF, f, f64, checked, fg.clone(), vec![0.0, 1.0, -1.5, 1e300, 0.1, 7.0]);
    // expressions
    let exprs = ["x + y * 2", "x - y - 1", "-x", "x / y", "x mod y", "Sum(x, y, 1)", "Max(x, y)", "(x - 1) * (y - 1)", "x ^ 2", "x!", "7", "x > y", "Avg(x, y)"];
    run.bound("expressions", exprs.to_vec());
    run.par(
        &grid!(i64, 3),
        || {
            let mut a = DefaultContext::<i64>::with_config_checked(Config::new());
            let mut b = DefaultContext::<W64>::with_config_checked(Config::new());
            for v in ["x", "y"] {
                a.set_variable(v, 0).unwrap();
                b.set_variable(v, W64::from(0)).unwrap();
            }
            (Evaluator::with_context(a), Evaluator::with_context(b))
        },
        |w, (ea, eb), x| {
            w.begin(&format!("[W64] expressions with x={}", x));
            for y in grid!(i64, 3) {
                w.states += 1;
                ea.mut_context().set_variable("x", *x).unwrap();
                ea.mut_context().set_variable("y", y).unwrap();
                eb.mut_context().set_variable("x", W64::from(*x)).unwrap();
                eb.mut_context().set_variable("y", W64::from(y)).unwrap();
                // SAFETY: the evaluators are neither moved nor mutated while they evaluate.
                let (e1, e2): (&'static Evaluator<'static, i64>, &'static Evaluator<'static, W64>) =
                    unsafe { (&*(ea as *const _), &*(eb as *const _)) };
                for e in exprs {
                    w.traces += 1;
                    w.transitions += 1;
                    let a = guard(|| e1.eval(e).ok());
                    let b = guard(|| e2.eval(e).ok().map(|v| v.value));
                    if a != b || a.is_err() {
                        w.violation(format!("[W64] {} x={} y={}", e, x, y), format!("{:?} instead of {:?}", b, a));
                    }
                }
            }
            w.end();
        },
    );
}
