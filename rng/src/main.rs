//! `random` for every outcome of the generator (the words it returns are chosen by the explorer).
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;

use fw::{Run, Tier, Worker};
use prexel::complex::Complex;
use prexel::context::{Context, DefaultContext};
use prexel::decimal::Decimal;
use std::fmt::Debug;
use std::sync::Arc;

const WORDS: [u64; 16] = [
    0,
    u64::MAX,
    1 << 63,
    1 << 11,
    (1 << 11) - 1,
    u64::MAX - (1 << 11),
    (1 << 63) - 1,
    (1 << 63) - (1 << 11),
    (1 << 63) + (1 << 11),
    0xFFFF_FFFF_0000_0000,
    0x0000_0000_FFFF_FFFF,
    0x5555_5555_5555_5555,
    0xAAAA_AAAA_AAAA_AAAA,
    0xFFFF_FEFF_FFFF_FFFF,
    0xFFFF_FF00_0000_0000,
    0x0000_0100_0000_0000,
];

/// The boundary words, more of them in the thorough tier: every power of two and its neighbours.
fn words(run: &Run) -> Vec<u64> {
    let mut v = WORDS.to_vec();
    if run.thorough() {
        for k in 0..64 {
            let p = 1u64 << k;
            v.extend([p, p - 1, p.wrapping_add(1), !p, u64::MAX >> k, u64::MAX << k, p.wrapping_mul(5)]);
        }
        v.sort();
        v.dedup();
    }
    v
}

fn scripts(run: &Run, len: usize) -> Vec<Vec<u64>> {
    let words = words(run);
    let mut all = vec![vec![]];
    for _ in 0..len {
        all = all.into_iter().flat_map(|s: Vec<u64>| words.iter().map(move |w| [s.clone(), vec![*w]].concat())).collect();
    }
    all
}

/// What a number type needs for the check: its order, zero and one.
struct Type<N> {
    tag: &'static str,
    le: fn(&N, &N) -> bool,
    valid: fn(&N) -> bool,
    zero: N,
    one: N,
    /// a range from the first to the second must reach different values
    wide: fn(&N, &N) -> bool,
    len: usize,
}

fn explore<N: Clone + Debug + Send + Sync + 'static>(
    run: &Run,
    t: &Type<N>,
    grid: &[N],
    make: impl Fn() -> DefaultContext<'static, N> + Sync,
) where
    N: PartialEq,
{
    let all = scripts(run, t.len);
    let idx: Vec<usize> = (0..=grid.len()).collect();
    run.par(&idx, &make, |w, cx, i| {
        let f = cx.get_function("random").expect("random");
        if *i == grid.len() {
            range(w, t, &[], &t.zero, &t.one, true, &all, &|a| f.call(a).ok());
            for a in grid {
                let bad = !(t.valid)(a) || !(t.le)(&t.zero, a);
                range(w, t, &[a.clone()], &t.zero, a, !bad, &all, &|a| f.call(a).ok());
                for b in grid {
                    for c in [a.clone(), b.clone(), t.one.clone()] {
                        range(w, t, &[a.clone(), b.clone(), c.clone()], &t.zero, &t.zero, false, &all[..1], &|a| f.call(a).ok());
                    }
                }
            }
            return;
        }
        let a = &grid[*i];
        for b in grid {
            let ok = (t.valid)(a) && (t.valid)(b) && (t.le)(a, b);
            range(w, t, &[a.clone(), b.clone()], a, b, ok, &all, &|a| f.call(a).ok());
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn range<N: Clone + Debug + PartialEq>(
    w: &mut Worker,
    t: &Type<N>,
    args: &[N],
    min: &N,
    max: &N,
    ok: bool,
    scripts: &[Vec<u64>],
    call: &dyn Fn(&[N]) -> Option<N>,
) {
    let text = format!("[{}] random{:?}", t.tag, args);
    w.states += 1;
    let mut first: Option<N> = None;
    let mut varies = false;
    for s in scripts {
        w.transitions += 1;
        w.begin(&text);
        rand::vp_script(s);
        let r = fw::guard(|| call(args));
        w.end();
        let words = || s.iter().map(|x| format!("{:016x}", x)).collect::<Vec<_>>().join(",");
        match r {
            Err(p) => {
                w.violation(format!("{} {}", text, words()), format!("panic: {}", p));
                return;
            }
            Ok(v) => match (&v, ok) {
                (Some(v), true) => {
                    if !(t.le)(min, v) || !(t.le)(v, max) {
                        w.violation(format!("{} with words {}", text, words()), format!("gives {:?}, out of the range {:?} to {:?}", v, min, max));
                        return;
                    }
                    match &first {
                        None => first = Some(v.clone()),
                        Some(f) => varies |= f != v,
                    }
                }
                (None, true) => {
                    w.violation(format!("{} with words {}", text, words()), "fails for a valid range".to_string());
                    return;
                }
                (Some(v), false) => {
                    w.violation(text, format!("gives {:?} for an invalid range", v));
                    return;
                }
                (None, false) => {}
            },
        }
    }
    if ok && !varies && (t.wide)(min, max) {
        w.violation(text, format!("gives {:?} for every outcome of the generator", first));
    }
}

macro_rules! ints {
    ($run:expr, $($t:ident)*) => {$(
        let mut g: Vec<$t> = vec![0, 1, 2, 3, 7, 10, 100, $t::MAX, $t::MAX - 1, $t::MAX / 2, $t::MIN, $t::MIN + 1, $t::MIN / 2, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(7)];
        for k in [24u32, 31, 32, 52, 53, 54, 62, 63, 64, 100, 126] {
            if k < <$t>::BITS {
                let p = (1 as $t) << k;
                g.extend([p.wrapping_sub(1), p, p.wrapping_add(1), (0 as $t).wrapping_sub(p), (0 as $t).wrapping_sub(p).wrapping_sub(1)]);
            }
        }
        g.sort();
        g.dedup();
        let ty = Type::<$t> { tag: stringify!($t), le: |a, b| a <= b, valid: |_| true, zero: 0, one: 1, wide: |a, b| b.abs_diff(*a) >= 4, len: 2 };
        let ty = Type { len: if $run.thorough() { 1 } else { 2 }, ..ty };
        explore($run, &ty, &g, || DefaultContext::<$t>::new_checked());
        explore($run, &Type { tag: concat!(stringify!($t), " unchecked"), ..ty }, &g, || DefaultContext::<$t>::new_unchecked());
    )*};
}

macro_rules! floats {
    ($run:expr, $($t:ident)*) => {$(
        let pos: Vec<$t> = vec![0.0, $t::MIN_POSITIVE / 4.0, $t::MIN_POSITIVE, 1e-10, 0.1, 0.5, 0.7, 1.0 - $t::EPSILON, 1.0, 1.0 + $t::EPSILON, 1.5, 2.0, 3.0, 10.0, 1e6, 16777217.0, 1e15, 9007199254740993.0, 1e30, $t::MAX / 2.0, $t::MAX];
        let mut g = pos.clone();
        g.extend(pos.iter().map(|x| -x));
        let ty = Type::<$t> { tag: stringify!($t), le: |a, b| a <= b, valid: |a| a.is_finite(), zero: 0.0, one: 1.0, wide: |a, b| b - a > b.abs().max(a.abs()) * 1e-5, len: 2 };
        explore($run, &ty, &g, || DefaultContext::<$t>::new_checked());
        explore($run, &Type { tag: concat!(stringify!($t), " unchecked"), ..ty }, &g, || DefaultContext::<$t>::new_unchecked());
    )*};
}

fn explore_all(run: &Run) {
    floats!(run, f64 f32);
    ints!(run, i8 i16 i32 i64 i128);

    let pos = ["0", "0.1", "0.3", "1", "1.5", "2", "10", "0.0000000000000000000000000001", "0.123456789012345678901234567", "3.33333333333333333333333333", "100000000000000000001",
        "12345678901234567890.123456789", "39614081257132168796771975167", "79228162514264337593543950334", "79228162514264337593543950335", "9007199254740993", "1.00000000000000000000000001", "999999.9999999999999999"];
    let mut g: Vec<Decimal> = pos.iter().map(|s| s.parse().unwrap()).collect();
    g.extend(g.clone().into_iter().map(|d| -d));
    g.push("0.00".parse().unwrap());
    let ty = Type::<Decimal> {
        tag: "decimal",
        le: |a, b| a <= b,
        valid: |_| true,
        zero: Decimal::from(0),
        one: Decimal::from(1),
        wide: |a, b| b.checked_sub(*a).map_or(true, |d| d > b.abs().max(a.abs()) / Decimal::from(100000)),
        len: 2,
    };
    explore(run, &ty, &g, DefaultContext::new_decimal);

    let fs = [0.0, 1e-10, 0.1, 0.7, 1.0, 1.0 + f64::EPSILON, 3.0, 1e6, 1e15, f64::MAX];
    let mut g: Vec<Complex<f64>> = fs.iter().map(|x| Complex::new(*x, 0.0)).collect();
    g.extend(fs[1..].iter().map(|x| Complex::new(-*x, 0.0)));
    g.extend([Complex::new(1.0, 2.0), Complex::new(0.0, -1.0), Complex::new(-0.0, 0.0), Complex::new(0.0, -0.0), Complex::new(-0.0, -0.0), Complex::new(1.0, -0.0)]);
    let ty = Type::<Complex<f64>> {
        tag: "complex",
        // each component of the value is in the range of the (real) bounds
        le: |a, b| {
            if a.im == 0.0 && b.im == 0.0 {
                a.re <= b.re
            } else if a.im == 0.0 {
                a.re <= b.re && a.re <= b.im
            } else if b.im == 0.0 {
                a.re <= b.re && a.im <= b.re
            } else {
                false
            }
        },
        valid: |a| a.im == 0.0 && a.re.is_finite(),
        zero: Complex::new(0.0, 0.0),
        one: Complex::new(1.0, 0.0),
        wide: |a, b| b.re - a.re > b.re.abs().max(a.re.abs()) * 1e-5,
        len: 2,
    };
    explore(run, &ty, &g, DefaultContext::new_complex);
    run.bound("outcomes", format!("every pair (integers, thorough: every one) of {} words of the generator", words(run).len()));
    run.bound("ranges", "no argument, every maximum, every pair and one triple per pair of boundary grids of i8 to i128, f32, f64, decimal and complex numbers");
    run.assume("the generator is the one of the thread (rand::thread_rng), the source of rand::random");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("quick") => Tier::Quick,
        Some("thorough") => Tier::Thorough,
        _ => std::process::exit(2),
    };
    fw::install_panic_hook();
    let run = Arc::new(Run::new(&args[1], tier, "rng"));
    run.watchdog();
    if let Err(msg) = fw::guard(|| explore_all(&run)) {
        run.violation("cannot continue", msg);
    }
    std::process::exit(run.finish(&[]));
}
