//! Fixed point numbers of 320 binary digits after the point, and the elementary functions over them:
//! the reference of the decimal functions, with far more digits than the type under test.
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};
use std::sync::OnceLock;

const P: usize = 320;

#[derive(Clone, PartialEq, PartialOrd, Debug)]
pub struct H(pub BigInt);

impl H {
    pub fn int(n: i64) -> H {
        H(BigInt::from(n) << P)
    }
    /// A plain decimal number.
    pub fn parse(s: &str) -> H {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s),
        };
        let (i, f) = t.split_once('.').unwrap_or((t, ""));
        let m: BigInt = format!("{}{}", i, f).parse().unwrap();
        let d: BigInt = format!("1{}", "0".repeat(f.len())).parse().unwrap();
        let v = (m << P) / d;
        H(if neg { -v } else { v })
    }
    pub fn of_f64(x: f64) -> H {
        // 53 bits of mantissa, exact
        if x == 0.0 {
            return H::int(0);
        }
        let e = x.abs().log2().floor() as i32;
        let m = (x * 2f64.powi(52 - e)) as i64;
        let sh = P as i32 + e - 52;
        H(if sh >= 0 { BigInt::from(m) << sh as usize } else { BigInt::from(m) >> (-sh) as usize })
    }
    pub fn f(&self) -> f64 {
        // the digits over 2^-1000 are enough
        let bits = self.0.bits();
        if bits == 0 {
            return 0.0;
        }
        let cut = bits.saturating_sub(64);
        let m = (&self.0 >> cut).to_f64().unwrap();
        m * 2f64.powi(cut as i32 - P as i32)
    }
    pub fn neg(&self) -> H {
        H(-&self.0)
    }
    pub fn abs(&self) -> H {
        H(self.0.abs())
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    pub fn is_neg(&self) -> bool {
        self.0.is_negative()
    }
    pub fn add(&self, o: &H) -> H {
        H(&self.0 + &o.0)
    }
    pub fn sub(&self, o: &H) -> H {
        H(&self.0 - &o.0)
    }
    pub fn mul(&self, o: &H) -> H {
        H((&self.0 * &o.0) >> P)
    }
    pub fn div(&self, o: &H) -> H {
        H((&self.0 << P) / &o.0)
    }
    pub fn muli(&self, n: i64) -> H {
        H(&self.0 * BigInt::from(n))
    }
    pub fn divi(&self, n: i64) -> H {
        H(&self.0 / BigInt::from(n))
    }
    /// Rounded down to an integer.
    pub fn floor(&self) -> H {
        let one = BigInt::from(1) << P;
        let q = &self.0 / &one;
        let r: BigInt = &self.0 - &q * &one;
        H((if r.is_negative() { q - 1 } else { q }) << P)
    }
    /// Product with the integer `self.0`.
    pub fn times(&self, o: &H) -> H {
        H(&self.0 * &o.0)
    }
    pub fn shr(&self, n: usize) -> H {
        H(&self.0 >> n)
    }
    pub fn shl(&self, n: usize) -> H {
        H(&self.0 << n)
    }
    pub fn sqrt(&self) -> H {
        H((&self.0 << P).sqrt())
    }
    pub fn cbrt(&self) -> H {
        H((&self.0 << (2 * P)).cbrt())
    }
    pub fn pi() -> &'static H {
        static PI: OnceLock<H> = OnceLock::new();
        // Machin: 16 atan(1/5) - 4 atan(1/239)
        PI.get_or_init(|| {
            let at = |n: i64| {
                let mut t = H::int(1).divi(n);
                let mut s = t.clone();
                let mut k = 1;
                while !t.is_zero() {
                    t = t.divi(-n * n);
                    k += 2;
                    s = s.add(&t.divi(k));
                }
                s
            };
            at(5).muli(16).sub(&at(239).muli(4))
        })
    }
    fn ln2() -> &'static H {
        static LN2: OnceLock<H> = OnceLock::new();
        // 2 atanh(1/3)
        LN2.get_or_init(|| {
            let mut t = H::int(1).divi(3);
            let mut s = t.clone();
            let mut k = 1;
            while !t.is_zero() {
                t = t.divi(9);
                k += 2;
                s = s.add(&t.divi(k));
            }
            s.muli(2)
        })
    }
    /// `None` if it does not fit (over 2^400).
    pub fn exp(&self) -> Option<H> {
        self.exp_below(400.0)
    }
    /// `None` if it is over 2^limit.
    pub fn exp_below(&self, limit: f64) -> Option<H> {
        let k = self.div(H::ln2()).f().round();
        if k > limit {
            return None;
        }
        if k < -400.0 {
            return Some(H::int(0));
        }
        let r = self.sub(&H::ln2().muli(k as i64));
        // 40 guard bits against the squarings
        let r = r.shr(8);
        let mut t = H::int(1);
        let mut s = H::int(1);
        let mut n = 1;
        loop {
            t = t.mul(&r).divi(n);
            if t.is_zero() || t.0 == BigInt::from(-1) {
                break;
            }
            s = s.add(&t);
            n += 1;
        }
        for _ in 0..8 {
            s = s.mul(&s);
        }
        Some(if k >= 0.0 { s.shl(k as usize) } else { s.shr((-k) as usize) })
    }
    /// Of a positive number.
    pub fn ln(&self) -> H {
        // x = m 2^k with m in [0.5, 1)
        let k = self.0.bits() as i64 - P as i64;
        let m = if k >= 0 { self.shr(k as usize) } else { self.shl((-k) as usize) };
        // the bits lost by a right shift are irrelevant: |x| < 2^400 has 320 digits after the point
        let mut y = H::of_f64(m.f().ln());
        for _ in 0..3 {
            let e = y.exp().unwrap();
            let d = m.sub(&e).div(&m.add(&e));
            y = y.add(&d.muli(2));
        }
        y.add(&H::ln2().muli(k))
    }
    pub fn sin_cos(&self) -> (H, H) {
        let two_pi = H::pi().muli(2);
        let r = H(&self.0 % &two_pi.0);
        // sin and cos of r / 2^6, then double
        let t = r.shr(6);
        let tt = t.mul(&t);
        let series = |first: H, mut k: i64| {
            let mut a = first.clone();
            let mut s = first;
            loop {
                a = a.mul(&tt).divi(-(k + 1) * (k + 2));
                if a.is_zero() || a.0 == BigInt::from(-1) {
                    return s;
                }
                s = s.add(&a);
                k += 2;
            }
        };
        let mut s = series(t.clone(), 1);
        let mut c = series(H::int(1), 0);
        for _ in 0..6 {
            let n = s.mul(&c).muli(2);
            c = c.mul(&c).sub(&s.mul(&s));
            s = n;
        }
        (s, c)
    }
    pub fn atan(&self) -> H {
        let one = H::int(1);
        if self.abs() > one {
            let h = H::pi().shr(1);
            let a = one.div(self).atan();
            return if self.is_neg() { h.neg().sub(&a) } else { h.sub(&a) };
        }
        let mut t = self.clone();
        for _ in 0..5 {
            t = t.div(&one.add(&one.add(&t.mul(&t)).sqrt()));
        }
        let tt = t.mul(&t);
        let mut a = t.clone();
        let mut s = t;
        let mut k = 1;
        loop {
            a = a.mul(&tt).neg();
            if a.is_zero() || a.abs().0 == BigInt::from(1) {
                return s.shl(5);
            }
            k += 2;
            s = s.add(&a.divi(k));
        }
    }
    pub fn atan2(y: &H, x: &H) -> H {
        if x.is_zero() {
            let h = H::pi().shr(1);
            return if y.is_zero() {
                H::int(0)
            } else if y.is_neg() {
                h.neg()
            } else {
                h
            };
        }
        let a = y.div(x).atan();
        if !x.is_neg() {
            a
        } else if y.is_neg() {
            a.sub(H::pi())
        } else {
            a.add(H::pi())
        }
    }
    /// `|x| <= 1`
    pub fn asin(&self) -> H {
        let c = H::int(1).sub(&self.mul(self));
        let c = if c.is_neg() { H::int(0) } else { c.sqrt() };
        H::atan2(self, &c)
    }
    pub fn acos(&self) -> H {
        H::pi().shr(1).sub(&self.asin())
    }
    pub fn asinh(&self) -> H {
        if self.is_neg() {
            return self.neg().asinh().neg();
        }
        self.add(&self.mul(self).add(&H::int(1)).sqrt()).ln()
    }
    /// `x >= 1`
    pub fn acosh(&self) -> H {
        self.add(&self.mul(self).sub(&H::int(1)).sqrt()).ln()
    }
    /// `|x| < 1`
    pub fn atanh(&self) -> H {
        H::int(1).add(self).div(&H::int(1).sub(self)).ln().shr(1)
    }
    pub fn deg(&self) -> H {
        self.muli(180).div(H::pi())
    }
    pub fn rad(&self) -> H {
        self.mul(H::pi()).divi(180)
    }
}

/// Complex numbers of such parts. `None`: undefined, or too large for a float.
#[derive(Clone)]
pub struct Z(pub H, pub H);

impl Z {
    pub fn one() -> Z {
        Z(H::int(1), H::int(0))
    }
    pub fn add(&self, o: &Z) -> Z {
        Z(self.0.add(&o.0), self.1.add(&o.1))
    }
    pub fn sub(&self, o: &Z) -> Z {
        Z(self.0.sub(&o.0), self.1.sub(&o.1))
    }
    pub fn mul(&self, o: &Z) -> Z {
        Z(self.0.mul(&o.0).sub(&self.1.mul(&o.1)), self.0.mul(&o.1).add(&self.1.mul(&o.0)))
    }
    pub fn half(&self) -> Z {
        Z(self.0.shr(1), self.1.shr(1))
    }
    pub fn neg(&self) -> Z {
        Z(self.0.neg(), self.1.neg())
    }
    pub fn conj(&self) -> Z {
        Z(self.0.clone(), self.1.neg())
    }
    /// iz
    pub fn turn(&self) -> Z {
        Z(self.1.neg(), self.0.clone())
    }
    /// -iz
    pub fn turn_back(&self) -> Z {
        Z(self.1.clone(), self.0.neg())
    }
    pub fn norm(&self) -> H {
        self.0.mul(&self.0).add(&self.1.mul(&self.1))
    }
    pub fn inv(&self) -> Option<Z> {
        let n = self.norm();
        if n.is_zero() {
            return None;
        }
        Some(Z(self.0.div(&n), self.1.neg().div(&n)))
    }
    pub fn div(&self, o: &Z) -> Option<Z> {
        Some(self.mul(&o.inv()?))
    }
    pub fn exp(&self) -> Option<Z> {
        let e = self.0.exp_below(1030.0)?;
        let (s, c) = self.1.sin_cos();
        Some(Z(e.mul(&c), e.mul(&s)))
    }
    pub fn ln(&self) -> Option<Z> {
        let n = self.norm();
        if n.is_zero() {
            return None;
        }
        Some(Z(n.ln().shr(1), H::atan2(&self.1, &self.0)))
    }
    /// The root with a real part that is not negative.
    pub fn sqrt(&self) -> Z {
        let r = self.norm().sqrt();
        let root = |h: H| if h.is_neg() { H::int(0) } else { h.shr(1).sqrt() };
        let (a, b) = (root(r.add(&self.0)), root(r.sub(&self.0)));
        Z(a, if self.1.is_neg() { b.neg() } else { b })
    }
    /// (e^z + sign e^-z) / 2
    fn hyp(&self, sign: bool) -> Option<Z> {
        let (a, b) = (self.exp()?, self.neg().exp()?);
        Some(if sign { a.add(&b) } else { a.sub(&b) }.half())
    }
    /// (1 - q) / (1 + q) with q = e^-2z, which is at most 1
    fn tanh(&self) -> Option<Z> {
        if self.0.is_neg() {
            return Some(self.neg().tanh()?.neg());
        }
        let q = self.add(self).neg().exp()?;
        Z::one().sub(&q).div(&Z::one().add(&q))
    }
    fn asinh(&self) -> Option<Z> {
        self.add(&self.mul(self).add(&Z::one()).sqrt()).ln()
    }
    fn acosh(&self) -> Option<Z> {
        self.add(&self.add(&Z::one()).sqrt().mul(&self.sub(&Z::one()).sqrt())).ln()
    }
    fn atanh(&self) -> Option<Z> {
        Some(Z::one().add(self).ln()?.sub(&Z::one().sub(self).ln()?).half())
    }
    /// 1 / f(z), which is 0 where f(z) is too large
    fn under(f: Option<Z>) -> Option<Z> {
        f.map_or(Some(Z(H::int(0), H::int(0))), |w| w.inv())
    }
}

/// The value of a complex function.
pub fn zvalue(name: &str, z: &Z) -> Option<Z> {
    let asin = |z: &Z| Some(z.turn().asinh()?.turn_back());
    match name {
        "sqrt" => Some(z.sqrt()),
        "exp" => z.exp(),
        "ln" => z.ln(),
        "log" => {
            let w = z.ln()?;
            let ten = H::int(10).ln();
            Some(Z(w.0.div(&ten), w.1.div(&ten)))
        }
        "sin" => Some(z.turn().hyp(false)?.turn_back()),
        "cos" => z.turn().hyp(true),
        "tan" => Some(z.turn().tanh()?.turn_back()),
        "csc" => Z::under(z.turn().hyp(false)).map(|w| w.turn()),
        "sec" => Z::under(z.turn().hyp(true)),
        "cot" => Some(z.turn().tanh()?.inv()?.turn()),
        "sinh" => z.hyp(false),
        "cosh" => z.hyp(true),
        "tanh" => z.tanh(),
        "csch" => Z::under(z.hyp(false)),
        "sech" => Z::under(z.hyp(true)),
        "coth" => z.tanh()?.inv(),
        "asin" => asin(z),
        "acos" => Some(Z(H::pi().shr(1), H::int(0)).sub(&asin(z)?)),
        "atan" => Some(z.turn().atanh()?.turn_back()),
        "asinh" => z.asinh(),
        "acosh" => z.acosh(),
        "atanh" => z.atanh(),
        _ => {
            let of = match name {
                "acsc" => "asin",
                "asec" => "acos",
                "acot" => "atan",
                "acsch" => "asinh",
                "asech" => "acosh",
                "acoth" => "atanh",
                _ => return None,
            };
            zvalue(of, &z.inv()?)
        }
    }
}

/// The value of a decimal function, `None` outside of its domain or if it is enormous.
pub fn value(name: &str, x: &H) -> Option<H> {
    let one = H::int(1);
    let inv = |v: H| if v.is_zero() { None } else { Some(H::int(1).div(&v)) };
    let big = |v: &H| v.abs() > one;
    let hyp = || -> Option<(H, H)> {
        let (a, b) = (x.exp()?, x.neg().exp()?);
        Some((a.sub(&b).shr(1), a.add(&b).shr(1)))
    };
    let sc = || x.rad().sin_cos();
    Some(match name {
        "sin" => sc().0,
        "cos" => sc().1,
        "tan" => {
            let (s, c) = sc();
            s.mul(&inv(c)?)
        }
        "cot" => {
            let (s, c) = sc();
            c.mul(&inv(s)?)
        }
        "csc" => inv(sc().0)?,
        "sec" => inv(sc().1)?,
        "asin" if !big(x) => x.asin().deg(),
        "acos" if !big(x) => x.acos().deg(),
        "atan" => x.atan().deg(),
        "acsc" if x.abs() >= one => inv(x.clone())?.asin().deg(),
        "asec" if x.abs() >= one => inv(x.clone())?.acos().deg(),
        "acot" if x.is_zero() => H::int(90),
        "acot" => inv(x.clone())?.atan().deg(),
        "sinh" => hyp()?.0,
        "cosh" => hyp()?.1,
        "tanh" | "coth" if x.abs() > H::int(150) => H::int(if x.is_neg() { -1 } else { 1 }),
        "tanh" => {
            let (s, c) = hyp()?;
            s.div(&c)
        }
        "csch" => inv(hyp()?.0)?,
        "sech" => inv(hyp()?.1)?,
        "coth" => {
            let (s, c) = hyp()?;
            inv(s.clone())?;
            c.div(&s)
        }
        "asinh" => x.asinh(),
        "acosh" if *x >= one => x.acosh(),
        "atanh" if x.abs() < one => x.atanh(),
        "acsch" => inv(x.clone())?.asinh(),
        "asech" if !x.is_neg() && *x <= one => inv(x.clone())?.acosh(),
        "acoth" if x.abs() > one => inv(x.clone())?.atanh(),
        "sqrt" if !x.is_neg() => x.sqrt(),
        "cbrt" => x.cbrt(),
        "exp" => x.exp()?,
        "ln" if !x.is_neg() && !x.is_zero() => x.ln(),
        "log" if !x.is_neg() && !x.is_zero() => x.ln().div(&H::int(10).ln()),
        "to_radians" => x.rad(),
        "to_degrees" => x.deg(),
        _ => return None,
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn agrees_with_floats() {
        for i in -40..=40 {
            let x = i as f64 / 7.0;
            let h = H::of_f64(x);
            assert!((h.f() - x).abs() < 1e-15);
            let ok = |a: H, b: f64| assert!((a.f() - b).abs() < 1e-12 * (1.0 + b.abs()), "{} {} {}", x, a.f(), b);
            ok(h.exp().unwrap(), x.exp());
            ok(h.sin_cos().0, x.sin());
            ok(h.sin_cos().1, x.cos());
            ok(h.atan(), x.atan());
            ok(h.asinh(), x.asinh());
            ok(h.cbrt(), x.cbrt());
            if i > 0 {
                ok(h.ln(), x.ln());
                ok(h.sqrt(), x.sqrt());
            }
            // identities to 80 digits
            let tiny = H::of_f64(1e-80);
            let (s, c) = h.sin_cos();
            assert!(s.mul(&s).add(&c.mul(&c)).sub(&H::int(1)).abs() < tiny);
            assert!(h.exp().unwrap().ln().sub(&h).abs() < tiny);
            if x.abs() < 1.0 {
                assert!(h.asin().sin_cos().0.sub(&h).abs() < tiny);
            }
        }
        assert!(H::parse("3.14159265358979323846264338327950288419716939937510582").sub(H::pi()).abs() < H::of_f64(1e-50));
    }
}
