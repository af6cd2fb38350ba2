//! exact rationals: machine integers where they fit
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, PartialEq, Eq, Hash)]
enum R {
    /// reduced, positive denominator
    S(i64, i64),
    /// only values that do not fit
    B(Box<BigRational>),
}
use R::{B, S};

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Q(R);

fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        if (a | b) >> 64 == 0 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return x as u128;
        }
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn norm(n: i128, d: i128) -> Q {
    debug_assert!(d != 0);
    if n == 0 {
        return Q(S(0, 1));
    }
    let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
    let g = if d == 1 { 1 } else { gcd(n.unsigned_abs(), d as u128) as i128 };
    let (n, d) = (n / g, d / g);
    if n >= -(i64::MAX as i128) && n <= i64::MAX as i128 && d <= i64::MAX as i128 {
        Q(S(n as i64, d as i64))
    } else {
        Q(B(Box::new(BigRational::new_raw(BigInt::from(n), BigInt::from(d)))))
    }
}

fn big(r: BigRational) -> Q {
    if let (Some(n), Some(d)) = (r.numer().to_i64(), r.denom().to_i64()) {
        if n != i64::MIN {
            return Q(S(n, d));
        }
    }
    Q(B(Box::new(r)))
}

impl Q {
    fn br(&self) -> BigRational {
        match &self.0 {
            S(n, d) => BigRational::new_raw(BigInt::from(*n), BigInt::from(*d)),
            B(b) => (**b).clone(),
        }
    }
    pub fn new(n: BigInt, d: BigInt) -> Q {
        big(BigRational::new(n, d))
    }
    pub fn from_integer(n: BigInt) -> Q {
        match n.to_i64() {
            Some(i) if i != i64::MIN => Q(S(i, 1)),
            _ => Q(B(Box::new(BigRational::from_integer(n)))),
        }
    }
    pub fn int(i: i64) -> Q {
        norm(i as i128, 1)
    }
    pub fn from_float(f: f64) -> Option<Q> {
        if f.fract() == 0.0 && f.abs() < 9e15 {
            return Some(Q(S(f as i64, 1)));
        }
        BigRational::from_float(f).map(big)
    }
    pub fn numer(&self) -> BigInt {
        match &self.0 {
            S(n, _) => BigInt::from(*n),
            B(b) => b.numer().clone(),
        }
    }
    pub fn denom(&self) -> BigInt {
        match &self.0 {
            S(_, d) => BigInt::from(*d),
            B(b) => b.denom().clone(),
        }
    }
    /// numerator and denominator when small
    pub fn small(&self) -> Option<(i64, i64)> {
        match &self.0 {
            S(n, d) => Some((*n, *d)),
            _ => None,
        }
    }
    pub fn zero() -> Q {
        Q(S(0, 1))
    }
    pub fn one() -> Q {
        Q(S(1, 1))
    }
    pub fn is_zero(&self) -> bool {
        matches!(self.0, S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self.0, S(1, 1))
    }
    pub fn is_negative(&self) -> bool {
        match &self.0 {
            S(n, _) => *n < 0,
            B(b) => b.is_negative(),
        }
    }
    pub fn is_positive(&self) -> bool {
        !self.is_negative() && !self.is_zero()
    }
    pub fn is_integer(&self) -> bool {
        match &self.0 {
            S(_, d) => *d == 1,
            B(b) => b.is_integer(),
        }
    }
    pub fn abs(&self) -> Q {
        if self.is_negative() {
            -self
        } else {
            self.clone()
        }
    }
    pub fn floor(&self) -> Q {
        match &self.0 {
            S(n, d) => Q(S(n.div_euclid(*d), 1)),
            B(b) => big(b.floor()),
        }
    }
    pub fn ceil(&self) -> Q {
        -((-self).floor())
    }
    pub fn round(&self) -> Q {
        big(self.br().round())
    }
    pub fn to_integer(&self) -> BigInt {
        self.br().to_integer()
    }
}

impl Default for Q {
    fn default() -> Q {
        Q::zero()
    }
}

impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match &self.0 {
            S(n, 1) => write!(f, "{}", n),
            S(n, d) => write!(f, "{}/{}", n, d),
            B(b) => write!(f, "{}", b),
        }
    }
}
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self)
    }
}

fn add(a: &Q, b: &Q, sub: bool) -> Q {
    if let (S(n, d), S(m, e)) = (&a.0, &b.0) {
        let m = if sub { -(*m as i128) } else { *m as i128 };
        if d == e {
            return norm(*n as i128 + m, *d as i128);
        }
        let (n, d, e) = (*n as i128, *d as i128, *e as i128);
        if let Some(x) = (n * e).checked_add(m * d) {
            return norm(x, d * e);
        }
    }
    big(if sub { a.br() - b.br() } else { a.br() + b.br() })
}
fn mul(a: &Q, b: &Q) -> Q {
    if let (S(n, d), S(m, e)) = (&a.0, &b.0) {
        return norm(*n as i128 * *m as i128, *d as i128 * *e as i128);
    }
    big(a.br() * b.br())
}
fn div(a: &Q, b: &Q) -> Q {
    if let (S(n, d), S(m, e)) = (&a.0, &b.0) {
        if *m == 0 {
            panic!("ENGINE: division by zero");
        }
        return norm(*n as i128 * *e as i128, *d as i128 * *m as i128);
    }
    big(a.br() / b.br())
}

macro_rules! op {
    ($t:ident, $f:ident, $g:expr) => {
        impl $t<Q> for Q {
            type Output = Q;
            fn $f(self, o: Q) -> Q {
                $g(&self, &o)
            }
        }
        impl<'a> $t<&'a Q> for Q {
            type Output = Q;
            fn $f(self, o: &Q) -> Q {
                $g(&self, o)
            }
        }
        impl<'a> $t<Q> for &'a Q {
            type Output = Q;
            fn $f(self, o: Q) -> Q {
                $g(self, &o)
            }
        }
        impl<'a, 'b> $t<&'b Q> for &'a Q {
            type Output = Q;
            fn $f(self, o: &Q) -> Q {
                $g(self, o)
            }
        }
    };
}
op!(Add, add, |a: &Q, b: &Q| add(a, b, false));
op!(Sub, sub, |a: &Q, b: &Q| add(a, b, true));
op!(Mul, mul, mul);
op!(Div, div, div);

macro_rules! opa {
    ($t:ident, $f:ident, $g:expr) => {
        impl $t<Q> for Q {
            fn $f(&mut self, o: Q) {
                *self = $g(self, &o)
            }
        }
        impl<'a> $t<&'a Q> for Q {
            fn $f(&mut self, o: &Q) {
                *self = $g(self, o)
            }
        }
    };
}
opa!(AddAssign, add_assign, |a: &Q, b: &Q| add(a, b, false));
opa!(SubAssign, sub_assign, |a: &Q, b: &Q| add(a, b, true));
opa!(MulAssign, mul_assign, mul);
opa!(DivAssign, div_assign, div);

impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        -&self
    }
}
impl<'a> Neg for &'a Q {
    type Output = Q;
    fn neg(self) -> Q {
        match &self.0 {
            S(n, d) => Q(S(-*n, *d)),
            B(b) => big(-(**b).clone()),
        }
    }
}

impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        match (&self.0, &o.0) {
            (S(n, d), S(m, e)) => {
                if d == e {
                    n.cmp(m)
                } else {
                    (*n as i128 * *e as i128).cmp(&(*m as i128 * *d as i128))
                }
            }
            _ => self.br().cmp(&o.br()),
        }
    }
}
