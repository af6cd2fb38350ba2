//! Symbolic stand-in for `f64` (type `S`), the collections shim and the path explorer.
pub mod collections;
pub mod engine;
pub mod poly;
pub mod q;

use engine::*;
use num::{One, Signed, Zero};
use poly::*;
use std::cmp::Ordering;
use std::ops::*;

pub use engine::{active, choose, reached};

#[derive(Clone, Copy)]
pub enum S {
    C(f64),
    E(u32),
}
use S::*;

impl Default for S {
    fn default() -> S {
        C(0.0)
    }
}

pub const fn lit(x: f64) -> S {
    S::C(x)
}

/// hash words with this top bit pattern denote expression ids
pub const TOKEN: u64 = 0xA5A5_5A5A_0000_0000;
pub fn is_token(w: u64) -> Option<u32> {
    if w & 0xFFFF_FFFF_0000_0000 == TOKEN {
        Some(w as u32)
    } else {
        None
    }
}
/// token for the bits/decode of a value in symbolic mode
fn token(s: S) -> u64 {
    let id = match s {
        E(i) => i,
        C(f) => {
            ARENA.with(|a| {
                let a = &mut *a.borrow_mut();
                if let Some(&i) = a.bits_ids.get(&f.to_bits()) {
                    return i;
                }
                let i = a.nodes.len() as u32;
                a.nodes.push(Node::Bits(f.to_bits()));
                a.bits_ids.insert(f.to_bits(), i);
                i
            })
        }
    };
    TOKEN | id as u64
}
/// value behind a hash token
pub fn token_value(id: u32) -> S {
    ARENA.with(|a| match &a.borrow().nodes[id as usize] {
        Node::Bits(b) => C(f64::from_bits(*b)),
        _ => E(id),
    })
}

pub(crate) fn node(id: u32) -> Node {
    ARENA.with(|a| a.borrow().nodes[id as usize].clone())
}

fn rat(s: S) -> RatExpr {
    match s {
        C(f) => {
            if !f.is_finite() {
                unsupported("rational of a non-finite constant");
            }
            let num = ARENA.with(|a| a.borrow_mut().poly(Poly::constant(qf(f))));
            RatExpr { num, den: vec![], exact: true }
        }
        E(id) => match node(id) {
            Node::Rat(r) => r,
            Node::Bits(b) => rat(C(f64::from_bits(b))),
            Node::Ang { .. } => unsupported("arithmetic on an angle"),
        },
    }
}

/// the nearest float of an expression without variables
fn const_f64(s: S) -> Option<f64> {
    match s {
        C(f) => Some(f),
        E(id) => match node(id) {
            Node::Rat(r) if r.den.is_empty() => ARENA.with(|a| a.borrow().p(r.num).as_const()).map(|c| poly::qtof(&c)),
            Node::Bits(b) => Some(f64::from_bits(b)),
            _ => None,
        },
    }
}

pub fn mk(a: &mut Arena, mut r: RatExpr) -> S {
    let p = a.p(r.num);
    if p.is_zero() {
        return C(0.0);
    }
    // cancel denominator factors
    if !r.den.is_empty() {
        let mut num = (*p).clone();
        let mut den = vec![];
        for (f, e) in r.den.clone() {
            let fp = a.p(f);
            let mut e = e;
            while e > 0 {
                match num.div_exact(&fp) {
                    Some(q) => {
                        num = q;
                        e -= 1;
                    }
                    None => break,
                }
            }
            if e > 0 {
                den.push((f, e));
            }
        }
        r.num = a.poly(num);
        r.den = den;
        r.den.sort();
    }
    let p = a.p(r.num);
    if r.den.is_empty() {
        if let Some(c) = p.as_const() {
            let f = qtof(&c);
            if f.is_finite() && qf(f) == c {
                return C(f);
            }
        }
    }
    if r.exact {
        r.exact = r.den.is_empty() && a.f64_exact(r.num);
    }
    // one node per value: the exactness flag is kept out of the identity
    let key = RatExpr { num: r.num, den: r.den.clone(), exact: true };
    if let Some(&i) = a.rat_ids.get(&key) {
        if !r.exact {
            if let Node::Rat(x) = &mut a.nodes[i as usize] {
                x.exact = false;
            }
        }
        return E(i);
    }
    let i = a.nodes.len() as u32;
    a.nodes.push(Node::Rat(r));
    a.rat_ids.insert(key, i);
    E(i)
}

fn mk_ang(off: f64, coef: f64, c: S) -> S {
    if let C(x) = c {
        if x.is_nan() {
            return C(f64::NAN);
        }
    }
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        let cid = match c {
            E(i) => i,
            C(f) => {
                let num = a.poly(Poly::constant(qf(f)));
                // force a node even though it is constant
                let key = RatExpr { num, den: vec![], exact: true };
                match a.rat_ids.get(&key) {
                    Some(&i) => i,
                    None => {
                        let i = a.nodes.len() as u32;
                        a.nodes.push(Node::Rat(key.clone()));
                        a.rat_ids.insert(key, i);
                        i
                    }
                }
            }
        };
        let k = (off.to_bits(), coef.to_bits(), cid);
        if let Some(&i) = a.ang_ids.get(&k) {
            return E(i);
        }
        let i = a.nodes.len() as u32;
        a.nodes.push(Node::Ang { off, coef, c: cid });
        a.ang_ids.insert(k, i);
        E(i)
    })
}

fn ang(s: S) -> Option<(f64, f64, S)> {
    if let E(i) = s {
        if let Node::Ang { off, coef, c } = node(i) {
            let cs = match node(c) {
                Node::Rat(r) => ARENA.with(|a| mk(&mut a.borrow_mut(), r)),
                _ => E(c),
            };
            return Some((off, coef, cs));
        }
    }
    None
}

fn lcm_den(x: &[(PolyId, u8)], y: &[(PolyId, u8)]) -> Vec<(PolyId, u8)> {
    let mut r = x.to_vec();
    for &(f, e) in y {
        match r.iter_mut().find(|t| t.0 == f) {
            Some(t) => t.1 = t.1.max(e),
            None => r.push((f, e)),
        }
    }
    r
}
fn cofactor(a: &mut Arena, l: &[(PolyId, u8)], d: &[(PolyId, u8)]) -> PolyId {
    let mut p = a.poly(Poly::constant(Q::one()));
    for &(f, e) in l {
        let have = d.iter().find(|t| t.0 == f).map_or(0, |t| t.1);
        for _ in have..e {
            p = a.mulp(p, f);
        }
    }
    p
}

fn radd(x: &RatExpr, y: &RatExpr, neg: bool) -> S {
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        let l = lcm_den(&x.den, &y.den);
        let (cx, cy) = (cofactor(a, &l, &x.den), cofactor(a, &l, &y.den));
        let nx = a.mulp(x.num, cx);
        let ny = a.mulp(y.num, cy);
        let n = if neg { a.p(nx).sub(&a.p(ny)) } else { a.p(nx).add(&a.p(ny)) };
        let num = a.poly(n);
        mk(a, RatExpr { num, den: l, exact: x.exact && y.exact })
    })
}
fn rmul(x: &RatExpr, y: &RatExpr) -> S {
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        let num = a.mulp(x.num, y.num);
        let mut den = x.den.clone();
        for &(f, e) in &y.den {
            match den.iter_mut().find(|t| t.0 == f) {
                Some(t) => t.1 += e,
                None => den.push((f, e)),
            }
        }
        // even powers of a square-root variable in the denominator become its radicand
        let mut out: Vec<(PolyId, u8)> = vec![];
        let mut num = num;
        for (f, e) in den {
            let fp = a.p(f);
            let sq = if e >= 2 && fp.t.len() == 1 {
                a.sqrt_vars.iter().cloned().find(|&v| *fp == Poly::var(v))
            } else {
                None
            };
            match sq {
                Some(v) => {
                    let rad = a.vars[v].sqrt_of.unwrap();
                    if let Some(c) = a.p(rad).as_const() {
                        for _ in 0..e / 2 {
                            let n = a.p(num).scale(&(Q::one() / &c));
                            num = a.poly(n);
                        }
                    } else {
                        let k = add_factor(a, &mut out, rad, e / 2);
                        let n = a.p(num).scale(&k);
                        num = a.poly(n);
                    }
                    if e % 2 == 1 {
                        add_raw(&mut out, f, 1);
                    }
                }
                None => add_raw(&mut out, f, e),
            }
        }
        mk(a, RatExpr { num, den: out, exact: x.exact && y.exact })
    })
}
fn add_raw(out: &mut Vec<(PolyId, u8)>, f: PolyId, e: u8) {
    match out.iter_mut().find(|t| t.0 == f) {
        Some(t) => t.1 += e,
        None => out.push((f, e)),
    }
}
/// add polynomial p^e as a primitive factor; returns the scalar the numerator must be multiplied with
fn add_factor(a: &mut Arena, out: &mut Vec<(PolyId, u8)>, p: PolyId, e: u8) -> Q {
    let (q, _) = a.primitive(p);
    // p = k * q
    let (pp, qq) = (a.p(p), a.p(q));
    let k = &pp.t.last().unwrap().1 / &qq.t.last().unwrap().1;
    let mut s = Q::one();
    for _ in 0..e {
        s /= &k;
    }
    add_raw(out, q, e);
    s
}

fn rdiv(x: &RatExpr, y: &RatExpr) -> S {
    // y is known to be non-zero
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        // x / y = x.num * y.den / (x.den * y.num)
        let mut num = x.num;
        for &(f, e) in &y.den {
            for _ in 0..e {
                num = a.mulp(num, f);
            }
        }
        let mut den = x.den.clone();
        if let Some(c) = a.p(y.num).as_const() {
            let n = a.p(num).scale(&(Q::one() / c));
            num = a.poly(n);
        } else {
            let k = add_factor(a, &mut den, y.num, 1);
            let n = a.p(num).scale(&k);
            num = a.poly(n);
        }
        let ex = x.exact && y.exact;
        let r = RatExpr { num, den, exact: ex };
        // normalise sqrt powers through multiplication by one
        let one = RatExpr { num: a.poly(Poly::constant(Q::one())), den: vec![], exact: true };
        Some((r, one))
    })
    .map(|(r, one)| rmul(&r, &one))
    .unwrap()
}

pub(crate) fn sign_in(s: S, want: u8) -> bool {
    match s {
        C(f) => {
            let m = if f > 0.0 {
                POS
            } else if f < 0.0 {
                NEG
            } else if f == 0.0 {
                ZERO
            } else {
                0
            };
            m & want != 0
        }
        E(id) => match node(id) {
            Node::Rat(r) => {
                if !r.exact {
                    count_inexact();
                }
                decide_rat(r.num, &r.den, want)
            }
            Node::Ang { .. } => {
                let a = S::E(id);
                if want & POS != 0 && want & ZERO != 0 {
                    return true; // angles are >= 0
                }
                match cmp(a, C(0.0)) {
                    Some(Ordering::Greater) => want & POS != 0,
                    Some(Ordering::Equal) => want & ZERO != 0,
                    _ => want & NEG != 0,
                }
            }
            Node::Bits(b) => sign_in(C(f64::from_bits(b)), want),
        },
    }
}
fn count_inexact() {
    if active() {
        with_session(|s| s.shared.stats.inexact_cmp.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    }
}

fn diff(a: S, b: S) -> S {
    sub(a, b)
}

fn rel(a: S, b: S, want: u8) -> bool {
    match (a, b) {
        (C(x), C(y)) => match x.partial_cmp(&y) {
            None => false,
            Some(Ordering::Less) => want & NEG != 0,
            Some(Ordering::Equal) => want & ZERO != 0,
            Some(Ordering::Greater) => want & POS != 0,
        },
        (C(x), E(_)) if !x.is_finite() => {
            if x.is_nan() {
                false
            } else {
                want & (if x > 0.0 { POS } else { NEG }) != 0
            }
        }
        (E(_), C(y)) if !y.is_finite() => {
            if y.is_nan() {
                false
            } else {
                want & (if y > 0.0 { NEG } else { POS }) != 0
            }
        }
        _ => {
            if let (E(x), E(y)) = (a, b) {
                if x == y {
                    return want & ZERO != 0;
                }
            }
            if ang(a).is_some() || ang(b).is_some() {
                return rel_ang(a, b, want);
            }
            sign_in(diff(a, b), want)
        }
    }
}

fn rel_ang(a: S, b: S, want: u8) -> bool {
    use std::f64::consts::PI;
    let upper = |o: f64, k: f64| o == 2.0 * PI && k == -1.0;
    let lower = |o: f64, k: f64| o == 0.0 && k == 1.0;
    match (ang(a), ang(b)) {
        (Some((o1, k1, c1)), Some((o2, k2, c2))) => {
            if lower(o1, k1) && lower(o2, k2) {
                rel(c2, c1, want)
            } else if upper(o1, k1) && upper(o2, k2) {
                rel(c1, c2, want)
            } else if lower(o1, k1) && upper(o2, k2) {
                // <= always; equal iff both are pi
                if want & (NEG | ZERO) == (NEG | ZERO) {
                    return true;
                }
                let eq = rel(c1, C(-1.0), ZERO) && rel(c2, C(-1.0), ZERO);
                if eq {
                    want & ZERO != 0
                } else {
                    want & NEG != 0
                }
            } else if upper(o1, k1) && lower(o2, k2) {
                rel_ang(b, a, flip_mask(want))
            } else {
                unsupported("comparison of transformed angles")
            }
        }
        (Some((o, k, c)), None) => {
            let t = match b {
                C(f) => f,
                E(_) => unsupported("angle compared with a symbolic value"),
            };
            // off + coef*acos(c)  ?  t
            let th = (t - o) / k; // acos(c) ? th, flipped when k<0
            let want = if k < 0.0 { flip_mask(want) } else { want };
            if th < 0.0 {
                want & POS != 0
            } else if th > PI {
                want & NEG != 0
            } else {
                let ct = if th == 0.0 {
                    1.0
                } else if th == PI {
                    -1.0
                } else if th == PI / 2.0 {
                    0.0
                } else {
                    th.cos()
                };
                rel(C(ct), c, want)
            }
        }
        (None, Some(_)) => rel_ang(b, a, flip_mask(want)),
        _ => unreachable!(),
    }
}

pub fn cmp(a: S, b: S) -> Option<Ordering> {
    match (a, b) {
        (C(x), C(y)) => x.partial_cmp(&y),
        (C(x), _) if x.is_nan() => None,
        (_, C(y)) if y.is_nan() => None,
        _ => {
            if rel(a, b, NEG) {
                Some(Ordering::Less)
            } else if rel(a, b, POS) {
                Some(Ordering::Greater)
            } else {
                Some(Ordering::Equal)
            }
        }
    }
}

impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        rel(*self, *o, ZERO)
    }
}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<Ordering> {
        cmp(*self, *o)
    }
    fn lt(&self, o: &S) -> bool {
        rel(*self, *o, NEG)
    }
    fn le(&self, o: &S) -> bool {
        rel(*self, *o, NEG | ZERO)
    }
    fn gt(&self, o: &S) -> bool {
        rel(*self, *o, POS)
    }
    fn ge(&self, o: &S) -> bool {
        rel(*self, *o, POS | ZERO)
    }
}

fn memo(op: u8, a: S, b: S, f: impl FnOnce() -> S) -> S {
    if let (E(x), E(y)) = (a, b) {
        if let Some(r) = ARENA.with(|ar| ar.borrow().memo.get(&(op, x, y)).cloned()) {
            return r;
        }
        let r = f();
        ARENA.with(|ar| ar.borrow_mut().memo.insert((op, x, y), r));
        r
    } else {
        f()
    }
}

fn add(a: S, b: S) -> S {
    match (a, b) {
        (C(x), C(y)) => C(x + y),
        (C(x), o) | (o, C(x)) if !x.is_finite() => {
            let _ = o;
            C(x)
        }
        (C(x), o) | (o, C(x)) if x == 0.0 => o,
        _ => {
            for (p, q) in [(a, b), (b, a)] {
                if let Some((o, k, c)) = ang(p) {
                    return match q {
                        C(f) => mk_ang(o + f, k, c),
                        _ => unsupported("sum of angles"),
                    };
                }
            }
            memo(0, a, b, || radd(&rat(a), &rat(b), false))
        }
    }
}
fn sub(a: S, b: S) -> S {
    match (a, b) {
        (C(x), C(y)) => C(x - y),
        (C(x), _) if !x.is_finite() => C(x),
        (_, C(y)) if !y.is_finite() => C(-y),
        (o, C(y)) if y == 0.0 => o,
        _ => {
            if let Some((o, k, c)) = ang(b) {
                return match a {
                    C(f) => mk_ang(f - o, -k, c),
                    _ => unsupported("difference of angles"),
                };
            }
            if let Some((o, k, c)) = ang(a) {
                return match b {
                    C(f) => mk_ang(o - f, k, c),
                    _ => unsupported("difference of angles"),
                };
            }
            memo(1, a, b, || radd(&rat(a), &rat(b), true))
        }
    }
}
fn mul(a: S, b: S) -> S {
    match (a, b) {
        (C(x), C(y)) => C(x * y),
        (C(x), o) | (o, C(x)) if !x.is_finite() => {
            if x.is_nan() {
                C(x)
            } else if sign_in(o, POS) {
                C(x)
            } else if sign_in(o, NEG) {
                C(-x)
            } else {
                C(f64::NAN)
            }
        }
        (C(x), _) | (_, C(x)) if x == 0.0 => C(0.0),
        (C(x), o) | (o, C(x)) if x == 1.0 => o,
        _ => {
            for (p, q) in [(a, b), (b, a)] {
                if let Some((o, k, c)) = ang(p) {
                    return match q {
                        C(f) => mk_ang(o * f, k * f, c),
                        _ => unsupported("product of angles"),
                    };
                }
            }
            memo(2, a, b, || rmul(&rat(a), &rat(b)))
        }
    }
}
fn div(a: S, b: S) -> S {
    match (a, b) {
        (C(x), C(y)) => {
            let r = x / y;
            if active() && r.is_finite() && x.is_finite() && y.is_finite() && y != 0.0 {
                let (qx, qy) = (qf(x), qf(y));
                if qf(r) * &qy != qx {
                    return ARENA.with(|ar| {
                        let ar = &mut *ar.borrow_mut();
                        let num = ar.poly(Poly::constant(qx / qy));
                        mk(ar, RatExpr { num, den: vec![], exact: false })
                    });
                }
            }
            C(r)
        }
        (_, C(y)) if !y.is_finite() => {
            if y.is_nan() {
                C(y)
            } else {
                C(0.0)
            }
        }
        (C(x), _) if !x.is_finite() => {
            if x.is_nan() {
                C(x)
            } else if sign_in(b, NEG) {
                C(-x)
            } else {
                C(x)
            }
        }
        (o, C(y)) if y != 0.0 => {
            if let Some((of, k, c)) = ang(o) {
                return mk_ang(of / y, k / y, c);
            }
            rdiv(&rat(a), &rat(b))
        }
        _ => {
            if sign_in(b, ZERO) {
                if sign_in(a, POS) {
                    return C(f64::INFINITY);
                } else if sign_in(a, NEG) {
                    return C(f64::NEG_INFINITY);
                }
                return C(f64::NAN);
            }
            if let C(x) = a {
                if x == 0.0 {
                    return C(0.0);
                }
            }
            rdiv(&rat(a), &rat(b))
        }
    }
}
fn rem(a: S, b: S) -> S {
    match (a, b) {
        (C(x), C(y)) => C(x % y),
        _ => unsupported("remainder of a symbolic value"),
    }
}
fn neg(a: S) -> S {
    match a {
        C(x) => C(-x),
        E(_) => sub(C(0.0), a),
    }
}

macro_rules! bin {
    ($tr:ident, $f:ident, $as:ident, $fa:ident, $imp:ident) => {
        impl $tr<S> for S {
            type Output = S;
            fn $f(self, o: S) -> S {
                $imp(self, o)
            }
        }
        impl<'a> $tr<&'a S> for S {
            type Output = S;
            fn $f(self, o: &'a S) -> S {
                $imp(self, *o)
            }
        }
        impl<'a> $tr<S> for &'a S {
            type Output = S;
            fn $f(self, o: S) -> S {
                $imp(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b S> for &'a S {
            type Output = S;
            fn $f(self, o: &'b S) -> S {
                $imp(*self, *o)
            }
        }
        impl $as<S> for S {
            fn $fa(&mut self, o: S) {
                *self = $imp(*self, o)
            }
        }
        impl<'a> $as<&'a S> for S {
            fn $fa(&mut self, o: &'a S) {
                *self = $imp(*self, *o)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, add);
bin!(Sub, sub, SubAssign, sub_assign, sub);
bin!(Mul, mul, MulAssign, mul_assign, mul);
bin!(Div, div, DivAssign, div_assign, div);
bin!(Rem, rem, RemAssign, rem_assign, rem);
impl Neg for S {
    type Output = S;
    fn neg(self) -> S {
        neg(self)
    }
}
impl<'a> Neg for &'a S {
    type Output = S;
    fn neg(self) -> S {
        neg(*self)
    }
}
impl std::iter::Sum for S {
    fn sum<I: Iterator<Item = S>>(it: I) -> S {
        it.fold(C(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a S> for S {
    fn sum<I: Iterator<Item = &'a S>>(it: I) -> S {
        it.fold(C(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for S {
    fn product<I: Iterator<Item = S>>(it: I) -> S {
        it.fold(C(1.0), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a S> for S {
    fn product<I: Iterator<Item = &'a S>>(it: I) -> S {
        it.fold(C(1.0), |a, b| a * *b)
    }
}

impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            C(x) => std::fmt::Display::fmt(x, f),
            E(i) => write!(f, "<e{}>", i),
        }
    }
}
impl std::fmt::Debug for S {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            C(x) => std::fmt::Debug::fmt(x, f),
            E(i) => write!(f, "<e{}>", i),
        }
    }
}
impl std::fmt::LowerExp for S {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            C(x) => std::fmt::LowerExp::fmt(x, f),
            E(i) => write!(f, "<e{}>", i),
        }
    }
}
impl std::str::FromStr for S {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<S, Self::Err> {
        s.parse::<f64>().map(C)
    }
}
macro_rules! from {
    ($($t:ty),*) => { $(impl From<$t> for S { fn from(x: $t) -> S { C(x as f64) } })* };
}
from!(f64, f32, i8, i16, i32, u8, u16, u32);

impl serde::Serialize for S {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            C(f) => z.serialize_f64(*f),
            E(_) => unsupported("serialising a symbolic value"),
        }
    }
}
impl<'de> serde::Deserialize<'de> for S {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<S, D::Error> {
        <f64 as serde::Deserialize>::deserialize(d).map(C)
    }
}

macro_rules! conly {
    ($($name:ident),*) => { $(pub fn $name(self) -> S { match self { C(f) => C(f.$name()), E(_) => unsupported(concat!("f64::", stringify!($name), " of a symbolic value")) } })* };
}
macro_rules! conly1 {
    ($($name:ident),*) => { $(pub fn $name(self, o: S) -> S { match (self, o) { (C(f), C(g)) => C(f.$name(g)), _ => unsupported(concat!("f64::", stringify!($name), " of a symbolic value")) } })* };
}

impl S {
    pub const EPSILON: S = C(f64::EPSILON);
    pub const MAX: S = C(f64::MAX);
    pub const MIN: S = C(f64::MIN);
    pub const MIN_POSITIVE: S = C(f64::MIN_POSITIVE);
    pub const INFINITY: S = C(f64::INFINITY);
    pub const NEG_INFINITY: S = C(f64::NEG_INFINITY);
    pub const NAN: S = C(f64::NAN);
    pub const DIGITS: u32 = f64::DIGITS;
    pub const MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS;
    pub const RADIX: u32 = f64::RADIX;

    conly!(floor, ceil, round, trunc, fract, exp, exp2, ln, log10, log2, cbrt, sinh, cosh, tanh, asinh, acosh, atanh, exp_m1, ln_1p);
    conly1!(atan2, rem_euclid, div_euclid, log, copysign);

    pub fn abs(self) -> S {
        match self {
            C(f) => C(f.abs()),
            E(_) => {
                if sign_in(self, NEG) {
                    neg(self)
                } else {
                    self
                }
            }
        }
    }
    pub fn signum(self) -> S {
        match self {
            C(f) => C(f.signum()),
            E(_) => {
                if sign_in(self, NEG) {
                    C(-1.0)
                } else {
                    C(1.0)
                }
            }
        }
    }
    pub fn powi(self, n: i32) -> S {
        match self {
            C(f) => C(f.powi(n)),
            E(_) => {
                if n == 0 {
                    return C(1.0);
                }
                let mut r = self;
                for _ in 1..n.abs() {
                    r = r * self;
                }
                if n < 0 {
                    C(1.0) / r
                } else {
                    r
                }
            }
        }
    }
    pub fn powf(self, n: S) -> S {
        match (self, n) {
            (C(f), C(g)) => C(f.powf(g)),
            (E(_), C(g)) if g.fract() == 0.0 && g.abs() < 64.0 => self.powi(g as i32),
            (E(_), C(g)) if g == 0.5 => self.sqrt(),
            _ => unsupported("powf"),
        }
    }
    pub fn sqrt(self) -> S {
        match self {
            C(f) => {
                let r = f.sqrt();
                if !active() || !r.is_finite() {
                    return C(r);
                }
                if qf(r) * qf(r) == qf(f) {
                    return C(r);
                }
                let x = rat(self);
                self.sqrt_rat(x)
            }
            E(_) => {
                let x = rat(self);
                if sign_in(self, NEG) {
                    return C(f64::NAN);
                }
                self.sqrt_rat(x)
            }
        }
    }
    fn sqrt_rat(self, x: RatExpr) -> S {
        // sqrt(num / prod f^e) = sqrt(num * prod_{e odd} f) / prod |f|^ceil(e/2)
        let mut signs = vec![];
        for &(f, e) in &x.den {
            let k = (e + 1) / 2;
            if k % 2 == 1 {
                signs.push(sign3_poly(f, ALL) == NEG);
            } else {
                signs.push(false);
            }
        }
        let r = ARENA.with(|a| {
            let a = &mut *a.borrow_mut();
            let mut num = x.num;
            let mut den = vec![];
            let mut sg = Q::one();
            for (i, &(f, e)) in x.den.iter().enumerate() {
                if e % 2 == 1 {
                    num = a.mulp(num, f);
                }
                den.push((f, (e + 1) / 2));
                if signs[i] {
                    sg = -sg;
                }
            }
            if a.p(num).is_zero() {
                return None;
            }
            // constant perfect squares
            if let Some(c) = a.p(num).as_const() {
                let (n, d) = (c.numer().clone(), c.denom().clone());
                if !n.is_negative() {
                    let (rn, rd) = (n.sqrt(), d.sqrt());
                    if &rn * &rn == n && &rd * &rd == d {
                        let k = a.poly(Poly::constant(Q::new(rn, rd) * sg));
                        return Some(RatExpr { num: k, den, exact: false });
                    }
                }
            }
            // pull out rational content that is a perfect square
            let (prim, _) = a.primitive(num);
            let k = &a.p(num).t.last().unwrap().1 / &a.p(prim).t.last().unwrap().1;
            let (mut scale, mut rad) = (Q::one(), num);
            if k.is_positive() {
                let (n, d) = (k.numer().clone(), k.denom().clone());
                // k = n/d = n*d/d^2
                let nd = n * &d;
                let r = nd.sqrt();
                if &r * &r == nd {
                    scale = Q::new(r, d);
                    rad = prim;
                }
            }
            let v = match a.sqrt_by_poly.get(&rad) {
                Some(&v) => v,
                None => {
                    let v = a.vars.len();
                    if v >= MAXV {
                        return Some(RatExpr { num: u32::MAX, den: vec![], exact: false });
                    }
                    a.vars.push(Var { name: format!("sqrt#{}", v), lo: Some(Q::zero()), hi: None, gran: None, sqrt_of: Some(rad) });
                    a.sqrt_vars.push(v);
                    a.sqrt_by_poly.insert(rad, v);
                    v
                }
            };
            let num = a.poly(Poly::var(v).scale(&(scale * sg)));
            Some(RatExpr { num, den, exact: false })
        });
        match r {
            None => C(0.0),
            Some(r) if r.num == u32::MAX => unsupported("too many square roots"),
            Some(r) => {
                let one = RatExpr { num: ARENA.with(|a| a.borrow_mut().poly(Poly::constant(Q::one()))), den: vec![], exact: true };
                rmul(&r, &one)
            }
        }
    }
    pub fn hypot(self, o: S) -> S {
        match (self, o) {
            (C(f), C(g)) if !active() => C(f.hypot(g)),
            _ => (self * self + o * o).sqrt(),
        }
    }
    pub fn mul_add(self, a: S, b: S) -> S {
        match (self, a, b) {
            (C(x), C(y), C(z)) => C(x.mul_add(y, z)),
            _ => self * a + b,
        }
    }
    pub fn recip(self) -> S {
        C(1.0) / self
    }
    pub fn min(self, o: S) -> S {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if rel(o, self, NEG) {
            o
        } else {
            self
        }
    }
    pub fn max(self, o: S) -> S {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if rel(o, self, POS) {
            o
        } else {
            self
        }
    }
    pub fn clamp(self, lo: S, hi: S) -> S {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn abs_sub(self, o: S) -> S {
        (self - o).max(C(0.0))
    }
    pub fn is_nan(self) -> bool {
        matches!(self, C(f) if f.is_nan())
    }
    pub fn is_infinite(self) -> bool {
        matches!(self, C(f) if f.is_infinite())
    }
    pub fn is_finite(self) -> bool {
        match self {
            C(f) => f.is_finite(),
            E(_) => true,
        }
    }
    pub fn is_normal(self) -> bool {
        match self {
            C(f) => f.is_normal(),
            E(_) => !sign_in(self, ZERO),
        }
    }
    pub fn is_sign_negative(self) -> bool {
        match self {
            C(f) => f.is_sign_negative(),
            E(_) => sign_in(self, NEG),
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn total_cmp(&self, o: &S) -> Ordering {
        match (self, o) {
            (C(a), C(b)) => a.total_cmp(b),
            _ => cmp(*self, *o).unwrap(),
        }
    }
    pub fn to_bits(self) -> u64 {
        match self {
            C(f) if !active() => f.to_bits(),
            _ => token(self),
        }
    }
    pub fn from_bits(b: u64) -> S {
        if active() {
            if let Some(i) = is_token(b) {
                return token_value(i);
            }
        }
        C(f64::from_bits(b))
    }
    pub fn acos(self) -> S {
        match self {
            C(f) => {
                if !active() || f.is_nan() || f == 1.0 || f == -1.0 {
                    return C(f.acos());
                }
                mk_ang(0.0, 1.0, self)
            }
            E(_) => mk_ang(0.0, 1.0, self),
        }
    }
    pub fn cos(self) -> S {
        match (self, ang(self)) {
            (C(f), _) => C(f.cos()),
            (_, Some((o, k, c))) if o == 0.0 && k.abs() == 1.0 => c,
            (_, Some((o, k, c))) if o == 2.0 * std::f64::consts::PI && k.abs() == 1.0 => c,
            _ => match const_f64(self) {
                Some(f) => C(f.cos()),
                None => unsupported("cos of a symbolic value"),
            },
        }
    }
    pub fn sin(self) -> S {
        match (self, ang(self)) {
            (C(f), _) => C(f.sin()),
            (_, Some((o, k, c))) if (o == 0.0 && k == 1.0) || (o == 2.0 * std::f64::consts::PI && k == 1.0) => (C(1.0) - c * c).sqrt(),
            (_, Some((o, k, c))) if (o == 0.0 && k == -1.0) || (o == 2.0 * std::f64::consts::PI && k == -1.0) => {
                neg((C(1.0) - c * c).sqrt())
            }
            _ => match const_f64(self) {
                Some(f) => C(f.sin()),
                None => unsupported("sin of a symbolic value"),
            },
        }
    }
    pub fn tan(self) -> S {
        match self {
            C(f) => C(f.tan()),
            _ => self.sin() / self.cos(),
        }
    }
    pub fn sin_cos(self) -> (S, S) {
        (self.sin(), self.cos())
    }
    pub fn asin(self) -> S {
        match self {
            C(f) => C(f.asin()),
            _ => C(std::f64::consts::FRAC_PI_2) - self.acos(),
        }
    }
    pub fn atan(self) -> S {
        match self {
            C(f) => C(f.atan()),
            _ => unsupported("atan of a symbolic value"),
        }
    }
    pub fn to_degrees(self) -> S {
        self * C(180.0f64 / std::f64::consts::PI)
    }
    pub fn to_radians(self) -> S {
        self * C(std::f64::consts::PI / 180.0f64)
    }
}

/// replacements for paths below `f64::` / `std::f64::`
pub mod f64m {
    use super::S;
    pub const EPSILON: S = S::EPSILON;
    pub const MAX: S = S::MAX;
    pub const MIN: S = S::MIN;
    pub const MIN_POSITIVE: S = S::MIN_POSITIVE;
    pub const INFINITY: S = S::INFINITY;
    pub const NEG_INFINITY: S = S::NEG_INFINITY;
    pub const NAN: S = S::NAN;
    pub mod consts {
        use super::S;
        macro_rules! k { ($($n:ident),*) => { $(pub const $n: S = S::C(std::f64::consts::$n);)* } }
        k!(PI, E, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, FRAC_1_PI, FRAC_2_PI, FRAC_1_SQRT_2, SQRT_2, LN_2, LN_10, LOG2_E, LOG10_E, TAU);
    }
}

/// float literals of patterns, which the translator turns into guards
impl S {
    pub fn is_value(&self, v: S) -> bool {
        *self == v
    }
    pub fn is_from(&self, v: S) -> bool {
        *self >= v
    }
    pub fn is_to(&self, v: S) -> bool {
        *self <= v
    }
    pub fn is_below(&self, v: S) -> bool {
        *self < v
    }
}

// ------------------------------------------------------------------ casts

pub trait CastTo<T> {
    fn cast_to(self) -> T;
}
pub fn cast<A: CastTo<T>, T>(a: A) -> T {
    a.cast_to()
}
macro_rules! cast_int {
    ($($t:ty),*) => { $(
        impl CastTo<S> for $t { fn cast_to(self) -> S { C(self as f64) } }
        impl CastTo<$t> for S { fn cast_to(self) -> $t { match self { C(f) => f as $t, E(_) => unsupported("cast of a symbolic value to an integer") } } }
        cast_from!($t; u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, i128, u128, f32);
    )* };
}
macro_rules! cast_from {
    ($a:ty; $($b:ty),*) => { $( impl CastTo<$b> for $a { fn cast_to(self) -> $b { self as $b } } )* };
}
cast_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, i128, u128, f32);
impl CastTo<S> for S {
    fn cast_to(self) -> S {
        self
    }
}
impl CastTo<S> for bool {
    fn cast_to(self) -> S {
        C(self as u8 as f64)
    }
}
macro_rules! cast_bool { ($($t:ty),*) => { $( impl CastTo<$t> for bool { fn cast_to(self) -> $t { self as $t } } )* } }
cast_bool!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl CastTo<char> for u8 {
    fn cast_to(self) -> char {
        self as char
    }
}
macro_rules! cast_char { ($($t:ty),*) => { $( impl CastTo<$t> for char { fn cast_to(self) -> $t { self as $t } } )* } }
cast_char!(u8, u16, u32, u64, usize);

// ------------------------------------------------------------------ float_cmp

impl S {
    /// |self - o| <= eps
    pub fn within(self, o: S, eps: f64) -> bool {
        if let (C(a), C(b)) = (self, o) {
            return a == b || (a - b).abs() <= eps;
        }
        if self.is_nan() || o.is_nan() {
            return false;
        }
        if !self.is_finite() || !o.is_finite() {
            return rel(self, o, ZERO);
        }
        if ang(self).is_some() || ang(o).is_some() {
            return rel(self, o, ZERO); // idealised: distinct angles are farther apart than the tolerance
        }
        let d = diff(self, o);
        let id = match d {
            C(f) => return f.abs() <= eps,
            E(i) => i,
        };
        if eps <= 0.0 {
            return sign_in(d, ZERO);
        }
        let r = match node(id) {
            Node::Rat(r) => r,
            _ => unsupported("tolerance on a non-rational"),
        };
        let collapses = ARENA.with(|a| {
            let a = &mut *a.borrow_mut();
            a.min_nonzero(&r).map_or(false, |m| m > qf(eps))
        });
        if collapses {
            return sign_in(d, ZERO);
        }
        if eps < 1e-9 && !r.exact {
            // a tolerance this small only absorbs rounding: decided as equality in exact arithmetic
            count_inexact();
            return sign_in(d, ZERO);
        }
        rel(d, C(eps), NEG | ZERO) && rel(d, C(-eps), POS | ZERO)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Margin {
    pub epsilon: S,
    pub ulps: i64,
}
impl Default for Margin {
    fn default() -> Margin {
        Margin { epsilon: S::EPSILON, ulps: 4 }
    }
}
impl Margin {
    pub fn zero() -> Margin {
        Margin { epsilon: C(0.0), ulps: 0 }
    }
    pub fn epsilon(self, epsilon: S) -> Self {
        Margin { epsilon, ..self }
    }
    pub fn ulps(self, ulps: i64) -> Self {
        Margin { ulps, ..self }
    }
}
impl From<(S, i64)> for Margin {
    fn from(m: (S, i64)) -> Margin {
        Margin { epsilon: m.0, ulps: m.1 }
    }
}
impl float_cmp::ApproxEq for S {
    type Margin = Margin;
    fn approx_eq<M: Into<Margin>>(self, other: S, margin: M) -> bool {
        let m: Margin = margin.into();
        if let (C(a), C(b), C(e)) = (self, other, m.epsilon) {
            return float_cmp::ApproxEq::approx_eq(a, b, float_cmp::F64Margin { epsilon: e, ulps: m.ulps });
        }
        match m.epsilon {
            C(e) => self.within(other, e.abs()),
            e => {
                let d = diff(self, other).abs();
                d <= e
            }
        }
    }
}

// ------------------------------------------------------------------ num traits

impl num::Zero for S {
    fn zero() -> S {
        C(0.0)
    }
    fn is_zero(&self) -> bool {
        sign_in(*self, ZERO)
    }
}
impl num::One for S {
    fn one() -> S {
        C(1.0)
    }
}
impl num::Num for S {
    type FromStrRadixErr = <f64 as num::Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<S, Self::FromStrRadixErr> {
        <f64 as num::Num>::from_str_radix(s, r).map(C)
    }
}
impl num::ToPrimitive for S {
    fn to_i64(&self) -> Option<i64> {
        match self {
            C(f) => f.to_i64(),
            E(_) => unsupported("to_i64"),
        }
    }
    fn to_u64(&self) -> Option<u64> {
        match self {
            C(f) => f.to_u64(),
            E(_) => unsupported("to_u64"),
        }
    }
    fn to_f64(&self) -> Option<f64> {
        match self {
            C(f) => Some(*f),
            E(_) => unsupported("to_f64"),
        }
    }
}
impl num::NumCast for S {
    fn from<T: num::ToPrimitive>(n: T) -> Option<S> {
        n.to_f64().map(C)
    }
}
impl num::Signed for S {
    fn abs(&self) -> S {
        S::abs(*self)
    }
    fn abs_sub(&self, o: &S) -> S {
        S::abs_sub(*self, *o)
    }
    fn signum(&self) -> S {
        S::signum(*self)
    }
    fn is_positive(&self) -> bool {
        sign_in(*self, POS)
    }
    fn is_negative(&self) -> bool {
        sign_in(*self, NEG)
    }
}
macro_rules! fwd { ($($n:ident),*) => { $(fn $n(self) -> S { S::$n(self) })* } }
impl num::Float for S {
    fn nan() -> S {
        S::NAN
    }
    fn infinity() -> S {
        S::INFINITY
    }
    fn neg_infinity() -> S {
        S::NEG_INFINITY
    }
    fn neg_zero() -> S {
        C(-0.0)
    }
    fn min_value() -> S {
        S::MIN
    }
    fn min_positive_value() -> S {
        S::MIN_POSITIVE
    }
    fn max_value() -> S {
        S::MAX
    }
    fn epsilon() -> S {
        S::EPSILON
    }
    fn is_nan(self) -> bool {
        S::is_nan(self)
    }
    fn is_infinite(self) -> bool {
        S::is_infinite(self)
    }
    fn is_finite(self) -> bool {
        S::is_finite(self)
    }
    fn is_normal(self) -> bool {
        S::is_normal(self)
    }
    fn classify(self) -> std::num::FpCategory {
        match self {
            C(f) => f.classify(),
            E(_) => {
                if sign_in(self, ZERO) {
                    std::num::FpCategory::Zero
                } else {
                    std::num::FpCategory::Normal
                }
            }
        }
    }
    fwd!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh, to_degrees, to_radians);
    fn is_sign_positive(self) -> bool {
        S::is_sign_positive(self)
    }
    fn is_sign_negative(self) -> bool {
        S::is_sign_negative(self)
    }
    fn mul_add(self, a: S, b: S) -> S {
        S::mul_add(self, a, b)
    }
    fn powi(self, n: i32) -> S {
        S::powi(self, n)
    }
    fn powf(self, n: S) -> S {
        S::powf(self, n)
    }
    fn log(self, b: S) -> S {
        S::log(self, b)
    }
    fn max(self, o: S) -> S {
        S::max(self, o)
    }
    fn min(self, o: S) -> S {
        S::min(self, o)
    }
    fn abs_sub(self, o: S) -> S {
        S::abs_sub(self, o)
    }
    fn hypot(self, o: S) -> S {
        S::hypot(self, o)
    }
    fn atan2(self, o: S) -> S {
        S::atan2(self, o)
    }
    fn sin_cos(self) -> (S, S) {
        S::sin_cos(self)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        match self {
            C(f) if !active() => num::Float::integer_decode(f),
            _ => (token(self), 0, 1),
        }
    }
}

// ------------------------------------------------------------------ harness helpers

/// a fresh symbolic input: any multiple of 2^-gran in [lo, hi]
pub fn grid_var(name: &str, lo: f64, hi: f64, gran: u32) -> S {
    let v = new_var(name, Some(qf(lo)), Some(qf(hi)), Some(gran));
    var_expr(v)
}
/// a fresh symbolic input over all values of [lo, hi] (no grid): only sound for comparison-only code
pub fn free_var(name: &str, lo: f64, hi: f64) -> S {
    let v = new_var(name, Some(qf(lo)), Some(qf(hi)), None);
    var_expr(v)
}
fn var_expr(v: usize) -> S {
    ARENA.with(|a| {
        let a = &mut *a.borrow_mut();
        let num = a.poly(Poly::var(v));
        mk(a, RatExpr { num, den: vec![], exact: true })
    })
}
/// assume sign(s) is in mask
pub fn assume_sign(s: S, want: u8) {
    match s {
        C(_) => {
            if !sign_in(s, want) {
                std::panic::panic_any(PathAbort("assumption"));
            }
        }
        E(_) => {
            let r = rat(s);
            if r.den.is_empty() {
                let has_sqrt = ARENA.with(|a| {
                    let a = a.borrow();
                    let p = a.p(r.num);
                    a.sqrt_vars.iter().any(|&v| p.uses(v))
                });
                if !has_sqrt {
                    assume_poly(r.num, want);
                    return;
                }
            }
            if !sign_in(s, want) {
                std::panic::panic_any(PathAbort("assumption"));
            }
        }
    }
}
/// (a,b) != (c,d), as one atom
pub fn assume_distinct(p: (S, S), q: (S, S)) {
    let s = sos(&[diff(p.0, q.0), diff(p.1, q.1)]);
    assume_sign(s, POS);
}
/// sum of squares, registered so that its components are known to vanish with it
pub fn sos(ds: &[S]) -> S {
    let ds: Vec<S> = ds.iter().cloned().filter(|d| !matches!(d, C(f) if *f == 0.0)).collect();
    if ds.len() == 1 {
        return ds[0] * ds[0];
    }
    let mut s = C(0.0);
    for d in &ds {
        s = s + *d * *d;
    }
    if let E(id) = s {
        if let Node::Rat(r) = node(id) {
            if r.den.is_empty() {
                ARENA.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let (q, _) = a.primitive(r.num);
                    if !a.nonneg.contains_key(&q) {
                        let mut cs = vec![];
                        for d in &ds {
                            if let E(i) = d {
                                if let Node::Rat(rd) = a.nodes[*i as usize].clone() {
                                    let (k, _) = a.primitive(rd.num);
                                    cs.push(k);
                                }
                            }
                        }
                        a.nonneg.insert(q, cs);
                    }
                });
            }
        }
    }
    s
}
/// is s already known to be non-zero on this path (no solver call)?
pub(crate) fn known_nonzero(s: S) -> bool {
    match s {
        C(f) => f != 0.0,
        E(id) => match node(id) {
            Node::Rat(r) => known_mask(r.num) & ZERO == 0,
            _ => false,
        },
    }
}
