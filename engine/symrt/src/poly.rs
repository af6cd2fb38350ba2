//! Canonical multivariate polynomials with exact rational coefficients.
use num::bigint::BigInt;
use num::{One, ToPrimitive, Zero};

pub const MAXV: usize = 24;
/// exponent vector; compared lexicographically (index 0 most significant)
pub type Mono = [u8; MAXV];
pub use crate::q::Q;

/// Terms are sorted by monomial, no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly {
    pub t: Vec<(Mono, Q)>,
}

pub const ONE: Mono = [0; MAXV];

pub fn qi(i: i64) -> Q {
    Q::int(i)
}

/// exact value of a finite f64
pub fn qf(f: f64) -> Q {
    Q::from_float(f).expect("finite float")
}

pub fn qtof(q: &Q) -> f64 {
    // round-to-nearest conversion good enough for dyadics (exact when representable)
    let n = q.numer();
    let d = q.denom();
    if let (Some(a), Some(b)) = (n.to_i64(), d.to_i64()) {
        if a.abs() < (1i64 << 53) && b.abs() < (1i64 << 53) {
            return a as f64 / b as f64;
        }
    }
    // scale so that the quotient has ~64 significant bits
    let nb = n.bits() as i64;
    let db = d.bits() as i64;
    let shift = 66 - (nb - db);
    let num = if shift >= 0 { n.clone() << (shift as usize) } else { n.clone() >> ((-shift) as usize) };
    let quo = num / d;
    let m = quo.to_f64().unwrap_or(0.0);
    m * 2f64.powi(-(shift as i32))
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { t: vec![] }
    }
    pub fn constant(c: Q) -> Poly {
        if c.is_zero() {
            Poly::zero()
        } else {
            Poly { t: vec![(ONE, c)] }
        }
    }
    pub fn var(i: usize) -> Poly {
        let mut m = ONE;
        m[i] = 1;
        Poly { t: vec![(m, Q::one())] }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.t.len() {
            0 => Some(Q::zero()),
            1 if self.t[0].0 == ONE => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    pub fn const_term(&self) -> Q {
        match self.t.first() {
            Some((m, c)) if *m == ONE => c.clone(),
            _ => Q::zero(),
        }
    }
    pub fn without_const(&self) -> Poly {
        match self.t.first() {
            Some((m, _)) if *m == ONE => Poly { t: self.t[1..].to_vec() },
            _ => self.clone(),
        }
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (*m, -c.clone())).collect() }
    }
    pub fn scale(&self, k: &Q) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly { t: self.t.iter().map(|(m, c)| (*m, c * k)).collect() }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() && j < o.t.len() {
            let (a, b) = (&self.t[i], &o.t[j]);
            match a.0.cmp(&b.0) {
                std::cmp::Ordering::Less => {
                    r.push(a.clone());
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    r.push(b.clone());
                    j += 1
                }
                std::cmp::Ordering::Equal => {
                    let c = &a.1 + &b.1;
                    if !c.is_zero() {
                        r.push((a.0, c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.t[i..]);
        r.extend_from_slice(&o.t[j..]);
        Poly { t: r }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut m: std::collections::BTreeMap<Mono, Q> = Default::default();
        for (ma, ca) in &self.t {
            for (mb, cb) in &o.t {
                let mut k = *ma;
                for i in 0..MAXV {
                    k[i] = k[i].checked_add(mb[i]).expect("UNSUPPORTED: degree overflow");
                }
                let e = m.entry(k).or_insert_with(Q::zero);
                *e += ca * cb;
            }
        }
        Poly { t: m.into_iter().filter(|(_, c)| !c.is_zero()).collect() }
    }
    /// highest variable index with power >= 2 among `vars`
    pub fn pow_ge2(&self, vars: &[usize]) -> Option<usize> {
        for (m, _) in &self.t {
            for &v in vars {
                if m[v] >= 2 {
                    return Some(v);
                }
            }
        }
        None
    }
    /// replace v^2 by p until no power of v above 1 remains
    pub fn reduce_sq(&self, v: usize, p: &Poly) -> Poly {
        let mut lo = Poly::zero();
        let mut cur: std::collections::BTreeMap<u8, Vec<(Mono, Q)>> = Default::default();
        for (m, c) in &self.t {
            let e = m[v];
            let mut k = *m;
            k[v] = e % 2;
            cur.entry(e / 2).or_default().push((k, c.clone()));
        }
        for (e, mut ts) in cur {
            ts.sort_by(|a, b| a.0.cmp(&b.0));
            let mut q = Poly { t: ts };
            for _ in 0..e {
                q = q.mul(p);
            }
            lo = lo.add(&q);
        }
        lo
    }
    pub fn eval(&self, vals: &[Q]) -> Q {
        let mut s = Q::zero();
        for (m, c) in &self.t {
            let mut x = c.clone();
            for i in 0..MAXV {
                for _ in 0..m[i] {
                    x *= &vals[i];
                }
            }
            s += x;
        }
        s
    }
    pub fn uses(&self, v: usize) -> bool {
        self.t.iter().any(|(m, _)| m[v] > 0)
    }
    pub fn nvars_used(&self) -> usize {
        (0..MAXV).filter(|&v| self.uses(v)).count()
    }
    pub fn degree(&self) -> u32 {
        self.t.iter().map(|(m, _)| m.iter().map(|&e| e as u32).sum::<u32>()).max().unwrap_or(0)
    }
    fn primitive_small(&self) -> Option<(Poly, bool)> {
        use num::Integer;
        let mut l: i64 = 1;
        let mut g: i64 = 0;
        for (_, c) in &self.t {
            let (_, d) = c.small()?;
            if d != 1 {
                l = (l / l.gcd(&d)).checked_mul(d)?;
            }
        }
        for (_, c) in &self.t {
            let (n, d) = c.small()?;
            g = g.gcd(&n.checked_mul(l / d)?);
        }
        let flip = self.t.last().unwrap().1.is_negative();
        let k = Q::int(if flip { -l } else { l }) / Q::int(g);
        Some((if k.is_one() { self.clone() } else { self.scale(&k) }, flip))
    }
    /// primitive integer form with positive leading (last) coefficient; returns (poly, flipped)
    pub fn primitive(&self) -> (Poly, bool) {
        use num::Integer;
        if self.t.is_empty() {
            return (self.clone(), false);
        }
        if let Some(r) = self.primitive_small() {
            return r;
        }
        let mut l = BigInt::one();
        for (_, c) in &self.t {
            l = l.lcm(&c.denom());
        }
        let mut g = BigInt::zero();
        for (_, c) in &self.t {
            g = g.gcd(&(c.numer() * (&l / c.denom())));
        }
        let flip = self.t.last().unwrap().1.is_negative();
        let mut k = Q::new(l, g);
        if flip {
            k = -k;
        }
        (self.scale(&k), flip)
    }
}

impl Poly {
    /// exact division; None when it leaves a remainder
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        let (dm, dc) = d.t.last().unwrap().clone();
        let mut r = self.clone();
        let mut q: Vec<(Mono, Q)> = vec![];
        let mut fuel = 400;
        while let Some((m, c)) = r.t.last().cloned() {
            fuel -= 1;
            if fuel == 0 {
                return None;
            }
            let mut k = ONE;
            for i in 0..MAXV {
                if m[i] < dm[i] {
                    return None;
                }
                k[i] = m[i] - dm[i];
            }
            let t = Poly { t: vec![(k, c / &dc)] };
            r = r.sub(&t.mul(d));
            q.push(t.t[0].clone());
        }
        q.sort_by(|a, b| a.0.cmp(&b.0));
        Some(Poly { t: q })
    }
}

fn int_sqrt(q: &Q) -> Option<Q> {
    if q.is_negative() || !q.is_integer() {
        return None;
    }
    let n = q.to_integer();
    let r = n.sqrt();
    if &r * &r == n {
        Some(Q::from_integer(r))
    } else {
        None
    }
}

impl Poly {
    /// s with s*s = self, when self is a perfect square of a primitive polynomial
    pub fn square_root(&self) -> Option<Poly> {
        if self.t.len() < 2 || self.t.len() > 200 {
            return None;
        }
        for e in [self.t.first().unwrap(), self.t.last().unwrap()] {
            if e.0.iter().any(|x| x % 2 == 1) || int_sqrt(&e.1).is_none() {
                return None;
            }
        }
        let (m, c) = self.t.last().unwrap();
        let mut lm = ONE;
        for i in 0..MAXV {
            lm[i] = m[i] / 2;
        }
        let lc = int_sqrt(c)?;
        let mut s = Poly { t: vec![(lm, lc.clone())] };
        let mut r = self.sub(&s.mul(&s));
        while let Some((m, c)) = r.t.last().cloned() {
            let mut k = ONE;
            for i in 0..MAXV {
                if m[i] < lm[i] {
                    return None;
                }
                k[i] = m[i] - lm[i];
            }
            if k >= s.t[0].0 {
                return None;
            }
            let t = Poly { t: vec![(k, c / (&lc * qi(2)))] };
            r = r.sub(&s.scale(&qi(2)).mul(&t)).sub(&t.mul(&t));
            s = s.add(&t);
            if s.t.len() > 40 {
                return None;
            }
        }
        Some(s)
    }
}
