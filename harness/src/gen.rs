//! Deterministic case generators (splitmix64) for curves, surfaces, parameters.
use crate::q::Q;
use crate::refm::RC;
use curvo::prelude::*;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, OPoint};

#[derive(Clone)]
/// (state, fine): without `fine`, gaps stay well above what f64 evaluation resolves
pub struct Rng(pub u64, pub bool);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// inclusive range
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        a + (self.next() % ((b - a + 1) as u64)) as usize
    }
    pub fn i(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn b(&mut self) -> bool {
        self.next() >> 60 & 1 == 1
    }
    pub fn chance(&mut self, n: u64) -> bool {
        self.next() % n == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(0, v.len() - 1);
        &v[i]
    }
    pub fn q(&mut self, lo: i64, hi: i64, dmax: i64) -> Q {
        let d = self.i(1, dmax);
        Q::new(self.i(lo * d, hi * d), d)
    }
    /// strictly inside (a,b)
    pub fn between(&mut self, a: Q, b: Q) -> Q {
        if self.chance(6) {
            // close to one of the ends: what a widened tolerance would confuse with it
            let e = self.tiny() * (b - a);
            let start = self.b();
            // (not below the machine epsilon the code under test may treat as zero)
            if e > Q::new(1, if self.1 { 1_000_000_000 } else { 100_000 }) {
                return if start { a + e } else { b - e };
            }
        }
        let d = self.i(2, 12);
        let n = self.i(1, d - 1);
        a + (b - a) * Q::new(n, d)
    }
    /// a gap some code might take for zero
    pub fn tiny(&mut self) -> Q {
        Q::new(self.i(1, 9), [100, 10_000, 1_000_000, 100_000_000][self.us(0, if self.1 { 3 } else { 1 })])
    }
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * ((self.next() >> 11) as f64 / (1u64 << 53) as f64)
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next(), self.1)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum KS {
    Clamped,
    Unclamped,
    Any,
}

/// nondecreasing knot vector of length n+p+2 (n+1 control points), first and
/// last span of the domain non-empty, interior multiplicity <= maxmult
pub fn knots(r: &mut Rng, p: usize, n1: usize, style: KS, maxmult: usize) -> Vec<Q> {
    let clamped = match style {
        KS::Clamped => true,
        KS::Unclamped => false,
        KS::Any => r.next() % 3 != 0,
    };
    let len = n1 + p + 1;
    let step = |r: &mut Rng| {
        if r.chance(24) {
            r.tiny()
        } else if r.chance(3) { Q::new(r.i(1, 7), r.i(1, 5)) } else { Q::int(r.i(1, 2)) }
    };
    let mut cur = if r.chance(3) { r.q(-3, 3, 3) } else { Q::int(0) };
    let mut v = vec![];
    if clamped {
        for _ in 0..=p {
            v.push(cur);
        }
        let interior = n1 - p - 1;
        let mut left = interior;
        while left > 0 {
            let m = if r.chance(2) { 1 } else { r.us(1, maxmult.max(1)) }.min(left);
            cur += step(r);
            for _ in 0..m {
                v.push(cur);
            }
            left -= m;
        }
        cur += step(r);
        for _ in 0..=p {
            v.push(cur);
        }
    } else {
        // mostly simple knots, occasional multiplicity; first/last domain span non-empty
        loop {
            v.clear();
            let mut c = cur;
            while v.len() < len {
                let m = if r.next() % 4 != 0 { 1 } else { r.us(1, maxmult.max(1)) };
                for _ in 0..m {
                    if v.len() < len {
                        v.push(c);
                    }
                }
                c += step(r);
            }
            if v[p] < v[p + 1] && v[n1 - 1] < v[n1] && mult_ok(&v, p) {
                break;
            }
        }
    }
    v
}
fn mult_ok(v: &[Q], p: usize) -> bool {
    // no knot with multiplicity > p in an unclamped vector
    let mut run = 1;
    for i in 1..v.len() {
        if v[i] == v[i - 1] {
            run += 1;
            if run > p {
                return false;
            }
        } else {
            run = 1;
        }
    }
    true
}

pub fn coord(r: &mut Rng) -> Q {
    if r.chance(4) { r.q(-5, 5, 4) } else { Q::int(r.i(-6, 6)) }
}
pub fn weight(r: &mut Rng) -> Q {
    Q::new(r.i(1, 6), r.i(1, 3))
}

/// homogeneous control point with `dim` euclidean coordinates
pub fn hpoint(r: &mut Rng, dim: usize, rational: bool) -> Vec<Q> {
    let w = if rational { weight(r) } else { Q::int(1) };
    let mut v: Vec<Q> = (0..dim).map(|_| coord(r) * w).collect();
    v.push(w);
    v
}

pub fn rc(r: &mut Rng, dim: usize, style: KS, maxp: usize, extra: usize) -> RC {
    let p = r.us(1, maxp);
    rc_deg(r, dim, style, p, extra)
}
pub fn rc_deg(r: &mut Rng, dim: usize, style: KS, p: usize, extra: usize) -> RC {
    let n1 = p + 1 + r.us(0, extra);
    let k = knots(r, p, n1, style, p);
    let rational = r.b();
    let cps = (0..n1).map(|_| hpoint(r, dim, rational)).collect();
    RC { p, k, c: cps }
}

pub fn to_curve<const D: usize>(c: &RC) -> NurbsCurve<Q, Const<D>>
where
    DefaultAllocator: Allocator<Const<D>>,
{
    NurbsCurve::try_new(
        c.p,
        c.c.iter().map(|p| OPoint::<Q, Const<D>>::from_slice(p)).collect(),
        c.k.clone(),
    )
    .expect("try_new rejected a well-formed curve")
}
pub fn from_curve<const D: usize>(c: &NurbsCurve<Q, Const<D>>) -> RC
where
    DefaultAllocator: Allocator<Const<D>>,
{
    RC {
        p: c.degree(),
        k: c.knots().to_vec(),
        c: c.control_points().iter().map(|p| p.iter().copied().collect()).collect(),
    }
}

/// parameters of the domain: ends, every knot, points inside every span
pub fn params(r: &mut Rng, k: &[Q], p: usize) -> Vec<Q> {
    let (a, b) = (k[p], k[k.len() - 1 - p]);
    let mut v = vec![a, b];
    for w in p..k.len() - 1 - p {
        if k[w] < k[w + 1] {
            v.push(k[w]);
            v.push(r.between(k[w], k[w + 1]));
            v.push((k[w] + k[w + 1]) / Q::int(2));
        }
    }
    v
}
