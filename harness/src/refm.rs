//! Reference mathematics over exact rationals, written from the textbook
//! definitions (Cox-de Boor recursion, hodographs, quotient rule), shared by
//! every bounded check.  Nothing here is taken from /repo.
use crate::q::Q;

#[derive(Clone, Debug)]
pub struct RC {
    pub p: usize,
    pub k: Vec<Q>,
    pub c: Vec<Vec<Q>>, // homogeneous
}

/// Cox-de Boor basis N_{i,p}(u) by definition; half-open spans, the last
/// non-empty span of the domain closed on the right.
pub fn basis(k: &[Q], i: usize, p: usize, u: Q, end: Q) -> Q {
    if p == 0 {
        let inside = if u == end { k[i] < end && k[i + 1] == end } else { k[i] <= u && u < k[i + 1] };
        return if inside { Q::int(1) } else { Q::int(0) };
    }
    let mut s = Q::int(0);
    let d0 = k[i + p] - k[i];
    if d0.sgn() != 0 {
        let b = basis(k, i, p - 1, u, end);
        if b.sgn() != 0 {
            s += (u - k[i]) / d0 * b;
        }
    }
    let d1 = k[i + p + 1] - k[i + 1];
    if d1.sgn() != 0 {
        let b = basis(k, i + 1, p - 1, u, end);
        if b.sgn() != 0 {
            s += (k[i + p + 1] - u) / d1 * b;
        }
    }
    s
}

impl RC {
    pub fn n1(&self) -> usize {
        self.c.len()
    }
    pub fn domain(&self) -> (Q, Q) {
        (self.k[self.p], self.k[self.k.len() - 1 - self.p])
    }
    pub fn wf(&self) -> Result<(), String> {
        if self.k.len() != self.c.len() + self.p + 1 {
            return Err(format!("knot count {} != {} control points + degree {} + 1", self.k.len(), self.c.len(), self.p));
        }
        if self.c.len() <= self.p {
            return Err(format!("{} control points for degree {}", self.c.len(), self.p));
        }
        for i in 1..self.k.len() {
            if self.k[i - 1] > self.k[i] {
                return Err(format!("knots decrease at {i}: {:?}", self.k));
            }
        }
        Ok(())
    }
    /// homogeneous point by definition
    pub fn evh(&self, u: Q) -> Vec<Q> {
        let d = self.c[0].len();
        let mut r = vec![Q::int(0); d];
        let end = self.domain().1;
        for i in 0..self.c.len() {
            if !(self.k[i] <= u && u <= self.k[i + self.p + 1]) {
                continue;
            }
            let b = basis(&self.k, i, self.p, u, end);
            if b.sgn() != 0 {
                for j in 0..d {
                    r[j] += b * self.c[i][j];
                }
            }
        }
        r
    }
    pub fn ev(&self, u: Q) -> Vec<Q> {
        deh(&self.evh(u))
    }
    /// derivative curve (homogeneous hodograph); pieces on empty spans dropped
    pub fn hodograph(&self) -> RC {
        let p = self.p;
        let mut c = vec![];
        for i in 0..self.c.len() - 1 {
            let d = self.k[i + p + 1] - self.k[i + 1];
            c.push(
                (0..self.c[0].len())
                    .map(|j| {
                        if d.sgn() == 0 {
                            Q::int(0)
                        } else {
                            Q::int(p as i64) * (self.c[i + 1][j] - self.c[i][j]) / d
                        }
                    })
                    .collect(),
            );
        }
        RC { p: p - 1, k: self.k[1..self.k.len() - 1].to_vec(), c }
    }
    /// homogeneous derivatives 0..=n (right-sided at knots, left-sided at the end)
    pub fn dersh(&self, u: Q, n: usize) -> Vec<Vec<Q>> {
        let mut r = vec![];
        let mut c = self.clone();
        for k in 0..=n {
            if k <= self.p {
                r.push(c.evh(u));
                if k < self.p {
                    c = c.hodograph();
                }
            } else {
                r.push(vec![Q::int(0); self.c[0].len()]);
            }
        }
        r
    }
    pub fn ders(&self, u: Q, n: usize) -> Vec<Vec<Q>> {
        quotient(&self.dersh(u, n))
    }
    pub fn show(&self) -> String {
        format!("degree {} knots {:?} control_points(homogeneous) {:?}", self.p, self.k, self.c)
    }
    pub fn greville(&self) -> Vec<Q> {
        (0..self.c.len())
            .map(|i| {
                let mut s = Q::int(0);
                for j in 1..=self.p {
                    s += self.k[i + j];
                }
                s / Q::int(self.p as i64)
            })
            .collect()
    }
}

/// derivatives of A/w from the derivatives of (A,w): (A - sum C(k,i) w_i C_{k-i}) / w
pub fn quotient(h: &[Vec<Q>]) -> Vec<Vec<Q>> {
    let d = h[0].len() - 1;
    let mut r: Vec<Vec<Q>> = vec![];
    for k in 0..h.len() {
        let mut v: Vec<Q> = h[k][..d].to_vec();
        for i in 1..=k {
            let b = binom(k, i) * h[i][d];
            for j in 0..d {
                v[j] -= b * r[k - i][j];
            }
        }
        for j in 0..d {
            v[j] /= h[0][d];
        }
        r.push(v);
    }
    r
}
pub fn binom(n: usize, k: usize) -> Q {
    if k > n {
        return Q::int(0);
    }
    let mut r = Q::int(1);
    for i in 0..k {
        r = r * Q::int((n - i) as i64) / Q::int((i + 1) as i64);
    }
    r
}
pub fn deh(h: &[Q]) -> Vec<Q> {
    let d = h.len() - 1;
    (0..d).map(|j| h[j] / h[d]).collect()
}
pub fn sub(a: &[Q], b: &[Q]) -> Vec<Q> {
    a.iter().zip(b).map(|(x, y)| *x - *y).collect()
}
pub fn dot(a: &[Q], b: &[Q]) -> Q {
    a.iter().zip(b).fold(Q::int(0), |s, (x, y)| s + *x * *y)
}

/// Same rational curve on [a,b]?  Compares points exactly at deg(x)+deg(y)+2
/// parameters of every span of x (which decides equality when y has no further
/// breakpoint inside).
pub fn same_on(x: &RC, y: &RC, map: impl Fn(Q) -> Q, a: Q, b: Q) -> Result<(), String> {
    // breakpoints of x inside [a,b] plus those of y pulled through is the
    // caller's business when map is not the identity
    let mut br: Vec<Q> = vec![a, b];
    br.extend(x.k.iter().copied().filter(|k| a < *k && *k < b));
    br.sort();
    br.dedup();
    let deg = (x.p + y.p) as i64 + 1;
    for w in br.windows(2) {
        for j in 0..=deg {
            let u = w[0] + (w[1] - w[0]) * Q::new(j, deg);
            let (p, q) = (x.ev(u), y.ev(map(u)));
            if p != q {
                return Err(format!("differ at {u}: {:?} vs {:?}", p, q));
            }
        }
    }
    Ok(())
}

/// Reference tensor-product surface: c[iu][iv] homogeneous.
#[derive(Clone, Debug)]
pub struct RS {
    pub pu: usize,
    pub pv: usize,
    pub ku: Vec<Q>,
    pub kv: Vec<Q>,
    pub c: Vec<Vec<Vec<Q>>>,
}
impl RS {
    pub fn udom(&self) -> (Q, Q) {
        (self.ku[self.pu], self.ku[self.ku.len() - 1 - self.pu])
    }
    pub fn vdom(&self) -> (Q, Q) {
        (self.kv[self.pv], self.kv[self.kv.len() - 1 - self.pv])
    }
    pub fn wf(&self) -> Result<(), String> {
        if self.c.len() + self.pu + 1 != self.ku.len() {
            return Err(format!("u: {} rows, degree {}, {} knots", self.c.len(), self.pu, self.ku.len()));
        }
        for r in &self.c {
            if r.len() + self.pv + 1 != self.kv.len() {
                return Err(format!("v: {} columns, degree {}, {} knots", r.len(), self.pv, self.kv.len()));
            }
        }
        for k in [&self.ku, &self.kv] {
            for i in 1..k.len() {
                if k[i - 1] > k[i] {
                    return Err(format!("knots decrease at {i}: {:?}", k));
                }
            }
        }
        Ok(())
    }
    /// curve in v obtained by contracting u
    pub fn at_u(&self, u: Q) -> RC {
        let nv = self.c[0].len();
        let c = (0..nv)
            .map(|j| RC { p: self.pu, k: self.ku.clone(), c: self.c.iter().map(|r| r[j].clone()).collect() }.evh(u))
            .collect();
        RC { p: self.pv, k: self.kv.clone(), c }
    }
    pub fn at_v(&self, v: Q) -> RC {
        let c = self
            .c
            .iter()
            .map(|r| RC { p: self.pv, k: self.kv.clone(), c: r.clone() }.evh(v))
            .collect();
        RC { p: self.pu, k: self.ku.clone(), c }
    }
    pub fn evh(&self, u: Q, v: Q) -> Vec<Q> {
        self.at_u(u).evh(v)
    }
    pub fn ev(&self, u: Q, v: Q) -> Vec<Q> {
        deh(&self.evh(u, v))
    }
    /// mixed homogeneous derivative d^k/du^k d^l/dv^l
    pub fn derh(&self, u: Q, v: Q, k: usize, l: usize) -> Vec<Q> {
        let nv = self.c[0].len();
        let c = (0..nv)
            .map(|j| {
                RC { p: self.pu, k: self.ku.clone(), c: self.c.iter().map(|r| r[j].clone()).collect() }.dersh(u, k)[k].clone()
            })
            .collect();
        RC { p: self.pv, k: self.kv.clone(), c }.dersh(v, l)[l].clone()
    }
    /// rational mixed derivatives S^(k,l), k+l<=n
    pub fn ders(&self, u: Q, v: Q, n: usize) -> Vec<Vec<Vec<Q>>> {
        let h: Vec<Vec<Vec<Q>>> = (0..=n).map(|k| (0..=n).map(|l| self.derh(u, v, k, l)).collect()).collect();
        let d = h[0][0].len() - 1;
        let mut s: Vec<Vec<Vec<Q>>> = vec![vec![vec![]; n + 1]; n + 1];
        for k in 0..=n {
            for l in 0..=(n - k) {
                // A^(k,l) = sum_ij C(k,i) C(l,j) w^(i,j) S^(k-i,l-j)
                let mut x: Vec<Q> = h[k][l][..d].to_vec();
                for i in 0..=k {
                    for j in 0..=l {
                        if i + j == 0 {
                            continue;
                        }
                        let b = binom(k, i) * binom(l, j) * h[i][j][d];
                        for m in 0..d {
                            x[m] -= b * s[k - i][l - j][m];
                        }
                    }
                }
                for m in 0..d {
                    x[m] /= h[0][0][d];
                }
                s[k][l] = x;
            }
        }
        s
    }
    pub fn show(&self) -> String {
        format!("u: degree {} knots {:?}; v: degree {} knots {:?}; control_points(homogeneous)[u][v] {:?}", self.pu, self.ku, self.pv, self.kv, self.c)
    }
}

// ---------- f64 helpers ----------
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
