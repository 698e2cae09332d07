// needs: crv misc
// vectors and matrices of run-time size
#[verifier::external_body]
pub struct DVector { v: Vec<R> }
impl DVector {
  pub uninterp spec fn q(&self) -> Seq<R>;
  pub open spec fn cs(&self) -> Seq<real> { Seq::new(self.q().len(), |i: int| self.q()[i]@) }
}
impl Clone for DVector {
  #[verifier::external_body]
  fn clone(&self) -> (r: DVector) ensures r == *self { unimplemented!() } }
impl DVector {
  // the coordinates of a point
  #[verifier::external_body]
  pub fn of_point(p: &OPoint) -> (r: DVector) ensures r.q().len() == dim() - 1, forall|i: int| 0 <= i < dim() - 1 ==> (#[trigger] r.q()[i])@ == p.coords.c(i) { unimplemented!() }
  #[verifier::external_body]
  pub fn from_vec(x: Vec<R>) -> (r: DVector) ensures r.q() == x@ { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self.q().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn as_slice(&self) -> (r: &Vec<R>) ensures r@ == self.q() { unimplemented!() }
  #[verifier::external_body]
  pub fn norm(&self) -> (r: R) ensures r@ == dnorm(self.cs()) { unimplemented!() }
}
pub uninterp spec fn dnorm(v: Seq<real>) -> real;
impl IndexSpecImpl<usize> for DVector {
  open spec fn index_req(&self, i: &usize) -> bool { *i < self.q().len() }
}
impl Index<usize> for DVector { type Output = R;
  #[verifier::external_body]
  fn index(&self, i: usize) -> (r: &R) ensures *r == self.q()[i as int] { unimplemented!() } }
#[verifier::external_body]
pub fn dv_sub(a: &DVector, b: &DVector) -> (r: DVector) requires a.q().len() == b.q().len() ensures dnorm(r.cs()) == dlen(b.cs(), a.cs()) { unimplemented!() }
// the length of the step from a to b
pub uninterp spec fn dlen(a: Seq<real>, b: Seq<real>) -> real;
#[verifier::external_body]
pub proof fn axiom_dlen(a: Seq<real>, b: Seq<real>) ensures dlen(a, b) >= 0real {}
#[verifier::external_body]
pub struct DMatrix { v: f64 }
impl DMatrix {
  pub uninterp spec fn m(&self, i: int, j: int) -> real;
  pub uninterp spec fn rows(&self) -> int;
  pub uninterp spec fn cols(&self) -> int;
  #[verifier::external_body]
  pub fn zeros(a: usize, b: usize) -> (r: DMatrix) ensures r.rows() == a, r.cols() == b, forall|i: int, j: int| 0 <= i < a && 0 <= j < b ==> #[trigger] r.m(i, j) == 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn identity(a: usize, b: usize) -> (r: DMatrix) ensures r.rows() == a, r.cols() == b { unimplemented!() }
  #[verifier::external_body]
  pub fn nrows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
  #[verifier::external_body]
  pub fn ncols(&self) -> (r: usize) ensures r == self.cols() { unimplemented!() }
  #[verifier::external_body]
  pub fn lu(self) -> (r: Lu) ensures r.mat() == self { unimplemented!() }
}
#[verifier::external_body]
pub struct Lu { v: f64 }
impl Lu {
  pub uninterp spec fn mat(&self) -> DMatrix;
  // assumed of nalgebra: what it returns solves the system
  #[verifier::external_body]
  pub fn solve(&self, b: &DVector) -> (r: Option<DVector>)
    ensures r matches Some(x) ==> self.mat().rows() == b.q().len() ==> x.q().len() == self.mat().cols() && forall|i: int| 0 <= i < self.mat().rows() ==> #[trigger] mdot(self.mat(), i, x.q(), self.mat().cols()) == b.q()[i]@ { unimplemented!() }
}
pub open spec fn mdot(a: DMatrix, i: int, x: Seq<R>, n: int) -> real decreases n { if n <= 0 { 0real } else { mdot(a, i, x, n - 1) + a.m(i, n - 1) * x[n - 1]@ } }
impl IndexSpecImpl<(usize, usize)> for DMatrix {
  open spec fn index_req(&self, i: &(usize, usize)) -> bool { i.0 < self.rows() && i.1 < self.cols() }
}
impl Index<(usize, usize)> for DMatrix { type Output = R;
  #[verifier::external_body]
  fn index(&self, i: (usize, usize)) -> (r: &R) ensures r@ == self.m(i.0 as int, i.1 as int) { unimplemented!() } }
impl IndexMut<(usize, usize)> for DMatrix {
  #[verifier::external_body]
  fn index_mut(&mut self, i: (usize, usize)) -> (r: &mut R)
    ensures r@ == old(self).m(i.0 as int, i.1 as int), final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(), final(self).m(i.0 as int, i.1 as int) == final(r)@,
      forall|a: int, b: int| a != i.0 || b != i.1 ==> #[trigger] final(self).m(a, b) == old(self).m(a, b) { unimplemented!() } }

// the length along the first i legs
pub open spec fn acc(pc: Seq<Seq<real>>, i: int) -> real decreases i { if i <= 0 { 0real } else { acc(pc, i - 1) + dlen(pc[i - 1], pc[i]) } }
pub proof fn lemma_acc(pc: Seq<Seq<real>>, i: int, j: int)
  requires i <= j
  ensures acc(pc, i) <= acc(pc, j)
  decreases j - i
{ if i < j { lemma_acc(pc, i, j - 1); if j > 0 { axiom_dlen(pc[j - 1], pc[j]); } } }
pub open spec fn vcs(v: Seq<DVector>) -> Seq<Seq<real>> { Seq::new(v.len(), |i: int| v[i].cs()) }
pub open spec fn ocs(v: Seq<OPoint>) -> Seq<Seq<real>> { Seq::new(v.len(), |i: int| Seq::new((dim() - 1) as nat, |c: int| v[i].coords.c(c))) }
// the parameter of point i: its fraction of the total length
pub open spec fn par(pc: Seq<Seq<real>>, i: int) -> real { acc(pc, i) / acc(pc, pc.len() - 1) }
// first and last leg: no shorter than the tolerance (as a fraction of the whole)
pub open spec fn legs_ok(pc: Seq<Seq<real>>) -> bool {
  let t = acc(pc, pc.len() - 1);
  &&& pc.len() >= 2 && t > 0real && acc(pc, 1) > 0real && acc(pc, pc.len() - 2) < t
  &&& acc(pc, 1) >= eps() * t
  &&& t - acc(pc, pc.len() - 2) >= eps() * t
}
pub proof fn lemma_frac_le(a: real, b: real, t: real)
  requires t > 0real, a <= b
  ensures a / t <= b / t
{ assert(a / t <= b / t) by (nonlinear_arith) requires t > 0real, a <= b; }
pub proof fn lemma_par(pc: Seq<Seq<real>>)
  requires legs_ok(pc)
  ensures par(pc, 0) == 0real, par(pc, pc.len() - 1) == 1real, par(pc, 1) >= eps(), par(pc, 1) > 0real, par(pc, pc.len() - 2) <= 1real - eps(), par(pc, pc.len() - 2) < 1real, eps() <= 1real,
    forall|i: int, j: int| i <= j ==> #[trigger] par(pc, i) <= #[trigger] par(pc, j)
{
  let t = acc(pc, pc.len() - 1);
  assert(acc(pc, 0) == 0real);
  assert(0real / t == 0real) by (nonlinear_arith) requires t > 0real;
  assert(t / t == 1real) by (nonlinear_arith) requires t > 0real;
  let e = eps(); let a = acc(pc, 1); let b = acc(pc, pc.len() - 2);
  assert(a / t > 0real) by (nonlinear_arith) requires t > 0real, a > 0real;
  assert(b / t < 1real) by (nonlinear_arith) requires t > 0real, b < t;
  assert(a / t >= e) by (nonlinear_arith) requires t > 0real, a >= e * t;
  assert(b / t <= 1real - e) by (nonlinear_arith) requires t > 0real, t - b >= e * t;
  assert forall|i: int, j: int| i <= j implies #[trigger] par(pc, i) <= #[trigger] par(pc, j) by {
    lemma_acc(pc, i, j);
    lemma_frac_le(acc(pc, i), acc(pc, j), t);
  }
  assert(par(pc, 1) <= par(pc, pc.len() - 1));
}
// sum of p consecutive parameters
pub open spec fn asum(us: Seq<R>, i: int, m: int) -> real decreases m { if m <= 0 { 0real } else { asum(us, i, m - 1) + us[i + m - 1]@ } }
pub proof fn lemma_asum(us: Seq<R>, i: int, m: int, lo: real, hi: real)
  requires m >= 0, forall|j: int| i <= j < i + m ==> lo <= (#[trigger] us[j])@ <= hi
  ensures (m as real) * lo <= asum(us, i, m) <= (m as real) * hi
  decreases m
{
  if m > 0 {
    lemma_asum(us, i, m - 1, lo, hi);
    assert(lo <= us[i + m - 1]@ <= hi);
    let x = (m - 1) as real;
    assert(m as real == x + 1real);
    assert((x + 1real) * lo == x * lo + lo) by (nonlinear_arith);
    assert((x + 1real) * hi == x * hi + hi) by (nonlinear_arith);
  } else {
    assert(0real * lo == 0real && 0real * hi == 0real) by (nonlinear_arith);
  }
}
pub proof fn lemma_asum_mono(us: Seq<R>, i: int, m: int)
  requires m >= 0, 0 <= i, i + 1 + m <= us.len(), sorted(us)
  ensures asum(us, i, m) <= asum(us, i + 1, m)
  decreases m
{ if m > 0 { lemma_asum_mono(us, i, m - 1); assert(us[i + m - 1]@ <= us[i + m]@); } }
// a control point combination over vectors
pub open spec fn isum(cp: Seq<DVector>, s: Seq<R>, k: int, p: int, u: real, c: int, m: int) -> real decreases m {
  if m <= 0 { 0real } else { isum(cp, s, k, p, u, c, m - 1) + cp[k - p + m - 1].q()[c]@ * bas(s, k, k - p + m - 1, p, u) }
}
pub open spec fn rowval(s: Seq<R>, n: int, p: int, u: real, c: int) -> real {
  let k = kspan(s, n, p, u);
  if k - p <= c <= k { bas(s, k, c, p, u) } else { 0real }
}
// row i of the matrix against coordinate c of the vectors
pub open spec fn mdotc(a: DMatrix, i: int, x: Seq<DVector>, c: int, n: int) -> real decreases n { if n <= 0 { 0real } else { mdotc(a, i, x, c, n - 1) + a.m(i, n - 1) * x[n - 1].q()[c]@ } }
pub proof fn lemma_mdotc(a: DMatrix, i: int, x: Seq<DVector>, c: int, y: Seq<R>, n: int)
  requires forall|j: int| 0 <= j < n ==> (#[trigger] y[j])@ == x[j].q()[c]@
  ensures mdotc(a, i, x, c, n) == mdot(a, i, y, n)
  decreases n
{ if n > 0 { lemma_mdotc(a, i, x, c, y, n - 1); assert(y[n - 1]@ == x[n - 1].q()[c]@); } }
pub proof fn lemma_row(a: DMatrix, i: int, x: Seq<DVector>, c: int, s: Seq<R>, n: int, p: int, u: real, m: int)
  requires 0 <= m <= n + 1, p >= 0, forall|j: int| 0 <= j <= n ==> #[trigger] a.m(i, j) == rowval(s, n, p, u, j), p <= kspan(s, n, p, u) <= n
  ensures ({ let k = kspan(s, n, p, u); mdotc(a, i, x, c, m) == (if m <= k - p { 0real } else if m <= k + 1 { isum(x, s, k, p, u, c, m - (k - p)) } else { isum(x, s, k, p, u, c, p + 1) }) })
  decreases m
{
  if m > 0 {
    lemma_row(a, i, x, c, s, n, p, u, m - 1);
    let k = kspan(s, n, p, u);
    assert(a.m(i, m - 1) == rowval(s, n, p, u, m - 1));
    let v = x[m - 1].q()[c]@; let w = a.m(i, m - 1);
    assert(w * v == v * w) by (nonlinear_arith);
    if k - p <= m - 1 <= k {
      let t = m - (k - p);
      assert(k - p + t - 1 == m - 1);
      assert(isum(x, s, k, p, u, c, 0) == 0real);
    } else { assert(0real * v == 0real) by (nonlinear_arith); }
  }
}
// what an interpolation delivers: control vectors whose combination at the parameter of each point is that point
pub open spec fn interpolates(cp: Seq<DVector>, s: Seq<R>, p: int, pts: Seq<DVector>) -> bool {
  forall|i: int, c: int| 0 <= i < pts.len() && 0 <= c < pts[0].q().len() ==> isum(cp, s, kspan(s, pts.len() - 1, p, par(vcs(pts), i)), p, par(vcs(pts), i), c, p + 1) == (#[trigger] pts[i].q()[c])@
}
pub proof fn lemma_isum(cp: Seq<OPoint>, x: Seq<DVector>, s: Seq<R>, k: int, p: int, u: real, c: int, m: int)
  requires k - p >= 0, 0 <= m <= p + 1, forall|j: int| k - p <= j <= k ==> (#[trigger] cp[j]).coords.c(c) == x[j].q()[c]@
  ensures csum(cp, s, k, p, u, c, m) == isum(x, s, k, p, u, c, m)
  decreases m
{ if m > 0 { lemma_isum(cp, x, s, k, p, u, c, m - 1); assert(cp[k - p + m - 1].coords.c(c) == x[k - p + m - 1].q()[c]@); } }
pub proof fn lemma_isum_one(x: Seq<DVector>, s: Seq<R>, k: int, p: int, u: real, c: int, m: int)
  requires k - p >= 0, 0 <= m <= p + 1, forall|j: int| k - p <= j <= k ==> (#[trigger] x[j]).q()[c]@ == 1real
  ensures isum(x, s, k, p, u, c, m) == bsum(s, k, k - p, k - p + m, p, u)
  decreases m
{ if m > 0 { lemma_isum_one(x, s, k, p, u, c, m - 1); assert(x[k - p + m - 1].q()[c]@ == 1real); let b = bas(s, k, k - p + m - 1, p, u); assert(1real * b == b) by (nonlinear_arith); } }
