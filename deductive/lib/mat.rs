// needs: crv
#[verifier::external_body]
#[derive(Copy)]
pub struct OMatrix { v: f64 }
impl Clone for OMatrix {
  #[verifier::external_body]
  fn clone(&self) -> (r: OMatrix) ensures r == *self { unimplemented!() } }
impl OMatrix { pub uninterp spec fn m(&self, i: int, j: int) -> real; }
pub open spec fn mrow(m: OMatrix, i: int, p: OPoint, n: int) -> real decreases n { if n <= 0 { 0real } else { mrow(m, i, p, n - 1) + m.m(i, n - 1) * p.coords.c(n - 1) } }
impl<'a> MulSpecImpl<OPoint> for &'a OMatrix {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: OPoint) -> bool { true }
  open spec fn mul_spec(self, rhs: OPoint) -> OPoint { arbitrary() }
}
impl<'a> Mul<OPoint> for &'a OMatrix { type Output = OPoint;
  #[verifier::external_body]
  fn mul(self, rhs: OPoint) -> (r: OPoint) ensures forall|i: int| 0 <= i < dim() ==> #[trigger] r.coords.c(i) == mrow(*self, i, rhs, dim() as int) { unimplemented!() } }
// affine: the last row is 0 .. 0 1
pub open spec fn affine(m: OMatrix) -> bool { m.m(dim() - 1, dim() - 1) == 1real && forall|j: int| 0 <= j < dim() - 1 ==> #[trigger] m.m(dim() - 1, j) == 0real }
// row i of the matrix applied to the value of the curve (homogeneous coordinates)
pub open spec fn hrow(m: OMatrix, i: int, cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, n: int) -> real decreases n { if n <= 0 { 0real } else { hrow(m, i, cp, s, p, u, n - 1) + m.m(i, n - 1) * hval(cp, s, p, u, n - 1) } }
pub proof fn lemma_affine_last(m: OMatrix, p: OPoint, n: int)
  requires affine(m), 0 <= n < dim()
  ensures mrow(m, dim() - 1, p, n) == 0real
  decreases n
{ if n > 0 { lemma_affine_last(m, p, n - 1); assert(m.m(dim() - 1, n - 1) == 0real); assert(0real * p.coords.c(n - 1) == 0real) by (nonlinear_arith); } }
pub proof fn lemma_mrow_scale(m: OMatrix, i: int, a: OPoint, b: OPoint, w: real, n: int)
  requires forall|c: int| 0 <= c < n ==> #[trigger] a.coords.c(c) * w == b.coords.c(c)
  ensures mrow(m, i, a, n) * w == mrow(m, i, b, n)
  decreases n
{
  if n > 0 {
    lemma_mrow_scale(m, i, a, b, w, n - 1);
    let x = mrow(m, i, a, n - 1); let y = m.m(i, n - 1); let z = a.coords.c(n - 1);
    assert(z * w == b.coords.c(n - 1));
    assert((x + y * z) * w == x * w + y * (z * w)) by (nonlinear_arith);
  } else { assert(0real * w == 0real) by (nonlinear_arith); }
}
// csum of the transformed points is the transformed csum
pub open spec fn crow(m: OMatrix, i: int, cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, t: int, n: int) -> real decreases n { if n <= 0 { 0real } else { crow(m, i, cp, s, k, p, u, t, n - 1) + m.m(i, n - 1) * csum(cp, s, k, p, u, n - 1, t) } }
pub proof fn lemma_crow_step(m: OMatrix, i: int, cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, t: int, n: int)
  requires t >= 1
  ensures crow(m, i, cp, s, k, p, u, t, n) == crow(m, i, cp, s, k, p, u, t - 1, n) + mrow(m, i, cp[k - p + t - 1], n) * bas(s, k, k - p + t - 1, p, u)
  decreases n
{
  let b = bas(s, k, k - p + t - 1, p, u);
  if n > 0 {
    lemma_crow_step(m, i, cp, s, k, p, u, t, n - 1);
    let y = m.m(i, n - 1); let c0 = csum(cp, s, k, p, u, n - 1, t - 1); let z = cp[k - p + t - 1].coords.c(n - 1);
    let q = mrow(m, i, cp[k - p + t - 1], n - 1);
    assert(y * (c0 + z * b) == y * c0 + (y * z) * b) by (nonlinear_arith);
    assert((q + y * z) * b == q * b + (y * z) * b) by (nonlinear_arith);
  } else { assert(0real * b == 0real) by (nonlinear_arith); }
}
pub proof fn lemma_crow0(m: OMatrix, i: int, cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, n: int)
  ensures crow(m, i, cp, s, k, p, u, 0, n) == 0real decreases n
{ if n > 0 { lemma_crow0(m, i, cp, s, k, p, u, n - 1); let y = m.m(i, n - 1); assert(y * 0real == 0real) by (nonlinear_arith); } }
pub proof fn lemma_csum_transform(m: OMatrix, i: int, a: Seq<OPoint>, b: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, t: int)
  requires t >= 0, forall|j: int| 0 <= j < t ==> (#[trigger] b[k - p + j]).coords.c(i) == mrow(m, i, a[k - p + j], dim() as int)
  ensures csum(b, s, k, p, u, i, t) == crow(m, i, a, s, k, p, u, t, dim() as int)
  decreases t
{
  if t > 0 {
    lemma_csum_transform(m, i, a, b, s, k, p, u, t - 1);
    lemma_crow_step(m, i, a, s, k, p, u, t, dim() as int);
    let x = b[k - p + (t - 1)].coords.c(i);
    let y = mrow(m, i, a[k - p + (t - 1)], dim() as int);
    let z = bas(s, k, k - p + t - 1, p, u);
    assert(x == y);
    assert(k - p + (t - 1) == k - p + t - 1);
    assert(x * z == y * z);
    assert(csum(b, s, k, p, u, i, t) == csum(b, s, k, p, u, i, t - 1) + x * z);
  } else { lemma_crow0(m, i, a, s, k, p, u, dim() as int); }
}
pub proof fn lemma_crow_hrow(m: OMatrix, i: int, cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, n: int)
  ensures crow(m, i, cp, s, kspan(s, cp.len() - 1, p, u), p, u, p + 1, n) == hrow(m, i, cp, s, p, u, n) decreases n
{ if n > 0 { lemma_crow_hrow(m, i, cp, s, p, u, n - 1); } }
