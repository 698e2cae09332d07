// needs: poly
// trigonometry: the functions of exact real numbers
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn pi() -> real;
#[verifier::external_body]
pub fn r_pi() -> (r: R) ensures r@ == pi(), r@ > 0real { unimplemented!() }
#[verifier::external_body]
pub fn r_tau() -> (r: R) ensures r@ == 2real * pi(), r@ > 0real { unimplemented!() }
#[verifier::external_body]
pub fn r_frac_pi_2() -> (r: R) ensures r@ == pi() / 2real, r@ > 0real { unimplemented!() }
impl R {
  #[verifier::external_body]
  pub fn cos(self) -> (r: R) ensures r@ == rcos(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn sin(self) -> (r: R) ensures r@ == rsin(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn floor(self) -> (r: R) ensures r@ <= self@ < r@ + 1real { unimplemented!() }
  #[verifier::external_body]
  pub fn to_usize(self) -> (r: Option<usize>) ensures r.is_some() ==> r.unwrap() as real <= self@ { unimplemented!() }
}
impl OVector {
  #[verifier::external_body]
  pub fn normalize_mut(&mut self) -> (r: R) ensures vnorm(*old(self)) != 0real ==> (forall|i: int| #[trigger] final(self).c(i) == old(self).c(i) / vnorm(*old(self))) { unimplemented!() }
}
pub assume_specification [<usize as Ord>::clamp] (x: usize, lo: usize, hi: usize) -> (r: usize)
  ensures lo <= hi ==> r == (if x < lo { lo } else if x > hi { hi } else { x });
// the point of the ellipse with axes x, y around the centre at an angle
pub open spec fn ellpt(h: OPoint, ce: OPoint, x: OVector, y: OVector, a: real) -> bool {
  h.coords.c(dim() - 1) == 1real && forall|i: int| 0 <= i < dim() - 1 ==> (#[trigger] h.coords.c(i)) == ce.coords.c(i) + x.c(i) * rcos(a) + y.c(i) * rsin(a)
}
pub open spec fn ellplain(h: OPoint, ce: OPoint, x: OVector, y: OVector, a: real) -> bool {
  forall|i: int| 0 <= i < dim() - 1 ==> (#[trigger] h.coords.c(i)) == ce.coords.c(i) + x.c(i) * rcos(a) + y.c(i) * rsin(a)
}
// knots of an arc in n pieces: every piece the same share of the angle range
pub open spec fn arcknots(s: Seq<R>, a: real, b: real, n: int) -> bool {
  s.len() == 2 * n + 4 && s[0]@ == a && s[2 * n + 3]@ == b && forall|k: int| 0 <= k <= n ==> #[trigger] twice(s, k, a, b, n)
}
// a knot that stands at 2k+1 and 2k+2
pub open spec fn twice(s: Seq<R>, k: int, a: real, b: real, n: int) -> bool { let x = a + (b - a) * ((k as real) / (n as real)); s[2 * k + 1]@ == x && s[2 * k + 2]@ == x }
// the quadratic pieces meet on the ellipse; the inner points have the cosine of half the angle of a piece as weight
pub open spec fn arcof(cp: Seq<OPoint>, s: Seq<R>, ce: OPoint, x: OVector, y: OVector, a: real, b: real, n: int) -> bool {
  &&& 1 <= n <= 4 && a < b && cp.len() == 2 * n + 1 && arcknots(s, a, b, n)
  &&& forall|k: int| 0 <= k <= n ==> #[trigger] arcend(cp, ce, x, y, a, (b - a) / (n as real), k)
  &&& forall|k: int| 0 <= k < n ==> #[trigger] cp[2 * k + 1].coords.c(dim() - 1) == rcos((b - a) / (n as real) / 2real)
}
pub open spec fn arcend(cp: Seq<OPoint>, ce: OPoint, x: OVector, y: OVector, a: real, d: real, k: int) -> bool { ellpt(cp[2 * k], ce, x, y, a + (k as real) * d) }
pub proof fn lemma_unscale(a: real, n: real, t: real) requires n != 0real ensures (a / n) * n == a, ((a / n) * n) * t == a * t
{ assert((a / n) * n == a) by (nonlinear_arith) requires n != 0real; }
pub proof fn lemma_zero_dot(v: OVector, w: OVector, n: int)
  ensures vdotn(v, v, n) >= 0real, vdotn(v, v, n) == 0real ==> vdotn(v, w, n) == 0real
  decreases n
{
  if n > 0 {
    lemma_zero_dot(v, w, n - 1);
    let x = v.c(n - 1); let y = w.c(n - 1);
    assert(x * x >= 0real) by (nonlinear_arith);
    assert(x * x == 0real ==> x == 0real) by (nonlinear_arith);
    assert(0real * y == 0real) by (nonlinear_arith);
  }
}
pub proof fn lemma_ell(p: OPoint, ce: OPoint, x: OVector, y: OVector, nx: real, ny: real, a: real)
  requires nx != 0real, ny != 0real, forall|i: int| #[trigger] p.coords.c(i) == ce.coords.c(i) + ((x.c(i) / nx) * nx) * rcos(a) + ((y.c(i) / ny) * ny) * rsin(a)
  ensures ellplain(p, ce, x, y, a)
{
  assert forall|i: int| 0 <= i < dim() - 1 implies (#[trigger] p.coords.c(i)) == ce.coords.c(i) + x.c(i) * rcos(a) + y.c(i) * rsin(a) by { lemma_unscale(x.c(i), nx, rcos(a)); lemma_unscale(y.c(i), ny, rsin(a)); }
}
pub open spec fn plainend(cp: Seq<OPoint>, w: Seq<R>, ce: OPoint, x: OVector, y: OVector, a: real, d: real, k: int) -> bool { ellplain(cp[2 * k], ce, x, y, a + (k as real) * d) && w[2 * k]@ == 1real }
pub open spec fn weighted(h: OPoint, p: OPoint, w: R) -> bool { h.coords.c(dim() - 1) == w@ && forall|i: int| 0 <= i < dim() - 1 ==> (#[trigger] h.coords.c(i)) == p.coords.c(i) * w@ }
pub proof fn lemma_fracs() ensures 0real / 1real == 0real, 1real / 1real == 1real, 0real / 2real == 0real, 2real / 2real == 1real, 0real / 3real == 0real, 3real / 3real == 1real, 0real / 4real == 0real, 4real / 4real == 1real
{ }
pub proof fn lemma_arc(cp: Seq<OPoint>, pl: Seq<OPoint>, w: Seq<R>, s: Seq<R>, k0: Seq<R>, ce: OPoint, x: OVector, y: OVector, a: real, b: real, n: int, w1: R)
  requires 1 <= n <= 4, a < b, cp.len() == 2 * n + 1, pl.len() == 2 * n + 1, w.len() == 2 * n + 1, s.len() == 2 * n + 4, k0.len() == s.len(), k0[0]@ == 0real, k0[2 * n + 3]@ == 1real,
    forall|k: int| 0 <= k <= n ==> #[trigger] twice(k0, k, 0real, 1real, n),
    forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j])@ == (b - a) * k0[j]@ + a, w1@ == rcos((b - a) / (n as real) / 2real),
    forall|k: int| 0 <= k <= n ==> #[trigger] plainend(pl, w, ce, x, y, a, (b - a) / (n as real), k), forall|k: int| 0 <= k < n ==> (#[trigger] w[2 * k + 1]) == w1,
    forall|j: int| 0 <= j < cp.len() ==> #[trigger] weighted(cp[j], pl[j], w[j])
  ensures arcof(cp, s, ce, x, y, a, b, n)
{
  let t = b - a; let d = t / (n as real);
  assert(t * 0real == 0real && t * 1real == t) by (nonlinear_arith);
  assert(arcknots(s, a, b, n)) by {
    assert forall|k: int| 0 <= k <= n implies #[trigger] twice(s, k, a, b, n) by { assert(twice(k0, k, 0real, 1real, n)); let x = (k as real) / (n as real); assert(0real + (1real - 0real) * x == x); }
  }
  assert forall|k: int| 0 <= k <= n implies #[trigger] arcend(cp, ce, x, y, a, d, k) by {
    assert(plainend(pl, w, ce, x, y, a, d, k)); assert(weighted(cp[2 * k], pl[2 * k], w[2 * k]));
    let h = cp[2 * k]; let ang = a + (k as real) * d;
    assert forall|i: int| 0 <= i < dim() - 1 implies (#[trigger] h.coords.c(i)) == ce.coords.c(i) + x.c(i) * rcos(ang) + y.c(i) * rsin(ang) by { let z = pl[2 * k].coords.c(i); assert(z * 1real == z) by (nonlinear_arith); }
  }
  assert forall|k: int| 0 <= k < n implies #[trigger] cp[2 * k + 1].coords.c(dim() - 1) == rcos((b - a) / (n as real) / 2real) by { assert(weighted(cp[2 * k + 1], pl[2 * k + 1], w[2 * k + 1])); assert(w[2 * k + 1] == w1); }
}
// the axis of a circle: the direction at length r
pub open spec fn isaxis(v: OVector, x: OVector, r: real) -> bool { forall|i: int| #[trigger] v.c(i) == (x.c(i) / vnorm(x)) * r }
pub proof fn lemma_vdotn_scale(v: OVector, x: OVector, k: real, n: int)
  requires forall|i: int| #[trigger] v.c(i) == k * x.c(i)
  ensures vdotn(v, v, n) == (k * k) * vdotn(x, x, n)
  decreases n
{
  if n > 0 {
    lemma_vdotn_scale(v, x, k, n - 1);
    let a = x.c(n - 1); let b = vdotn(x, x, n - 1); let kk = k * k; let aa = a * a;
    assert((k * a) * (k * a) == kk * aa) by (nonlinear_arith) requires kk == k * k, aa == a * a;
    assert(kk * (b + aa) == kk * b + kk * aa) by (nonlinear_arith);
  } else { assert((k * k) * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn lemma_axis(v: OVector, x: OVector, r: real)
  requires isaxis(v, x, r), vnorm(x) != 0real, r != 0real
  ensures vnorm(v) != 0real
{
  let nx = vnorm(x); let k = r / nx; let kk = k * k; let d = nx * nx;
  assert forall|i: int| #[trigger] v.c(i) == k * x.c(i) by { let a = x.c(i); assert((a / nx) * r == (r / nx) * a) by (nonlinear_arith) requires nx != 0real; }
  lemma_vdotn_scale(v, x, k, dim() as int);
  axiom_vnorm(x); axiom_vnorm(v);
  assert(k * nx == r) by (nonlinear_arith) requires k == r / nx, nx != 0real;
  assert(k != 0real) by (nonlinear_arith) requires k * nx == r, r != 0real;
  assert(kk != 0real) by (nonlinear_arith) requires kk == k * k, k != 0real;
  assert(d != 0real) by (nonlinear_arith) requires d == nx * nx, nx != 0real;
  assert(kk * d != 0real) by (nonlinear_arith) requires kk != 0real, d != 0real;
  assert(0real * 0real == 0real) by (nonlinear_arith);
}
