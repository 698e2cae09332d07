// needs: base
// Points and vectors of any dimension: coordinate functions c(i).
pub uninterp spec fn dim() -> nat;
#[verifier::external_body]
pub proof fn axiom_dim() ensures dim() >= 1 {}
#[verifier::external_body]
pub fn d_dim() -> (r: usize) ensures r == dim(), r >= 1 { unimplemented!() }

#[verifier::external_body]
#[derive(Copy)]
pub struct OVector { v: f64 }
impl OVector { pub uninterp spec fn c(&self, i: int) -> real; }
#[derive(Copy)]
pub struct OPoint { pub coords: OVector }
impl OPoint { pub open spec fn c(&self, i: int) -> real { self.coords.c(i) } }
impl Clone for OVector {
  #[verifier::external_body]
  fn clone(&self) -> (r: OVector) ensures r == *self { unimplemented!() } }
impl Clone for OPoint {
  #[verifier::external_body]
  fn clone(&self) -> (r: OPoint) ensures r == *self { unimplemented!() } }
pub open spec fn same(a: OVector, b: OVector) -> bool { forall|i: int| #[trigger] a.c(i) == b.c(i) }
// vectors are their coordinates
#[verifier::external_body]
pub proof fn axiom_vec_ext(a: OVector, b: OVector) requires same(a, b) ensures a == b {}
pub open spec fn vec_is(v: OVector, f: spec_fn(int) -> real, n: int) -> bool { forall|i: int| (#[trigger] v.c(i)) == if 0 <= i < n { f(i) } else { 0real } }
// any list of coordinates is a vector
#[verifier::external_body]
pub proof fn axiom_vec_mk(f: spec_fn(int) -> real, n: int) ensures exists|v: OVector| #[trigger] vec_is(v, f, n) {}

// the leading dim()-1 coordinates
#[verifier::external_body]
pub fn view_head(v: &OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == (if 0 <= i < dim() - 1 { v.c(i) } else { 0real }) { unimplemented!() }

pub open spec fn is_cross(r: OVector, a: OVector, b: OVector) -> bool {
  r.c(0) == a.c(1) * b.c(2) - a.c(2) * b.c(1) && r.c(1) == a.c(2) * b.c(0) - a.c(0) * b.c(2) && r.c(2) == a.c(0) * b.c(1) - a.c(1) * b.c(0) && forall|i: int| i < 0 || i > 2 ==> #[trigger] r.c(i) == 0real
}
pub open spec fn vdotn(a: OVector, b: OVector, n: int) -> real decreases n { if n <= 0 { 0real } else { vdotn(a, b, n - 1) + a.c(n - 1) * b.c(n - 1) } }
pub open spec fn vdot(a: OVector, b: OVector) -> real { vdotn(a, b, dim() as int) }
// Euclidean length (coordinates beyond a vector's own dimension are zero)
pub uninterp spec fn vnorm(v: OVector) -> real;
#[verifier::external_body]
pub proof fn axiom_vnorm(v: OVector) ensures vnorm(v) >= 0real, vnorm(v) * vnorm(v) == vdot(v, v) {}
// the difference of two points and its length
pub open spec fn is_sub(v: OVector, a: OPoint, b: OPoint) -> bool { forall|i: int| (#[trigger] v.c(i)) == a.coords.c(i) - b.coords.c(i) }
pub open spec fn pdiff(a: OPoint, b: OPoint) -> OVector { choose|v: OVector| is_sub(v, a, b) }
pub open spec fn pdist(a: OPoint, b: OPoint) -> real { vnorm(pdiff(a, b)) }
pub proof fn lemma_pdiff(v: OVector, a: OPoint, b: OPoint)
  requires is_sub(v, a, b)
  ensures v == pdiff(a, b)
{ axiom_vec_ext(v, pdiff(a, b)); }
pub proof fn lemma_vdotn_neg(v: OVector, w: OVector, n: int)
  requires forall|i: int| (#[trigger] v.c(i)) == 0real - w.c(i)
  ensures vdotn(v, v, n) == vdotn(w, w, n)
  decreases n
{ if n > 0 { lemma_vdotn_neg(v, w, n - 1); let x = v.c(n - 1); let y = w.c(n - 1); assert(x * x == y * y) by (nonlinear_arith) requires x == 0real - y; } }
pub proof fn lemma_pdist_sym(a: OPoint, b: OPoint)
  requires exists|v: OVector| is_sub(v, a, b), exists|v: OVector| is_sub(v, b, a)
  ensures pdist(a, b) == pdist(b, a)
{
  let v = pdiff(a, b); let w = pdiff(b, a);
  assert(is_sub(v, a, b)); assert(is_sub(w, b, a));
  lemma_vdotn_neg(v, w, dim() as int);
  axiom_vnorm(v); axiom_vnorm(w);
  let x = vnorm(v); let y = vnorm(w);
  assert(x == y) by (nonlinear_arith) requires x >= 0real, y >= 0real, x * x == y * y;
}
impl OVector {
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == dim() { unimplemented!() }
  #[verifier::external_body]
  pub fn as_slice(&self) -> (r: &Vec<R>) ensures r@.len() == dim(), forall|i: int| 0 <= i < dim() ==> (#[trigger] r@[i])@ == self.c(i) { unimplemented!() }
  // the elements of the slice, zero elsewhere
  #[verifier::external_body]
  pub fn from_vec(v: Vec<R>) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == (if 0 <= i < v@.len() { v@[i]@ } else { 0real }) { unimplemented!() }
  #[verifier::external_body]
  pub fn zeros() -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn norm(&self) -> (r: R) ensures r@ == vnorm(*self), r@ >= 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn magnitude_squared(&self) -> (r: R) ensures r@ == vdot(*self, *self), r@ >= 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn norm_squared(&self) -> (r: R) ensures r@ == vdot(*self, *self), r@ >= 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn dot(&self, o: &OVector) -> (r: R) ensures r@ == vdot(*self, *o) { unimplemented!() }
  #[verifier::external_body]
  pub fn new2(x: R, y: R) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == (if i == 0 { x@ } else if i == 1 { y@ } else { 0real }) { unimplemented!() }
  #[verifier::external_body]
  pub fn new3(x: R, y: R, z: R) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == (if i == 0 { x@ } else if i == 1 { y@ } else if i == 2 { z@ } else { 0real }) { unimplemented!() }
  // unit vector; nothing is said of the zero vector
  #[verifier::external_body]
  pub fn normalize(&self) -> (r: OVector) ensures vnorm(*self) != 0real ==> (forall|i: int| #[trigger] r.c(i) == self.c(i) / vnorm(*self)) { unimplemented!() }
  // nalgebra's cross product exists in three dimensions only
  #[verifier::external_body]
  pub fn cross(&self, o: &OVector) -> (r: OVector) requires dim() == 4 ensures is_cross(r, *self, *o) { unimplemented!() }
}
impl OPoint {
  #[verifier::external_body]
  pub fn new2(x: R, y: R) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == (if i == 0 { x@ } else if i == 1 { y@ } else { 0real }) { unimplemented!() }
  #[verifier::external_body]
  pub fn new3(x: R, y: R, z: R) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == (if i == 0 { x@ } else if i == 1 { y@ } else if i == 2 { z@ } else { 0real }) { unimplemented!() }
  #[verifier::external_body]
  pub fn from_slice(v: &Vec<R>) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == (if 0 <= i < v@.len() { v@[i]@ } else { 0real }) { unimplemented!() }
  pub fn cast(self) -> (r: OPoint) ensures r == self { self }
  // a point of the plain space with weight one
  #[verifier::external_body]
  pub fn to_homogeneous(&self) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == (if 0 <= i < dim() - 1 { self.coords.c(i) } else if i == dim() - 1 { 1real } else { 0real }) { unimplemented!() }
  #[verifier::external_body]
  pub fn origin() -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn lerp(&self, o: &OPoint, t: R) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) * (1real - t@) + o.coords.c(i) * t@ { unimplemented!() }
}
impl AddSpecImpl<OVector> for OVector {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: OVector) -> bool { true }
  open spec fn add_spec(self, rhs: OVector) -> OVector { arbitrary() }
}
impl Add<OVector> for OVector { type Output = OVector;
  #[verifier::external_body]
  fn add(self, rhs: OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) + rhs.c(i) { unimplemented!() } }
impl SubSpecImpl<OVector> for OVector {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: OVector) -> OVector { arbitrary() }
}
impl Sub<OVector> for OVector { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) - rhs.c(i) { unimplemented!() } }
impl<'b> AddSpecImpl<&'b OVector> for OVector {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn add_spec(self, rhs: &'b OVector) -> OVector { arbitrary() }
}
impl<'b> Add<&'b OVector> for OVector { type Output = OVector;
  #[verifier::external_body]
  fn add(self, rhs: &'b OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) + rhs.c(i) { unimplemented!() } }
impl<'b> SubSpecImpl<&'b OVector> for OVector {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b OVector) -> OVector { arbitrary() }
}
impl<'b> Sub<&'b OVector> for OVector { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: &'b OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) - rhs.c(i) { unimplemented!() } }
impl MulSpecImpl<R> for OVector {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> OVector { arbitrary() }
}
impl Mul<R> for OVector { type Output = OVector;
  #[verifier::external_body]
  fn mul(self, rhs: R) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) * rhs@ { unimplemented!() } }
impl DivSpecImpl<R> for OVector {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: R) -> bool { true }
  open spec fn div_spec(self, rhs: R) -> OVector { arbitrary() }
}
impl Div<R> for OVector { type Output = OVector;
  #[verifier::external_body]
  fn div(self, rhs: R) -> (r: OVector) ensures rhs@ != 0real ==> forall|i: int| #[trigger] r.c(i) * rhs@ == self.c(i), rhs@ != 0real ==> forall|i: int| #[trigger] r.c(i) == self.c(i) / rhs@ { unimplemented!() } }
impl NegSpecImpl for OVector {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> OVector { arbitrary() }
}
impl Neg for OVector { type Output = OVector;
  #[verifier::external_body]
  fn neg(self) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == 0real - self.c(i) { unimplemented!() } }
impl<'a> AddSpecImpl<OVector> for &'a OVector {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: OVector) -> bool { true }
  open spec fn add_spec(self, rhs: OVector) -> OVector { arbitrary() }
}
impl<'a> Add<OVector> for &'a OVector { type Output = OVector;
  #[verifier::external_body]
  fn add(self, rhs: OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) + rhs.c(i) { unimplemented!() } }
impl<'a> SubSpecImpl<OVector> for &'a OVector {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: OVector) -> OVector { arbitrary() }
}
impl<'a> Sub<OVector> for &'a OVector { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) - rhs.c(i) { unimplemented!() } }
impl<'a,'b> AddSpecImpl<&'b OVector> for &'a OVector {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn add_spec(self, rhs: &'b OVector) -> OVector { arbitrary() }
}
impl<'a,'b> Add<&'b OVector> for &'a OVector { type Output = OVector;
  #[verifier::external_body]
  fn add(self, rhs: &'b OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) + rhs.c(i) { unimplemented!() } }
impl<'a,'b> SubSpecImpl<&'b OVector> for &'a OVector {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b OVector) -> OVector { arbitrary() }
}
impl<'a,'b> Sub<&'b OVector> for &'a OVector { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: &'b OVector) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) - rhs.c(i) { unimplemented!() } }
impl<'a> MulSpecImpl<R> for &'a OVector {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> OVector { arbitrary() }
}
impl<'a> Mul<R> for &'a OVector { type Output = OVector;
  #[verifier::external_body]
  fn mul(self, rhs: R) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.c(i) * rhs@ { unimplemented!() } }
impl<'a> DivSpecImpl<R> for &'a OVector {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: R) -> bool { true }
  open spec fn div_spec(self, rhs: R) -> OVector { arbitrary() }
}
impl<'a> Div<R> for &'a OVector { type Output = OVector;
  #[verifier::external_body]
  fn div(self, rhs: R) -> (r: OVector) ensures rhs@ != 0real ==> forall|i: int| #[trigger] r.c(i) * rhs@ == self.c(i), rhs@ != 0real ==> forall|i: int| #[trigger] r.c(i) == self.c(i) / rhs@ { unimplemented!() } }
impl<'a> NegSpecImpl for &'a OVector {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> OVector { arbitrary() }
}
impl<'a> Neg for &'a OVector { type Output = OVector;
  #[verifier::external_body]
  fn neg(self) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == 0real - self.c(i) { unimplemented!() } }
impl SubSpecImpl<OPoint> for OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: OPoint) -> bool { true }
  open spec fn sub_spec(self, rhs: OPoint) -> OVector { arbitrary() }
}
impl Sub<OPoint> for OPoint { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: OPoint) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.coords.c(i) - rhs.coords.c(i) { unimplemented!() } }
impl<'b> SubSpecImpl<&'b OPoint> for OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b OPoint) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b OPoint) -> OVector { arbitrary() }
}
impl<'b> Sub<&'b OPoint> for OPoint { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: &'b OPoint) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.coords.c(i) - rhs.coords.c(i) { unimplemented!() } }
impl AddSpecImpl<OVector> for OPoint {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: OVector) -> bool { true }
  open spec fn add_spec(self, rhs: OVector) -> OPoint { arbitrary() }
}
impl Add<OVector> for OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn add(self, rhs: OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) + rhs.c(i) { unimplemented!() } }
impl SubSpecImpl<OVector> for OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: OVector) -> OPoint { arbitrary() }
}
impl Sub<OVector> for OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn sub(self, rhs: OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) - rhs.c(i) { unimplemented!() } }
impl<'b> AddSpecImpl<&'b OVector> for OPoint {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn add_spec(self, rhs: &'b OVector) -> OPoint { arbitrary() }
}
impl<'b> Add<&'b OVector> for OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn add(self, rhs: &'b OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) + rhs.c(i) { unimplemented!() } }
impl<'b> SubSpecImpl<&'b OVector> for OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b OVector) -> OPoint { arbitrary() }
}
impl<'b> Sub<&'b OVector> for OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn sub(self, rhs: &'b OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) - rhs.c(i) { unimplemented!() } }
impl MulSpecImpl<R> for OPoint {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> OPoint { arbitrary() }
}
impl Mul<R> for OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn mul(self, rhs: R) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) * rhs@ { unimplemented!() } }
impl<'a> SubSpecImpl<OPoint> for &'a OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: OPoint) -> bool { true }
  open spec fn sub_spec(self, rhs: OPoint) -> OVector { arbitrary() }
}
impl<'a> Sub<OPoint> for &'a OPoint { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: OPoint) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.coords.c(i) - rhs.coords.c(i) { unimplemented!() } }
impl<'a,'b> SubSpecImpl<&'b OPoint> for &'a OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b OPoint) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b OPoint) -> OVector { arbitrary() }
}
impl<'a,'b> Sub<&'b OPoint> for &'a OPoint { type Output = OVector;
  #[verifier::external_body]
  fn sub(self, rhs: &'b OPoint) -> (r: OVector) ensures forall|i: int| #[trigger] r.c(i) == self.coords.c(i) - rhs.coords.c(i) { unimplemented!() } }
impl<'a> AddSpecImpl<OVector> for &'a OPoint {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: OVector) -> bool { true }
  open spec fn add_spec(self, rhs: OVector) -> OPoint { arbitrary() }
}
impl<'a> Add<OVector> for &'a OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn add(self, rhs: OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) + rhs.c(i) { unimplemented!() } }
impl<'a> SubSpecImpl<OVector> for &'a OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: OVector) -> OPoint { arbitrary() }
}
impl<'a> Sub<OVector> for &'a OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn sub(self, rhs: OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) - rhs.c(i) { unimplemented!() } }
impl<'a,'b> AddSpecImpl<&'b OVector> for &'a OPoint {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn add_spec(self, rhs: &'b OVector) -> OPoint { arbitrary() }
}
impl<'a,'b> Add<&'b OVector> for &'a OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn add(self, rhs: &'b OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) + rhs.c(i) { unimplemented!() } }
impl<'a,'b> SubSpecImpl<&'b OVector> for &'a OPoint {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: &'b OVector) -> bool { true }
  open spec fn sub_spec(self, rhs: &'b OVector) -> OPoint { arbitrary() }
}
impl<'a,'b> Sub<&'b OVector> for &'a OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn sub(self, rhs: &'b OVector) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) - rhs.c(i) { unimplemented!() } }
impl<'a> MulSpecImpl<R> for &'a OPoint {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> OPoint { arbitrary() }
}
impl<'a> Mul<R> for &'a OPoint { type Output = OPoint;
  #[verifier::external_body]
  fn mul(self, rhs: R) -> (r: OPoint) ensures forall|i: int| #[trigger] r.coords.c(i) == self.coords.c(i) * rhs@ { unimplemented!() } }
impl AddAssignSpecImpl<OVector> for OVector {
  open spec fn obeys_add_assign_spec() -> bool { false }
  open spec fn add_assign_req(&self, rhs: OVector) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: OVector) -> &OVector { arbitrary() }
}
impl AddAssign<OVector> for OVector {
  #[verifier::external_body]
  fn add_assign(&mut self, rhs: OVector) ensures forall|i: int| #[trigger] final(self).c(i) == old(self).c(i) + rhs.c(i) { unimplemented!() } }
impl SubAssignSpecImpl<OVector> for OVector {
  open spec fn obeys_sub_assign_spec() -> bool { false }
  open spec fn sub_assign_req(&self, rhs: OVector) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: OVector) -> &OVector { arbitrary() }
}
impl SubAssign<OVector> for OVector {
  #[verifier::external_body]
  fn sub_assign(&mut self, rhs: OVector) ensures forall|i: int| #[trigger] final(self).c(i) == old(self).c(i) - rhs.c(i) { unimplemented!() } }
impl<'a> AddAssignSpecImpl<&'a OVector> for OVector {
  open spec fn obeys_add_assign_spec() -> bool { false }
  open spec fn add_assign_req(&self, rhs: &'a OVector) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: &'a OVector) -> &OVector { arbitrary() }
}
impl<'a> AddAssign<&'a OVector> for OVector {
  #[verifier::external_body]
  fn add_assign(&mut self, rhs: &'a OVector) ensures forall|i: int| #[trigger] final(self).c(i) == old(self).c(i) + rhs.c(i) { unimplemented!() } }
impl<'a> SubAssignSpecImpl<&'a OVector> for OVector {
  open spec fn obeys_sub_assign_spec() -> bool { false }
  open spec fn sub_assign_req(&self, rhs: &'a OVector) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: &'a OVector) -> &OVector { arbitrary() }
}
impl<'a> SubAssign<&'a OVector> for OVector {
  #[verifier::external_body]
  fn sub_assign(&mut self, rhs: &'a OVector) ensures forall|i: int| #[trigger] final(self).c(i) == old(self).c(i) - rhs.c(i) { unimplemented!() } }
impl MulAssignSpecImpl<R> for OVector {
  open spec fn obeys_mul_assign_spec() -> bool { false }
  open spec fn mul_assign_req(&self, rhs: R) -> bool { true }
  open spec fn mul_assign_spec(&self, rhs: R) -> &OVector { arbitrary() }
}
impl MulAssign<R> for OVector {
  #[verifier::external_body]
  fn mul_assign(&mut self, rhs: R) ensures forall|i: int| #[trigger] final(self).c(i) == old(self).c(i) * rhs@ { unimplemented!() } }
impl IndexSpecImpl<usize> for OVector {
  open spec fn index_req(&self, i: &usize) -> bool { true }
}
impl Index<usize> for OVector { type Output = R;
  #[verifier::external_body]
  fn index(&self, i: usize) -> (r: &R) ensures r@ == self.c(i as int) { unimplemented!() } }
impl AddAssignSpecImpl<OVector> for OPoint {
  open spec fn obeys_add_assign_spec() -> bool { false }
  open spec fn add_assign_req(&self, rhs: OVector) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: OVector) -> &OPoint { arbitrary() }
}
impl AddAssign<OVector> for OPoint {
  #[verifier::external_body]
  fn add_assign(&mut self, rhs: OVector) ensures forall|i: int| #[trigger] final(self).coords.c(i) == old(self).coords.c(i) + rhs.c(i) { unimplemented!() } }
impl SubAssignSpecImpl<OVector> for OPoint {
  open spec fn obeys_sub_assign_spec() -> bool { false }
  open spec fn sub_assign_req(&self, rhs: OVector) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: OVector) -> &OPoint { arbitrary() }
}
impl SubAssign<OVector> for OPoint {
  #[verifier::external_body]
  fn sub_assign(&mut self, rhs: OVector) ensures forall|i: int| #[trigger] final(self).coords.c(i) == old(self).coords.c(i) - rhs.c(i) { unimplemented!() } }
impl<'a> AddAssignSpecImpl<&'a OVector> for OPoint {
  open spec fn obeys_add_assign_spec() -> bool { false }
  open spec fn add_assign_req(&self, rhs: &'a OVector) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: &'a OVector) -> &OPoint { arbitrary() }
}
impl<'a> AddAssign<&'a OVector> for OPoint {
  #[verifier::external_body]
  fn add_assign(&mut self, rhs: &'a OVector) ensures forall|i: int| #[trigger] final(self).coords.c(i) == old(self).coords.c(i) + rhs.c(i) { unimplemented!() } }
impl<'a> SubAssignSpecImpl<&'a OVector> for OPoint {
  open spec fn obeys_sub_assign_spec() -> bool { false }
  open spec fn sub_assign_req(&self, rhs: &'a OVector) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: &'a OVector) -> &OPoint { arbitrary() }
}
impl<'a> SubAssign<&'a OVector> for OPoint {
  #[verifier::external_body]
  fn sub_assign(&mut self, rhs: &'a OVector) ensures forall|i: int| #[trigger] final(self).coords.c(i) == old(self).coords.c(i) - rhs.c(i) { unimplemented!() } }
impl MulAssignSpecImpl<R> for OPoint {
  open spec fn obeys_mul_assign_spec() -> bool { false }
  open spec fn mul_assign_req(&self, rhs: R) -> bool { true }
  open spec fn mul_assign_spec(&self, rhs: R) -> &OPoint { arbitrary() }
}
impl MulAssign<R> for OPoint {
  #[verifier::external_body]
  fn mul_assign(&mut self, rhs: R) ensures forall|i: int| #[trigger] final(self).coords.c(i) == old(self).coords.c(i) * rhs@ { unimplemented!() } }
impl IndexSpecImpl<usize> for OPoint {
  open spec fn index_req(&self, i: &usize) -> bool { true }
}
impl Index<usize> for OPoint { type Output = R;
  #[verifier::external_body]
  fn index(&self, i: usize) -> (r: &R) ensures r@ == self.coords.c(i as int) { unimplemented!() } }
impl IndexMut<usize> for OVector {
  #[verifier::external_body]
  fn index_mut(&mut self, i: usize) -> (r: &mut R) ensures r@ == old(self).c(i as int), final(self).c(i as int) == final(r)@, forall|j: int| j != i ==> #[trigger] final(self).c(j) == old(self).c(j) { unimplemented!() } }
impl IndexMut<usize> for OPoint {
  #[verifier::external_body]
  fn index_mut(&mut self, i: usize) -> (r: &mut R) ensures r@ == old(self).coords.c(i as int), final(self).coords.c(i as int) == final(r)@, forall|j: int| j != i ==> #[trigger] final(self).coords.c(j) == old(self).coords.c(j) { unimplemented!() } }
impl From<OVector> for OPoint {
  #[verifier::external_body]
  fn from(v: OVector) -> (r: OPoint) ensures r.coords == v { OPoint { coords: v } } }
