// The scalar type R (exact reals), points and vectors by coordinate, and assumed contracts of std/nalgebra.
#[derive(Debug)]
pub struct Error;

#[verifier::external_body]
#[derive(Copy)]
pub struct R { x: f64 }
impl View for R { type V = real; uninterp spec fn view(&self) -> real; }
impl Clone for R {
  #[verifier::external_body]
  fn clone(&self) -> (r: R) ensures r == *self { *self } }

pub uninterp spec fn eps() -> real;
#[verifier::external_body]
pub proof fn axiom_eps() ensures eps() >= 0real {}
// two scalars with the same value are the same scalar
#[verifier::external_body]
pub broadcast proof fn axiom_r_ext(a: R, b: R) ensures #![trigger a@, b@] (a@ == b@) ==> a == b {}
#[verifier::external_body]
pub proof fn r_of(x: real) -> (r: R) ensures r@ == x { unimplemented!() }

pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { 0real - x } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub uninterp spec fn rsqrt(x: real) -> real;
#[verifier::external_body]
pub broadcast proof fn axiom_sqrt(x: real) requires x >= 0real ensures #[trigger] rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x {}

impl R {
  #[verifier::external_body]
  pub fn zero() -> (r: R) ensures r@ == 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn one() -> (r: R) ensures r@ == 1real { unimplemented!() }
  #[verifier::external_body]
  pub fn default_epsilon() -> (r: R) ensures r@ == eps(), eps() >= 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn from_usize(n: usize) -> (r: Option<R>) ensures r.is_some(), r.unwrap()@ == n as real { unimplemented!() }
  #[verifier::external_body]
  pub fn from_isize(n: isize) -> (r: Option<R>) ensures r.is_some(), r.unwrap()@ == n as real { unimplemented!() }
  pub fn from_f64(x: R) -> (r: Option<R>) ensures r.is_some(), r.unwrap() == x { Some(x) }
  #[verifier::external_body]
  pub fn abs(self) -> (r: R) ensures r@ == rabs(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn min(self, o: R) -> (r: R) ensures r@ == rmin(self@, o@), r == self || r == o { unimplemented!() }
  #[verifier::external_body]
  pub fn max(self, o: R) -> (r: R) ensures r@ == rmax(self@, o@), r == self || r == o { unimplemented!() }
  #[verifier::external_body]
  pub fn clamp(self, lo: R, hi: R) -> (r: R) requires lo@ <= hi@ ensures r@ == (if self@ < lo@ { lo@ } else if self@ > hi@ { hi@ } else { self@ }), r == self || r == lo || r == hi { unimplemented!() }
  #[verifier::external_body]
  pub fn sqrt(self) -> (r: R) requires self@ >= 0real ensures r@ == rsqrt(self@), r@ >= 0real, r@ * r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0real) { unimplemented!() }
}
// num / den
#[verifier::external_body]
pub fn r_lit(num: u64, den: u64) -> (r: R) requires den > 0 ensures r@ == (num as real) / (den as real), den == 1 ==> r@ == num as real { unimplemented!() }

impl PartialEqSpecImpl<R> for R {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &R) -> bool { self@ == other@ }
}
impl PartialEq<R> for R {
  #[verifier::external_body]
  fn eq(&self, o: &R) -> (r: bool) { self.x == o.x } }
impl PartialOrdSpecImpl<R> for R {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, other: &R) -> Option<Ordering> { if self@ < other@ { Some(Ordering::Less) } else if self@ == other@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd<R> for R {
  #[verifier::external_body]
  fn partial_cmp(&self, o: &R) -> (r: Option<Ordering>) { self.x.partial_cmp(&o.x) } }
impl AddSpecImpl<R> for R {
  open spec fn obeys_add_spec() -> bool { false }
  open spec fn add_req(self, rhs: R) -> bool { true }
  open spec fn add_spec(self, rhs: R) -> R { arbitrary() }
}
impl Add<R> for R { type Output = R;
  #[verifier::external_body]
  fn add(self, rhs: R) -> (r: R) ensures r@ == self@ + rhs@ { unimplemented!() } }
impl SubSpecImpl<R> for R {
  open spec fn obeys_sub_spec() -> bool { false }
  open spec fn sub_req(self, rhs: R) -> bool { true }
  open spec fn sub_spec(self, rhs: R) -> R { arbitrary() }
}
impl Sub<R> for R { type Output = R;
  #[verifier::external_body]
  fn sub(self, rhs: R) -> (r: R) ensures r@ == self@ - rhs@ { unimplemented!() } }
impl MulSpecImpl<R> for R {
  open spec fn obeys_mul_spec() -> bool { false }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> R { arbitrary() }
}
impl Mul<R> for R { type Output = R;
  #[verifier::external_body]
  fn mul(self, rhs: R) -> (r: R) ensures r@ == self@ * rhs@ { unimplemented!() } }
impl DivSpecImpl<R> for R {
  open spec fn obeys_div_spec() -> bool { false }
  open spec fn div_req(self, rhs: R) -> bool { true }
  open spec fn div_spec(self, rhs: R) -> R { arbitrary() }
}
impl Div<R> for R { type Output = R;
  #[verifier::external_body]
  fn div(self, rhs: R) -> (r: R) ensures rhs@ != 0real ==> r@ == self@ / rhs@, rhs@ != 0real ==> r@ * rhs@ == self@ { unimplemented!() } }
impl AddAssignSpecImpl<R> for R {
  open spec fn obeys_add_assign_spec() -> bool { false }
  open spec fn add_assign_req(&self, rhs: R) -> bool { true }
  open spec fn add_assign_spec(&self, rhs: R) -> &R { arbitrary() }
}
impl AddAssign<R> for R {
  #[verifier::external_body]
  fn add_assign(&mut self, rhs: R) ensures final(self)@ == old(self)@ + rhs@ { unimplemented!() } }
impl SubAssignSpecImpl<R> for R {
  open spec fn obeys_sub_assign_spec() -> bool { false }
  open spec fn sub_assign_req(&self, rhs: R) -> bool { true }
  open spec fn sub_assign_spec(&self, rhs: R) -> &R { arbitrary() }
}
impl SubAssign<R> for R {
  #[verifier::external_body]
  fn sub_assign(&mut self, rhs: R) ensures final(self)@ == old(self)@ - rhs@ { unimplemented!() } }
impl MulAssignSpecImpl<R> for R {
  open spec fn obeys_mul_assign_spec() -> bool { false }
  open spec fn mul_assign_req(&self, rhs: R) -> bool { true }
  open spec fn mul_assign_spec(&self, rhs: R) -> &R { arbitrary() }
}
impl MulAssign<R> for R {
  #[verifier::external_body]
  fn mul_assign(&mut self, rhs: R) ensures final(self)@ == old(self)@ * rhs@ { unimplemented!() } }
impl DivAssignSpecImpl<R> for R {
  open spec fn obeys_div_assign_spec() -> bool { false }
  open spec fn div_assign_req(&self, rhs: R) -> bool { true }
  open spec fn div_assign_spec(&self, rhs: R) -> &R { arbitrary() }
}
impl DivAssign<R> for R {
  #[verifier::external_body]
  fn div_assign(&mut self, rhs: R) ensures rhs@ != 0real ==> final(self)@ == old(self)@ / rhs@, rhs@ != 0real ==> final(self)@ * rhs@ == old(self)@ { unimplemented!() } }
impl NegSpecImpl for R {
  open spec fn obeys_neg_spec() -> bool { false }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> R { arbitrary() }
}
impl Neg for R { type Output = R;
  #[verifier::external_body]
  fn neg(self) -> (r: R) ensures r@ == 0real - self@ { unimplemented!() } }

pub assume_specification<T> [<[T]>::to_vec] (a: &[T]) -> (r: std::vec::Vec<T>)
 where T: std::clone::Clone, ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> cloned::<T>(a@[i], #[trigger] r@[i]);
pub assume_specification<T> [<[T]>::reverse] (a: &mut [T]) ensures final(a)@ == old(a)@.reverse();

pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn len_minus_1(a: usize) -> (r: usize) ensures r as int == (if a == 0 { 0int } else { a - 1 }) { if a == 0 { 0 } else { a - 1 } }
pub fn next_mod(i: usize, n: usize) -> (r: usize) requires i < n ensures r as int == (if i + 1 == n { 0int } else { i + 1 }) { if i + 1 == n { 0 } else { i + 1 } }
#[verifier::external_body]
pub fn vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == x { vec![x; n] }

#[verifier::external_body]
pub fn sort_asc(v: &mut Vec<R>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> (#[trigger] final(v)@[i])@ <= (#[trigger] final(v)@[j])@ { unimplemented!() }
pub fn convert(x: R) -> (r: R) ensures r == x { x }
#[verifier::external_body]
pub fn slice_copy<T: Clone>(x: &mut Vec<T>, a: usize, b: usize, y: &[T], c: usize, d: usize)
  requires a <= b <= old(x)@.len(), c <= d <= y@.len(), b - a == d - c
  ensures final(x)@.len() == old(x)@.len(), forall|i: int| 0 <= i < old(x)@.len() ==> (#[trigger] final(x)@[i]) == (if a <= i < b { y@[i - a + c] } else { old(x)@[i] })
{ x[a..b].clone_from_slice(&y[c..d]) }
#[verifier::external_body]
pub fn vec_extend<T: Clone>(x: &mut Vec<T>, y: Vec<T>) ensures final(x)@ == old(x)@ + y@ { unimplemented!() }
#[verifier::external_body]
pub fn slice_vec<T: Clone>(y: &[T], c: usize, d: usize) -> (r: Vec<T>)
  requires c <= d <= y@.len()
  ensures r@ == y@.subrange(c as int, d as int)
{ y[c..d].to_vec() }

// a vector of elements that take space holds less than isize::MAX bytes; used only for such elements
#[verifier::external_body]
pub proof fn axiom_vec_len<T>(v: &Vec<T>) ensures v.len() < 0x7fff_ffff_ffff_ffff {}
