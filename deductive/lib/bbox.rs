// needs: point
// Boxes. bdim() is the dimension D of the box's own space.
pub uninterp spec fn bdim() -> nat;
#[verifier::external_body]
pub proof fn axiom_bdim() ensures bdim() >= 1 {}
#[verifier::external_body]
pub fn b_dim() -> (r: usize) ensures r == bdim(), r >= 1 { unimplemented!() }
// the largest finite scalar
pub uninterp spec fn big() -> real;
impl R {
  #[verifier::external_body]
  pub fn max_value() -> (r: Option<R>) ensures r.is_some(), r.unwrap()@ == big(), big() >= 0real { unimplemented!() }
}
impl OVector {
  #[verifier::external_body]
  pub fn from_element(x: R) -> (r: OVector) ensures forall|i: int| 0 <= i < bdim() ==> #[trigger] r.c(i) == x@ { unimplemented!() }
}
pub open spec fn fits(v: OVector) -> bool { forall|i: int| 0 <= i < bdim() ==> 0real - big() <= #[trigger] v.c(i) <= big() }
// overlap of the intervals [a0, a1] and [b0, b1] by the sign test of the code
pub proof fn lemma_sep(a0: real, a1: real, b0: real, b1: real)
  requires a0 <= a1, b0 <= b1
  ensures ((b0 - a1) * (b1 - a0) > 0real) == (b0 > a1 || a0 > b1)
{
  let x = b0 - a1; let y = b1 - a0;
  assert(x <= y);
  assert(x > 0real ==> x * y > 0real) by (nonlinear_arith) requires x <= y;
  assert(y < 0real ==> x * y > 0real) by (nonlinear_arith) requires x <= y;
  assert(x <= 0real && y >= 0real ==> x * y <= 0real) by (nonlinear_arith);
}
