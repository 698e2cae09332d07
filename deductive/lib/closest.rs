// parameters in steps between the ends stay between them
pub proof fn lemma_step_in(lo: real, hi: real, n: int, j: int)
  requires lo <= hi, n >= 2, 0 <= j < n
  ensures lo <= lo + (j as real) * ((hi - lo) / (n as real - 1real)) <= hi
{
  let d = n as real - 1real; let w = hi - lo; let q = w / d; let x = j as real;
  assert(d >= 1real && 0real <= x <= d);
  assert(q >= 0real && q * d == w) by (nonlinear_arith) requires q == w / d, d >= 1real, w >= 0real;
  assert(0real <= x * q <= d * q) by (nonlinear_arith) requires 0real <= x <= d, q >= 0real;
  assert(d * q == q * d) by (nonlinear_arith);
}
pub proof fn lemma_convex(a: real, b: real, m: real)
  requires 0real <= m <= 1real
  ensures a <= b ==> a <= a + m * (b - a) <= b, a >= b ==> b <= a + m * (b - a) <= a
{ let d = b - a; assert(d >= 0real ==> 0real <= m * d <= d) by (nonlinear_arith) requires 0real <= m <= 1real; assert(d <= 0real ==> d <= m * d <= 0real) by (nonlinear_arith) requires 0real <= m <= 1real; }
impl R {
  #[verifier::external_body]
  pub fn is_finite(&self) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  pub fn infinity() -> (r: R) { unimplemented!() }
}
