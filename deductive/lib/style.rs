// needs: interp
pub uninterp spec fn rpow(x: real, a: real) -> real;
impl R {
  #[verifier::external_body]
  pub fn powf(self, a: R) -> (r: R) ensures r@ == rpow(self@, a@) { unimplemented!() }
}
// the exponent of the step length a knot style names
pub open spec fn styled(k: KnotStyle) -> real { match k { KnotStyle::Chordal => 1real, _ => 1real / 2real } }
#[verifier::external_body]
pub fn never_here<A>() -> (r: A) requires false { unimplemented!() }
