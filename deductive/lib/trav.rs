// needs: bbox
// Two kinds of trees of pieces, as the traversal sees them: a piece has points, a box that holds them, and halves.
#[verifier::external_body]
pub struct TreeA { v: f64 }
#[verifier::external_body]
pub struct TreeB { v: f64 }
pub uninterp spec fn a_has(t: TreeA, p: OPoint) -> bool;
pub uninterp spec fn b_has(t: TreeB, p: OPoint) -> bool;
impl Clone for TreeA {
  #[verifier::external_body]
  fn clone(&self) -> (r: TreeA) ensures r == *self { unimplemented!() } }
impl Clone for TreeB {
  #[verifier::external_body]
  fn clone(&self) -> (r: TreeB) ensures r == *self { unimplemented!() } }
impl TreeA {
  #[verifier::external_body]
  pub fn bounding_box(&self) -> (r: BoundingBox) ensures forall|p: OPoint| #[trigger] a_has(*self, p) ==> inb(r, p) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_dividable(&self) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_divide(&self) -> (r: Result<(TreeA, TreeA), Error>) ensures r.is_ok() ==> forall|p: OPoint| #[trigger] a_has(*self, p) ==> a_has(r.unwrap().0, p) || a_has(r.unwrap().1, p) { unimplemented!() }
}
impl TreeB {
  #[verifier::external_body]
  pub fn bounding_box(&self) -> (r: BoundingBox) ensures forall|p: OPoint| #[trigger] b_has(*self, p) ==> inb(r, p) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_dividable(&self) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_divide(&self) -> (r: Result<(TreeB, TreeB), Error>) ensures r.is_ok() ==> forall|p: OPoint| #[trigger] b_has(*self, p) ==> b_has(r.unwrap().0, p) || b_has(r.unwrap().1, p) { unimplemented!() }
}
