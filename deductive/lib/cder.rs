// needs: crv deriv binom
// m-th derivative of a curve's homogeneous coordinate c on span k, first t terms
pub open spec fn cdsum(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, m: int, t: int) -> real decreases t {
  if t <= 0 { 0real } else { cdsum(cp, s, k, p, u, c, m, t - 1) + cp[k - p + t - 1].coords.c(c) * pder(s, k, k - p + t - 1, p, u, m) }
}
pub open spec fn hder(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int, m: int) -> real { cdsum(cp, s, kspan(s, cp.len() - 1, p, u), p, u, c, m, p + 1) }
pub proof fn lemma_cdsum_0(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, t: int)
  ensures cdsum(cp, s, k, p, u, c, 0, t) == csum(cp, s, k, p, u, c, t) decreases t
{ if t > 0 { lemma_cdsum_0(cp, s, k, p, u, c, t - 1); } }
// beyond the degree nothing is left
pub proof fn lemma_cdsum_beyond(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, m: int, t: int)
  requires good_span(s, k, p), k + p + 1 < s.len(), 0 <= t <= p + 1, m > p
  ensures cdsum(cp, s, k, p, u, c, m, t) == 0real decreases t
{
  if t > 0 {
    lemma_cdsum_beyond(cp, s, k, p, u, c, m, t - 1);
    lemma_pder(s, k, k - p + t - 1, p, u, m); lemma_dbas_beyond(s, k, k - p + t - 1, p, u, m);
    let x = cp[k - p + t - 1].coords.c(c);
    assert(x * 0real == 0real) by (nonlinear_arith);
  }
}
// derivatives of the rational curve: the k-th derivative of the product (curve x weight) by Leibniz's rule is the k-th
// derivative of the homogeneous coordinate; solved for the highest order
pub open spec fn rder(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int, k: int) -> real decreases k, 1int {
  if k < 0 { 0real } else { (hder(cp, s, p, u, c, k) - rlow(cp, s, p, u, c, k, k)) / hder(cp, s, p, u, dim() - 1, 0) }
}
// sum over i in 1..=t of bin(k, i) w^(i) curve^(k-i)
pub open spec fn rlow(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int, k: int, t: int) -> real decreases k, 0int, t {
  if t <= 0 || t > k { 0real } else { rlow(cp, s, p, u, c, k, t - 1) + rder(cp, s, p, u, c, k - t) * ((bin(k, t) as real) * hder(cp, s, p, u, dim() - 1, t)) }
}
// Leibniz's rule for weight times curve
pub proof fn lemma_leibniz(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int, k: int)
  requires hder(cp, s, p, u, dim() - 1, 0) != 0real, k >= 0
  ensures rder(cp, s, p, u, c, k) * hder(cp, s, p, u, dim() - 1, 0) + rlow(cp, s, p, u, c, k, k) == hder(cp, s, p, u, c, k)
{
  let w = hder(cp, s, p, u, dim() - 1, 0); let a = hder(cp, s, p, u, c, k) - rlow(cp, s, p, u, c, k, k);
  assert((a / w) * w == a) by (nonlinear_arith) requires w != 0real;
}
