// needs: crv
// ---- affine change of knots: s2[i] = (s[i] - a) / b
pub open spec fn affmap(s: Seq<R>, s2: Seq<R>, a: real, b: real) -> bool { s2.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s2[i])@ * b == s[i]@ - a }
pub proof fn lemma_fr_scale(x: real, y: real, x2: real, y2: real, b: real)
  requires x2 * b == x, y2 * b == y, b != 0real
  ensures fr(x2, y2) == fr(x, y)
{
  if y == 0real { assert(y2 == 0real) by (nonlinear_arith) requires y2 * b == 0real, b != 0real; }
  else {
    assert(y2 != 0real) by (nonlinear_arith) requires y2 * b == y, y != 0real;
    let q = x2 / y2;
    assert(q * y2 == x2) by (nonlinear_arith) requires q == x2 / y2, y2 != 0real;
    assert(q * y == x) by (nonlinear_arith) requires q * y2 == x2, y2 * b == y, x2 * b == x;
    assert(q == x / y) by (nonlinear_arith) requires q * y == x, y != 0real;
  }
}
pub proof fn lemma_bas_affine(s: Seq<R>, s2: Seq<R>, a: real, b: real, k: int, i: int, p: int, u: real, u2: real)
  requires affmap(s, s2, a, b), b != 0real, u2 * b == u - a, 0 <= i, i + p + 1 < s.len()
  ensures bas(s2, k, i, p, u2) == bas(s, k, i, p, u)
  decreases p
{
  if p > 0 {
    lemma_bas_affine(s, s2, a, b, k, i, p - 1, u, u2);
    lemma_bas_affine(s, s2, a, b, k, i + 1, p - 1, u, u2);
    let x0 = s[i]@; let y0 = s2[i]@; assert(y0 * b == x0 - a);
    let x1 = s[i + 1]@; let y1 = s2[i + 1]@; assert(y1 * b == x1 - a);
    let xp = s[i + p]@; let yp = s2[i + p]@; assert(yp * b == xp - a);
    let xq = s[i + p + 1]@; let yq = s2[i + p + 1]@; assert(yq * b == xq - a);
    assert((u2 - y0) * b == u - x0) by (nonlinear_arith) requires u2 * b == u - a, y0 * b == x0 - a;
    assert((yp - y0) * b == xp - x0) by (nonlinear_arith) requires yp * b == xp - a, y0 * b == x0 - a;
    assert((yq - u2) * b == xq - u) by (nonlinear_arith) requires u2 * b == u - a, yq * b == xq - a;
    assert((yq - y1) * b == xq - x1) by (nonlinear_arith) requires y1 * b == x1 - a, yq * b == xq - a;
    lemma_fr_scale(u - x0, xp - x0, u2 - y0, yp - y0, b);
    lemma_fr_scale(xq - u, xq - x1, yq - u2, yq - y1, b);
  }
}
pub proof fn lemma_csum_affine(cp: Seq<OPoint>, s: Seq<R>, s2: Seq<R>, a: real, b: real, k: int, p: int, u: real, u2: real, c: int, m: int)
  requires affmap(s, s2, a, b), b != 0real, u2 * b == u - a, 0 <= p <= k, k + p + 1 < s.len(), 0 <= m <= p + 1
  ensures csum(cp, s2, k, p, u2, c, m) == csum(cp, s, k, p, u, c, m)
  decreases m
{ if m > 0 { lemma_csum_affine(cp, s, s2, a, b, k, p, u, u2, c, m - 1); lemma_bas_affine(s, s2, a, b, k, k - p + m - 1, p, u, u2); } }

// ---- mirrored knots: s2[i] = a - s[len - 1 - i]
pub open spec fn mirrored(s: Seq<R>, s2: Seq<R>, a: real) -> bool { s2.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s2[i])@ == a - s[s.len() - 1 - i]@ }
pub proof fn lemma_bas_mirror(s: Seq<R>, s2: Seq<R>, a: real, k: int, i: int, p: int, u: real)
  requires mirrored(s, s2, a), 0 <= i, i + p + 1 < s.len(), p >= 0
  ensures bas(s2, s.len() - 2 - k, s.len() - p - 2 - i, p, a - u) == bas(s, k, i, p, u)
  decreases p
{
  if p > 0 {
    let l = s.len() as int;
    let i2 = l - p - 2 - i;
    lemma_bas_mirror(s, s2, a, k, i, p - 1, u);
    lemma_bas_mirror(s, s2, a, k, i + 1, p - 1, u);
    assert(s2[i2]@ == a - s[i + p + 1]@);
    assert(s2[i2 + p]@ == a - s[i + 1]@);
    assert(s2[i2 + p + 1]@ == a - s[i]@);
    assert(s2[i2 + 1]@ == a - s[i + p]@);
  }
}
// the piece of the mirrored curve, summed from its first control point, is the piece of the curve summed from its last
pub proof fn lemma_csum_mirror(cp: Seq<OPoint>, cp2: Seq<OPoint>, s: Seq<R>, s2: Seq<R>, a: real, k: int, p: int, u: real, c: int, m: int)
  requires mirrored(s, s2, a), s.len() == cp.len() + p + 1, 0 <= p <= k < cp.len(), 0 <= m <= p + 1,
    cp2.len() == cp.len(), forall|j: int| 0 <= j < cp.len() ==> (#[trigger] cp2[j]).coords.c(c) == cp[cp.len() - 1 - j].coords.c(c)
  ensures csum(cp2, s2, s.len() - 2 - k, p, a - u, c, m) == csum(cp, s, k, p, u, c, p + 1) - csum(cp, s, k, p, u, c, p + 1 - m)
  decreases m
{
  if m > 0 {
    lemma_csum_mirror(cp, cp2, s, s2, a, k, p, u, c, m - 1);
    let k2 = s.len() - 2 - k;
    let i = k - (m - 1);
    lemma_bas_mirror(s, s2, a, k, i, p, u);
    assert(k2 - p + m - 1 == s.len() - p - 2 - i);
    assert(cp2[k2 - p + m - 1].coords.c(c) == cp[i].coords.c(c));
    let q = p + 2 - m;
    assert(csum(cp, s, k, p, u, c, q) == csum(cp, s, k, p, u, c, q - 1) + cp[k - p + q - 1].coords.c(c) * bas(s, k, k - p + q - 1, p, u));
  }
}
