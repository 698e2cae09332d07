// needs: basis
// m-th derivative of the piece of basis function i on span k, by the recurrence used for evaluation (NURBS book 2.9)
pub open spec fn dbas(s: Seq<R>, k: int, i: int, p: int, u: real, m: int) -> real decreases m {
  if m <= 0 { bas(s, k, i, p, u) } else if p <= 0 { 0real }
  else { (p as real) * (fr(dbas(s, k, i, p - 1, u, m - 1), s[i + p]@ - s[i]@) - fr(dbas(s, k, i + 1, p - 1, u, m - 1), s[i + p + 1]@ - s[i + 1]@)) }
}
// m-th derivative of the piece by the product rule on its definition: (x f)^(m) = x f^(m) + m f^(m-1) for a linear x with slope 1
pub open spec fn pder(s: Seq<R>, k: int, i: int, p: int, u: real, m: int) -> real decreases p {
  if m <= 0 { bas(s, k, i, p, u) } else if p <= 0 { 0real }
  else {
    fr(u - s[i]@, s[i + p]@ - s[i]@) * pder(s, k, i, p - 1, u, m) + (m as real) * fr(1real, s[i + p]@ - s[i]@) * pder(s, k, i, p - 1, u, m - 1)
    + fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@) * pder(s, k, i + 1, p - 1, u, m) - (m as real) * fr(1real, s[i + p + 1]@ - s[i + 1]@) * pder(s, k, i + 1, p - 1, u, m - 1)
  }
}
pub proof fn lemma_fr_mul(a: real, x: real, d: real) ensures fr(a, d) * x == fr(a * x, d), fr(1real, d) * x == fr(x, d)
{ if d != 0real { assert((a / d) * x == (a * x) / d) by (nonlinear_arith) requires d != 0real; assert((1real / d) * x == x / d) by (nonlinear_arith) requires d != 0real; }
  else { assert(0real * x == 0real) by (nonlinear_arith); } }
pub proof fn lemma_fr_add(a: real, b: real, d: real) ensures fr(a + b, d) == fr(a, d) + fr(b, d), fr(a - b, d) == fr(a, d) - fr(b, d), fr(0real, d) == 0real
{ if d != 0real { assert((a + b) / d == a / d + b / d && (a - b) / d == a / d - b / d && 0real / d == 0real) by (nonlinear_arith) requires d != 0real; } }
pub proof fn lemma_fr_lin(t: real, a: real, d: real) ensures fr(t * a, d) == t * fr(a, d)
{ if d != 0real { assert((t * a) / d == t * (a / d)) by (nonlinear_arith) requires d != 0real; } else { assert(t * 0real == 0real) by (nonlinear_arith); } }
pub proof fn lemma_dbas_support(s: Seq<R>, k: int, i: int, p: int, u: real, m: int)
  requires i > k || i + p < k, p >= 0
  ensures dbas(s, k, i, p, u, m) == 0real
  decreases m
{
  if m <= 0 { lemma_bas_support(s, k, i, p, u); }
  else if p > 0 {
    lemma_dbas_support(s, k, i, p - 1, u, m - 1);
    lemma_dbas_support(s, k, i + 1, p - 1, u, m - 1);
    lemma_fr_add(0real, 0real, s[i + p]@ - s[i]@); lemma_fr_add(0real, 0real, s[i + p + 1]@ - s[i + 1]@);
    let q = p as real;
    assert(q * (0real - 0real) == 0real) by (nonlinear_arith);
  }
}
// derivatives beyond the degree vanish
pub proof fn lemma_dbas_beyond(s: Seq<R>, k: int, i: int, p: int, u: real, m: int)
  requires m > p, p >= 0
  ensures dbas(s, k, i, p, u, m) == 0real
  decreases p
{
  if p > 0 {
    lemma_dbas_beyond(s, k, i, p - 1, u, m - 1);
    lemma_dbas_beyond(s, k, i + 1, p - 1, u, m - 1);
    lemma_fr_add(0real, 0real, s[i + p]@ - s[i]@); lemma_fr_add(0real, 0real, s[i + p + 1]@ - s[i + 1]@);
    let q = p as real;
    assert(q * (0real - 0real) == 0real) by (nonlinear_arith);
  }
}
proof fn lemma_alg4(q: real, v: real, w: real, a: real, b: real)
  ensures v * (q * (a - b)) == q * (v * a + w * b) - q * (v + w) * b
{
  assert(v * (q * (a - b)) == q * (v * a) - q * (v * b)) by (nonlinear_arith);
  assert(q * (v * a + w * b) == q * (v * a) + q * (w * b)) by (nonlinear_arith);
  assert(q * (v + w) * b == q * (v * b) + q * (w * b)) by (nonlinear_arith);
}
// the algebra of one induction step (see lemma_pder): x0, y0 lower order, x1, y1 same order
proof fn lemma_pder_alg(p: real, m: real, u: real, si: real, si1: real, sip: real, sip1: real, a1: real, b1: real, c1: real, x1: real, y1: real, x0: real, y0: real)
  requires x1 == (p - 1real) * (a1 - b1), y1 == (p - 1real) * (b1 - c1),
    (p - m) * x0 == (p - 1real) * ((u - si) * a1 + (sip - u) * b1),
    (p - m) * y0 == (p - 1real) * ((u - si1) * b1 + (sip1 - u) * c1),
  ensures (u - si) * x1 + m * x0 - p * x0 == 0real - (p - 1real) * (sip - si) * b1,
    (sip1 - u) * y1 - m * y0 + p * y0 == (p - 1real) * (sip1 - si1) * b1,
{
  let q = p - 1real; let v = u - si; let w = sip - u; let g = u - si1; let h = sip1 - u;
  assert((p - m) * x0 == p * x0 - m * x0) by (nonlinear_arith);
  assert((p - m) * y0 == p * y0 - m * y0) by (nonlinear_arith);
  lemma_alg4(q, v, w, a1, b1);
  assert(v + w == sip - si);
  lemma_alg4(q, h, g, c1, b1);
  assert(h + g == sip1 - si1);
  assert(h * (q * (b1 - c1)) == 0real - h * (q * (c1 - b1))) by (nonlinear_arith);
  assert(q * (g * b1 + h * c1) == q * (h * c1 + g * b1));
}
// (p - m) D(i,p,m-1)-type identity: from the product rule and the recurrence together
proof fn lemma_pder_mid(s: Seq<R>, k: int, i: int, p: int, u: real, m: int)
  requires good_span(s, k, 0), p >= 2, m >= 1, 0 <= i, i + p < s.len(),
    dbas(s, k, i, p - 1, u, m - 1) == pder(s, k, i, p - 1, u, m - 1),
    dbas(s, k, i, p - 2, u, m - 1) == pder(s, k, i, p - 2, u, m - 1), dbas(s, k, i + 1, p - 2, u, m - 1) == pder(s, k, i + 1, p - 2, u, m - 1),
    dbas(s, k, i, p - 2, u, m - 2) == pder(s, k, i, p - 2, u, m - 2), dbas(s, k, i + 1, p - 2, u, m - 2) == pder(s, k, i + 1, p - 2, u, m - 2),
  ensures (p as real - m as real) * dbas(s, k, i, p - 1, u, m - 1)
    == (p as real - 1real) * ((u - s[i]@) * fr(dbas(s, k, i, p - 2, u, m - 1), s[i + p - 1]@ - s[i]@) + (s[i + p]@ - u) * fr(dbas(s, k, i + 1, p - 2, u, m - 1), s[i + p]@ - s[i + 1]@))
{
  let e1 = s[i + p - 1]@ - s[i]@; let e2 = s[i + p]@ - s[i + 1]@;
  let x = dbas(s, k, i, p - 1, u, m - 1);
  let a1 = dbas(s, k, i, p - 2, u, m - 1); let b1 = dbas(s, k, i + 1, p - 2, u, m - 1);
  let a0 = dbas(s, k, i, p - 2, u, m - 2); let b0 = dbas(s, k, i + 1, p - 2, u, m - 2);
  let pr = p as real; let mr = m as real;
  lemma_fr_mul(u - s[i]@, a1, e1); lemma_fr_lin(u - s[i]@, a1, e1);
  lemma_fr_mul(s[i + p]@ - u, b1, e2); lemma_fr_lin(s[i + p]@ - u, b1, e2);
  lemma_fr_mul(1real, a0, e1); lemma_fr_mul(1real, b0, e2);
  let f = (u - s[i]@) * fr(a1, e1) + (s[i + p]@ - u) * fr(b1, e2);
  assert(fr(u - s[i]@, e1) * a1 == (u - s[i]@) * fr(a1, e1));
  assert(fr(s[i + p]@ - u, e2) * b1 == (s[i + p]@ - u) * fr(b1, e2));
  if m == 1 {
    assert(x == fr(u - s[i]@, e1) * a1 + fr(s[i + p]@ - u, e2) * b1);
    assert(x == f);
  } else {
    let mm = (m - 1) as real; let g1 = fr(1real, e1); let g2 = fr(1real, e2);
    assert(x == fr(u - s[i]@, e1) * a1 + mm * g1 * a0 + fr(s[i + p]@ - u, e2) * b1 - mm * g2 * b0);
    assert(mm * g1 * a0 == mm * (g1 * a0)) by (nonlinear_arith);
    assert(mm * g2 * b0 == mm * (g2 * b0)) by (nonlinear_arith);
    let q = fr(a0, e1) - fr(b0, e2);
    assert((p - 1) as real == pr - 1real);
    assert(x == (pr - 1real) * q);
    let fa = fr(a0, e1); let fb = fr(b0, e2);
    assert(mm * fa - mm * fb == mm * (fa - fb)) by (nonlinear_arith);
    assert(x == f + mm * q);
    assert((pr - mr) * x == (pr - 1real) * f) by (nonlinear_arith) requires x == (pr - 1real) * q, x == f + mm * q, mm == mr - 1real;
  }
}
// the recurrence is the derivative
pub proof fn lemma_pder(s: Seq<R>, k: int, i: int, p: int, u: real, m: int)
  requires good_span(s, k, 0), 0 <= p, 0 <= i, i + p + 1 < s.len(),
  ensures dbas(s, k, i, p, u, m) == pder(s, k, i, p, u, m)
  decreases p
{
  if p >= 1 && m >= 1 {
    let d1 = s[i + p]@ - s[i]@; let d2 = s[i + p + 1]@ - s[i + 1]@;
    lemma_pder(s, k, i, p - 1, u, m); lemma_pder(s, k, i + 1, p - 1, u, m);
    lemma_pder(s, k, i, p - 1, u, m - 1); lemma_pder(s, k, i + 1, p - 1, u, m - 1);
    let x1 = dbas(s, k, i, p - 1, u, m); let y1 = dbas(s, k, i + 1, p - 1, u, m);
    let x0 = dbas(s, k, i, p - 1, u, m - 1); let y0 = dbas(s, k, i + 1, p - 1, u, m - 1);
    let pr = p as real; let mr = m as real;
    let g1 = fr(1real, d1); let g2 = fr(1real, d2);
    lemma_fr_mul(u - s[i]@, x1, d1); lemma_fr_mul(s[i + p + 1]@ - u, y1, d2);
    lemma_fr_mul(1real, x0, d1); lemma_fr_mul(1real, y0, d2);
    assert(mr * g1 * x0 == mr * (g1 * x0)) by (nonlinear_arith);
    assert(mr * g2 * y0 == mr * (g2 * y0)) by (nonlinear_arith);
    lemma_fr_lin(mr, x0, d1); lemma_fr_lin(mr, y0, d2); lemma_fr_lin(pr, x0, d1); lemma_fr_lin(pr, y0, d2);
    let ex = (u - s[i]@) * x1 + mr * x0 - pr * x0;
    let ey = (s[i + p + 1]@ - u) * y1 - mr * y0 + pr * y0;
    lemma_fr_add((u - s[i]@) * x1, mr * x0, d1); lemma_fr_add((u - s[i]@) * x1 + mr * x0, pr * x0, d1);
    lemma_fr_add((s[i + p + 1]@ - u) * y1, mr * y0, d2); lemma_fr_add((s[i + p + 1]@ - u) * y1 - mr * y0, pr * y0, d2);
    let fx = fr(x0, d1); let fy = fr(y0, d2);
    assert(pr * (fx - fy) == pr * fx - pr * fy) by (nonlinear_arith);
    assert(pder(s, k, i, p, u, m) - dbas(s, k, i, p, u, m) == fr(ex, d1) + fr(ey, d2));
    if p == 1 {
      assert(x1 == 0real && y1 == 0real);
      let v = u - s[i]@; let w = s[i + p + 1]@ - u;
      assert(v * x1 == 0real) by (nonlinear_arith) requires x1 == 0real;
      assert(w * y1 == 0real) by (nonlinear_arith) requires y1 == 0real;
      if m >= 2 { assert(x0 == 0real && y0 == 0real); assert(mr * x0 == 0real && mr * y0 == 0real && pr * x0 == 0real && pr * y0 == 0real) by (nonlinear_arith) requires x0 == 0real, y0 == 0real; }
      lemma_fr_add(0real, 0real, d1); lemma_fr_add(0real, 0real, d2);
    } else {
      let e1 = s[i + p - 1]@ - s[i]@; let e2 = s[i + p]@ - s[i + 1]@; let e3 = s[i + p + 1]@ - s[i + 2]@;
      lemma_pder(s, k, i, p - 2, u, m - 1); lemma_pder(s, k, i + 1, p - 2, u, m - 1); lemma_pder(s, k, i + 2, p - 2, u, m - 1);
      lemma_pder(s, k, i, p - 2, u, m - 2); lemma_pder(s, k, i + 1, p - 2, u, m - 2); lemma_pder(s, k, i + 2, p - 2, u, m - 2);
      lemma_pder_mid(s, k, i, p, u, m);
      lemma_pder_mid(s, k, i + 1, p, u, m);
      let a1 = fr(dbas(s, k, i, p - 2, u, m - 1), e1); let b1 = fr(dbas(s, k, i + 1, p - 2, u, m - 1), e2); let c1 = fr(dbas(s, k, i + 2, p - 2, u, m - 1), e3);
      assert((p - 1) as real == pr - 1real);
      assert(i + 1 + 1 == i + 2 && i + 1 + p - 1 == i + p && i + 1 + p == i + p + 1);
      lemma_pder_alg(pr, mr, u, s[i]@, s[i + 1]@, s[i + p]@, s[i + p + 1]@, a1, b1, c1, x1, y1, x0, y0);
      let z = (pr - 1real) * b1;
      assert(ex == 0real - z * d1) by (nonlinear_arith) requires ex == 0real - (pr - 1real) * d1 * b1, z == (pr - 1real) * b1;
      assert(ey == z * d2) by (nonlinear_arith) requires ey == (pr - 1real) * d2 * b1, z == (pr - 1real) * b1;
      if d1 == 0real || d2 == 0real {
        // the middle function vanishes on the span
        if i + 1 <= k && k <= i + p - 1 { assert(s[i]@ <= s[k]@ && s[k + 1]@ <= s[i + p]@); assert(s[i + 1]@ <= s[k]@ && s[k + 1]@ <= s[i + p + 1]@); assert(false); }
        lemma_dbas_support(s, k, i + 1, p - 2, u, m - 1);
        lemma_fr_add(0real, 0real, e2);
        assert(z == 0real) by (nonlinear_arith) requires z == (pr - 1real) * b1, b1 == 0real;
        assert(z * d1 == 0real && z * d2 == 0real) by (nonlinear_arith) requires z == 0real;
        lemma_fr_add(0real, 0real, d1); lemma_fr_add(0real, 0real, d2);
      } else {
        assert((0real - z * d1) / d1 == 0real - z) by (nonlinear_arith) requires d1 != 0real;
        assert((z * d2) / d2 == z) by (nonlinear_arith) requires d2 != 0real;
      }
    }
  }
}
// coefficients of the k-th derivative of basis function i of degree p over the basis of degree p - k
pub open spec fn dco(s: Seq<R>, i: int, p: int, k: int, j: int) -> real decreases k {
  if j < 0 || j > k { 0real } else if k <= 0 { 1real }
  else { fr(dco(s, i, p, k - 1, j) - dco(s, i, p, k - 1, j - 1), s[i + j + p - k + 1]@ - s[i + j]@) }
}
pub open spec fn ff(p: int, k: int) -> int decreases k { if k <= 0 { 1 } else { ff(p, k - 1) * (p - k + 1) } }
// partial sums of the expansion (order m derivatives of the lower degree functions)
pub open spec fn dsum(s: Seq<R>, kn: int, i: int, p: int, u: real, k: int, m: int, t: int) -> real decreases t {
  if t <= 0 { 0real } else { dsum(s, kn, i, p, u, k, m, t - 1) + dco(s, i, p, k, t - 1) * dbas(s, kn, i + t - 1, p - k, u, m) }
}
proof fn lemma_dsum_step(s: Seq<R>, kn: int, i: int, p: int, u: real, k: int, m: int, t: int)
  requires k >= 0, m >= 1, p - k >= 1, 0 <= t <= k + 1
  ensures dsum(s, kn, i, p, u, k, m, t) == ((p - k) as real) * (dsum(s, kn, i, p, u, k + 1, m - 1, t) - fr(dco(s, i, p, k, t - 1), s[i + t + p - k]@ - s[i + t]@) * dbas(s, kn, i + t, p - k - 1, u, m - 1))
  decreases t
{
  let q = (p - k) as real;
  if t > 0 {
    let j = t - 1;
    lemma_dsum_step(s, kn, i, p, u, k, m, j);
    let dj = dbas(s, kn, i + j, p - k - 1, u, m - 1);
    let dt = dbas(s, kn, i + t, p - k - 1, u, m - 1);
    let ej = s[i + j + p - k]@ - s[i + j]@;
    let et = s[i + t + p - k]@ - s[i + t]@;
    let a = dco(s, i, p, k, j); let b = dco(s, i, p, k, j - 1); let c = dco(s, i, p, k + 1, j);
    let x = dsum(s, kn, i, p, u, k, m, j); let y = dsum(s, kn, i, p, u, k + 1, m - 1, j);
    assert(c == fr(a - b, ej)) by { assert(i + j + p - (k + 1) + 1 == i + j + p - k); }
    lemma_fr_add(a, b, ej);
    let fb = fr(b, ej); let fa = fr(a, ej); let ft = fr(a, et);
    lemma_fr_mul(a, dj, ej); lemma_fr_mul(a, dt, et); lemma_fr_lin(a, dj, ej); lemma_fr_lin(a, dt, et);
    let gj = fr(dj, ej); let gt = fr(dt, et);
    assert(fa * dj == a * gj && ft * dt == a * gt);
    let dd = dbas(s, kn, i + t - 1, p - k, u, m);
    assert(i + j + 1 == i + t && i + j + (p - k) == i + j + p - k && i + t - 1 == i + j && i + j + (p - k) + 1 == i + t + p - k);
    assert(dd == q * (gj - gt));
    assert(x == q * (y - fb * dj));
    assert(dsum(s, kn, i, p, u, k, m, t) == x + a * dd);
    assert(dsum(s, kn, i, p, u, k + 1, m - 1, t) == y + c * dj) by { assert(p - (k + 1) == p - k - 1); }
    assert(x + a * dd == q * ((y + c * dj) - ft * dt)) by (nonlinear_arith)
      requires x == q * (y - fb * dj), dd == q * (gj - gt), c == fa - fb, fa * dj == a * gj, ft * dt == a * gt;
  } else {
    let e = s[i + t + p - k]@ - s[i + t]@;
    lemma_fr_add(0real, 0real, e);
    let z = dbas(s, kn, i + t, p - k - 1, u, m - 1);
    assert(q * (0real - 0real * z) == 0real) by (nonlinear_arith);
  }
}
// the k-th expansion of the m-th derivative
pub proof fn lemma_dsum(s: Seq<R>, kn: int, i: int, p: int, u: real, k: int, m: int)
  requires 0 <= k <= m, k <= p
  ensures dbas(s, kn, i, p, u, m) == (ff(p, k) as real) * dsum(s, kn, i, p, u, k, m - k, k + 1)
  decreases k
{
  if k == 0 {
    let x = dbas(s, kn, i, p, u, m);
    assert(dsum(s, kn, i, p, u, 0, m, 1) == dsum(s, kn, i, p, u, 0, m, 0) + dco(s, i, p, 0, 0) * dbas(s, kn, i + 1 - 1, p - 0, u, m));
    assert(1real * (0real + 1real * x) == x) by (nonlinear_arith);
  } else {
    lemma_dsum(s, kn, i, p, u, k - 1, m);
    lemma_dsum_step(s, kn, i, p, u, k - 1, m - k + 1, k);
    let f = ff(p, k - 1) as real; let q = (p - k + 1) as real;
    let x = dsum(s, kn, i, p, u, k - 1, m - k + 1, k); let y = dsum(s, kn, i, p, u, k, m - k, k);
    let a = dco(s, i, p, k - 1, k - 1); let e = s[i + k + p - k + 1]@ - s[i + k]@; let z = dbas(s, kn, i + k, p - k, u, m - k);
    assert(i + k + p - (k - 1) == i + k + p - k + 1);
    assert(dco(s, i, p, k - 1, k) == 0real);
    assert(dco(s, i, p, k, k) == fr(0real - a, e));
    lemma_fr_add(0real, a, e);
    let fa = fr(a, e);
    assert(x == q * (y - fa * z));
    assert(dsum(s, kn, i, p, u, k, m - k, k + 1) == y + dco(s, i, p, k, k) * dbas(s, kn, i + (k + 1) - 1, p - k, u, m - k));
    let w = dco(s, i, p, k, k);
    let g = ff(p, k) as real;
    assert(g == f * q) by { assert(ff(p, k) == ff(p, k - 1) * (p - k + 1)); let fi = ff(p, k - 1); let qi = p - k + 1; assert((fi * qi) as real == (fi as real) * (qi as real)) by (nonlinear_arith); }
    assert(f * x == g * (y + w * z)) by (nonlinear_arith) requires x == q * (y - fa * z), w == 0real - fa, g == f * q;
    assert(m - (k - 1) == m - k + 1);
  }
}
pub open spec fn fact(n: int) -> int decreases n { if n <= 0 { 1 } else { n * fact(n - 1) } }
pub proof fn lemma_ff(p: int, k: int)
  requires 0 <= k, p >= 0
  ensures k <= p ==> ff(p, k) * fact(p - k) == fact(p), k > p ==> ff(p, k) == 0
  decreases k
{
  if k > 0 {
    lemma_ff(p, k - 1);
    let a = ff(p, k - 1); let b = p - k + 1;
    if k <= p { let c = fact(p - k); assert(fact(p - (k - 1)) == b * c); assert((a * b) * c == a * (b * c)) by (nonlinear_arith); }
    else if k == p + 1 { assert(a * b == 0) by (nonlinear_arith) requires b == 0; }
    else { assert(a * b == 0) by (nonlinear_arith) requires a == 0; }
  }
}
pub proof fn lemma_fact_pos(n: int) ensures fact(n) >= 1 decreases n
{ if n > 0 { lemma_fact_pos(n - 1); let f = fact(n - 1); assert(n * f >= 1) by (nonlinear_arith) requires n >= 1, f >= 1; } }
pub proof fn lemma_fact_mono(a: int, b: int) requires a <= b ensures fact(a) <= fact(b) decreases b - a
{ lemma_fact_pos(b); if a < b { lemma_fact_mono(a, b - 1); lemma_fact_pos(b - 1); if b > 0 { let f = fact(b - 1); assert(b * f >= f) by (nonlinear_arith) requires b >= 1, f >= 1; } } }
pub proof fn lemma_ff_bound(p: int, k: int)
  requires 0 <= k, 0 <= p <= 20
  ensures 0 <= ff(p, k) <= 2432902008176640000
{
  lemma_ff(p, k);
  assert(fact(20) == 2432902008176640000) by (compute);
  if k <= p {
    lemma_fact_mono(p, 20); lemma_fact_pos(p - k);
    let f = ff(p, k); let g = fact(p - k);
    lemma_fact_pos(p);
    assert(0 <= f <= f * g) by (nonlinear_arith) requires g >= 1, f * g >= 1;
  }
}
pub open spec fn rmaxi(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn dims(v: Seq<Vec<R>>, a: int, b: int) -> bool { v.len() == a && forall|i: int| 0 <= i < a ==> (#[trigger] v[i]).len() == b }
// table of basis values (upper triangle) and knot differences (lower triangle), columns and rows below c
pub open spec fn ndu_upper(v: Seq<Vec<R>>, s: Seq<R>, k: int, u: real, c: int) -> bool { forall|q: int, j: int| 0 <= q <= j < c ==> (#[trigger] v[q]@[j])@ == bas(s, k, k - j + q, j, u) }
pub open spec fn ndu_lower(v: Seq<Vec<R>>, s: Seq<R>, k: int, c: int) -> bool { forall|j: int, q: int| 0 <= q < j < c ==> (#[trigger] v[j]@[q])@ == s[k + q + 1]@ - s[k + 1 - j + q]@ }
// coefficients below t whose basis function is active
pub open spec fn arow(v: Seq<R>, s: Seq<R>, i: int, p: int, k: int, r: int, t: int) -> bool { forall|j: int| 0 <= j < t && j >= k - r && j <= p - r && j <= k ==> (#[trigger] v[j])@ == dco(s, i, p, k, j) }
pub open spec fn ders_at(s: Seq<R>, kn: int, i: int, p: int, u: real, k: int) -> real { if k <= p { dsum(s, kn, i, p, u, k, 0, k + 1) } else { 0real } }
pub open spec fn ders_col(v: Seq<Vec<R>>, s: Seq<R>, kn: int, p: int, u: real, n: int, q: int) -> bool { forall|k: int| 1 <= k <= n ==> (#[trigger] v[k]@[q])@ == ders_at(s, kn, kn - p + q, p, u, k) }
pub open spec fn ders_cols(v: Seq<Vec<R>>, s: Seq<R>, kn: int, p: int, u: real, n: int, r: int) -> bool { forall|k: int, q: int| 1 <= k <= n && 0 <= q < r ==> (#[trigger] v[k]@[q])@ == ders_at(s, kn, kn - p + q, p, u, k) }
// inactive leading terms contribute nothing
pub proof fn lemma_dskip(s: Seq<R>, kn: int, i: int, p: int, u: real, k: int, t: int)
  requires k <= p, 0 <= t, t >= 1 ==> i + t - 1 + p - k < kn
  ensures dsum(s, kn, i, p, u, k, 0, t) == 0real
  decreases t
{ if t > 0 { lemma_dskip(s, kn, i, p, u, k, t - 1); lemma_bas_support(s, kn, i + t - 1, p - k, u); let c = dco(s, i, p, k, t - 1); assert(c * 0real == 0real) by (nonlinear_arith); } }
pub proof fn lemma_dskip_end(s: Seq<R>, kn: int, i: int, p: int, u: real, k: int, t: int, e: int)
  requires k <= p, 0 <= t <= e, i + t > kn
  ensures dsum(s, kn, i, p, u, k, 0, e) == dsum(s, kn, i, p, u, k, 0, t)
  decreases e - t
{ if e > t { lemma_dskip_end(s, kn, i, p, u, k, t, e - 1); lemma_bas_support(s, kn, i + e - 1, p - k, u); let c = dco(s, i, p, k, e - 1); assert(c * 0real == 0real) by (nonlinear_arith); } }
// the knot difference below an active coefficient is positive
pub proof fn lemma_dden(s: Seq<R>, kn: int, i: int, p: int, k: int, j: int)
  requires good_span(s, kn, p), 1 <= k <= p, 0 <= i + j <= kn, kn <= i + j + p - k, 0 <= i + j
  ensures s[i + j + p - k + 1]@ - s[i + j]@ > 0real
{ assert(s[i + j]@ <= s[kn]@); assert(i + j + p - k + 1 < s.len()); assert(s[kn + 1]@ <= s[i + j + p - k + 1]@); }
// rows below t are final derivatives, the others lack their factor
pub open spec fn ders_scaled(v: Seq<Vec<R>>, s: Seq<R>, kn: int, p: int, u: real, n: int, t: int) -> bool {
  &&& forall|q: int, m: int| 0 <= q <= p && 1 <= m < t ==> (#[trigger] v[m]@[q])@ == dbas(s, kn, kn - p + q, p, u, m)
  &&& forall|q: int, m: int| 0 <= q <= p && t <= m <= n ==> (#[trigger] v[m]@[q])@ == ders_at(s, kn, kn - p + q, p, u, m)
}
pub proof fn lemma_ders_final(s: Seq<R>, kn: int, i: int, p: int, u: real, k: int)
  requires 1 <= k, 0 <= p
  ensures (ff(p, k) as real) * ders_at(s, kn, i, p, u, k) == dbas(s, kn, i, p, u, k)
{
  if k <= p { lemma_dsum(s, kn, i, p, u, k, k); }
  else { lemma_dbas_beyond(s, kn, i, p, u, k); let f = ff(p, k) as real; assert(f * 0real == 0real) by (nonlinear_arith); }
}
