// needs: knots
// B-spline basis by the recurrence of Cox and de Boor, as the polynomial piece on span k.
pub open spec fn fr(a: real, b: real) -> real { if b == 0real { 0real } else { a / b } }
pub open spec fn bas(s: Seq<R>, k: int, i: int, p: int, u: real) -> real decreases p {
  if p <= 0 { if i == k { 1real } else { 0real } }
  else { fr(u - s[i]@, s[i + p]@ - s[i]@) * bas(s, k, i, p - 1, u) + fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@) * bas(s, k, i + 1, p - 1, u) }
}
// the piece lives on i..=i+p
pub proof fn lemma_bas_support(s: Seq<R>, k: int, i: int, p: int, u: real)
  requires i > k || i + p < k, p >= 0
  ensures bas(s, k, i, p, u) == 0real
  decreases p
{
  if p > 0 {
    lemma_bas_support_step(s, k, i, p, u);
  }
}
pub proof fn lemma_bas_support_step(s: Seq<R>, k: int, i: int, p: int, u: real)
  requires i > k || i + p < k, p > 0
  ensures bas(s, k, i, p, u) == 0real
  decreases p, 0int
{
  lemma_bas_support2(s, k, i, p - 1, u);
  lemma_bas_support2(s, k, i + 1, p - 1, u);
  let a = fr(u - s[i]@, s[i + p]@ - s[i]@);
  let b = fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@);
  assert(a * 0real + b * 0real == 0real) by (nonlinear_arith);
}
pub proof fn lemma_bas_support2(s: Seq<R>, k: int, i: int, p: int, u: real)
  requires i > k || i + p < k, p >= 0
  ensures bas(s, k, i, p, u) == 0real
  decreases p, 1int
{ if p > 0 { lemma_bas_support_step(s, k, i, p, u); } }

pub proof fn lemma_frac(a: real, d: real, n: real, t: real)
  requires d != 0real, t * d == n
  ensures a * t == fr(a, d) * n
{
  let q = a / d;
  assert(q * d == a) by (nonlinear_arith) requires d != 0real, q == a / d;
  assert(a * t == q * n) by (nonlinear_arith) requires q * d == a, t * d == n;
}
pub proof fn lemma_frac_split(x: real, y: real)
  requires x + y != 0real
  ensures fr(x, x + y) + fr(y, x + y) == 1real
{ let d = x + y; assert(x / d + y / d == 1real) by (nonlinear_arith) requires d == x + y, d != 0real; }
pub proof fn lemma_frac_nonneg(a: real, d: real) requires a >= 0real, d > 0real ensures fr(a, d) >= 0real
{ assert(a / d >= 0real) by (nonlinear_arith) requires a >= 0real, d > 0real; }

// widest and narrowest knots around span k
pub open spec fn good_span(s: Seq<R>, k: int, p: int) -> bool { sorted(s) && 0 <= p <= k && k + p + 1 <= s.len() && k + 1 < s.len() && s[k]@ < s[k + 1]@ }

pub proof fn lemma_bas_nonneg(s: Seq<R>, k: int, i: int, p: int, u: real)
  requires sorted(s), 0 <= k, k + 1 < s.len(), s[k]@ < s[k + 1]@, p >= 0, 0 <= i, i + p + 1 < s.len(), s[k]@ <= u <= s[k + 1]@
  ensures bas(s, k, i, p, u) >= 0real
  decreases p
{
  if p > 0 {
    lemma_bas_nonneg(s, k, i, p - 1, u);
    lemma_bas_nonneg(s, k, i + 1, p - 1, u);
    let a = fr(u - s[i]@, s[i + p]@ - s[i]@);
    let b = fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@);
    let x = bas(s, k, i, p - 1, u);
    let y = bas(s, k, i + 1, p - 1, u);
    if i <= k && k < i + p { assert(s[i]@ <= s[k]@); assert(s[k + 1]@ <= s[i + p]@); lemma_frac_nonneg(u - s[i]@, s[i + p]@ - s[i]@); }
    else { lemma_bas_support(s, k, i, p - 1, u); }
    if i + 1 <= k && k <= i + p { assert(s[i + 1]@ <= s[k]@); assert(s[k + 1]@ <= s[i + p + 1]@); lemma_frac_nonneg(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@); }
    else { lemma_bas_support(s, k, i + 1, p - 1, u); }
    assert(a * x >= 0real) by (nonlinear_arith) requires a >= 0real && x >= 0real || x == 0real;
    assert(b * y >= 0real) by (nonlinear_arith) requires b >= 0real && y >= 0real || y == 0real;
  }
}

// sum of bas over lo..hi
pub open spec fn bsum(s: Seq<R>, k: int, lo: int, hi: int, p: int, u: real) -> real decreases hi - lo {
  if hi <= lo { 0real } else { bsum(s, k, lo, hi - 1, p, u) + bas(s, k, hi - 1, p, u) }
}
pub proof fn lemma_bsum_step(s: Seq<R>, k: int, p: int, u: real, m: int)
  requires good_span(s, k, p), p >= 1, k - p <= m <= k
  ensures bsum(s, k, k - p, m + 1, p, u) == bsum(s, k, k - p + 1, m + 1, p - 1, u) + fr(s[m + p + 1]@ - u, s[m + p + 1]@ - s[m + 1]@) * bas(s, k, m + 1, p - 1, u)
  decreases m - (k - p)
{
  let lo = k - p;
  let w2 = fr(s[m + p + 1]@ - u, s[m + p + 1]@ - s[m + 1]@);
  let w1 = fr(u - s[m]@, s[m + p]@ - s[m]@);
  let x = bas(s, k, m, p - 1, u);
  let y = bas(s, k, m + 1, p - 1, u);
  assert(bas(s, k, m, p, u) == w1 * x + w2 * y);
  if m == lo {
    lemma_bas_support(s, k, lo, p - 1, u);
    assert(bsum(s, k, lo, m, p, u) == 0real);
    assert(bsum(s, k, lo, m + 1, p, u) == bsum(s, k, lo, m, p, u) + bas(s, k, m, p, u));
    assert(bsum(s, k, lo + 1, m + 1, p - 1, u) == 0real);
    assert(w1 * x == 0real) by (nonlinear_arith) requires x == 0real;
  } else {
    lemma_bsum_step(s, k, p, u, m - 1);
    let v2 = fr(s[m + p]@ - u, s[m + p]@ - s[m]@);
    assert(s[m]@ <= s[k]@ && s[k + 1]@ <= s[m + p]@);
    lemma_frac_split(u - s[m]@, s[m + p]@ - u);
    assert((u - s[m]@) + (s[m + p]@ - u) == s[m + p]@ - s[m]@);
    assert(v2 + w1 == 1real);
    assert(v2 * x + w1 * x == x) by (nonlinear_arith) requires v2 + w1 == 1real;
    assert(bsum(s, k, lo, m + 1, p, u) == bsum(s, k, lo, m, p, u) + bas(s, k, m, p, u));
    assert(bsum(s, k, lo + 1, m + 1, p - 1, u) == bsum(s, k, lo + 1, m, p - 1, u) + x);
  }
}
// partition of unity
pub proof fn lemma_bsum_one(s: Seq<R>, k: int, p: int, u: real)
  requires good_span(s, k, p)
  ensures bsum(s, k, k - p, k + 1, p, u) == 1real
  decreases p
{
  if p == 0 {
    assert(bsum(s, k, k, k + 1, 0, u) == bsum(s, k, k, k, 0, u) + bas(s, k, k, 0, u));
  } else {
    lemma_bsum_one(s, k, p - 1, u);
    lemma_bsum_step(s, k, p, u, k);
    lemma_bas_support(s, k, k + 1, p - 1, u);
    let w = fr(s[k + p + 1]@ - u, s[k + p + 1]@ - s[k + 1]@);
    assert(w * 0real == 0real) by (nonlinear_arith);
  }
}
pub open spec fn vsum(v: Seq<R>, m: int) -> real decreases m { if m <= 0 { 0real } else { vsum(v, m - 1) + v[m - 1]@ } }
pub proof fn lemma_vsum(v: Seq<R>, s: Seq<R>, k: int, p: int, u: real, m: int)
  requires 0 <= m <= v.len(), forall|q: int| 0 <= q < m ==> (#[trigger] v[q])@ == bas(s, k, k - p + q, p, u)
  ensures vsum(v, m) == bsum(s, k, k - p, k - p + m, p, u)
  decreases m
{ if m > 0 { lemma_vsum(v, s, k, p, u, m - 1); assert(v[m - 1]@ == bas(s, k, k - p + (m - 1), p, u)); } }
