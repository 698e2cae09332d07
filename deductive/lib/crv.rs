// needs: basis point
// A curve's pieces: combination of control points by the basis on span k, coordinate c, first m terms.
pub open spec fn csum(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, m: int) -> real decreases m {
  if m <= 0 { 0real } else { csum(cp, s, k, p, u, c, m - 1) + cp[k - p + m - 1].coords.c(c) * bas(s, k, k - p + m - 1, p, u) }
}
// well-formed knots for n+1 control points; the end spans are wider than the tolerance of the span lookup
pub open spec fn wfk(s: Seq<R>, n: int, p: int) -> bool {
  &&& 0 <= p <= n < 0x1000_0000 && s.len() == n + p + 2 && sorted(s)
  &&& s[p]@ < s[p + 1]@ && s[p + 1]@ - s[p]@ >= eps()
  &&& s[n]@ < s[n + 1]@ && s[n + 1]@ - s[n]@ >= eps()
}
// the span of the definition (unique, see lemma_kspan)
pub open spec fn kspan(s: Seq<R>, n: int, p: int, u: real) -> int { choose|k: int| in_span(s, n, p, u, k) }
pub proof fn lemma_span_unique(s: Seq<R>, n: int, p: int, u: real, a: int, b: int)
  requires wfk(s, n, p), in_span(s, n, p, u, a), in_span(s, n, p, u, b)
  ensures a == b
{
  axiom_eps();
  if a < b { lemma_span_le(s, n, p, u, a, b); } else if b < a { lemma_span_le(s, n, p, u, b, a); }
}
pub proof fn lemma_span_le(s: Seq<R>, n: int, p: int, u: real, a: int, b: int)
  requires wfk(s, n, p), in_span(s, n, p, u, a), in_span(s, n, p, u, b), a < b
  ensures false
{
  axiom_eps();
  assert(s[a + 1]@ <= s[b]@);
  assert(s[p + 1]@ <= s[b]@);
  assert(s[a + 1]@ <= s[n]@);
}
pub proof fn lemma_kspan(s: Seq<R>, n: int, p: int, u: real, k: int)
  requires wfk(s, n, p), in_span(s, n, p, u, k)
  ensures kspan(s, n, p, u) == k
{ lemma_span_unique(s, n, p, u, k, kspan(s, n, p, u)); }
// inside the domain the span contains the parameter
pub proof fn lemma_span_contains(s: Seq<R>, n: int, p: int, u: real, k: int)
  requires wfk(s, n, p), in_span(s, n, p, u, k), s[p]@ <= u <= s[n + 1]@
  ensures s[k]@ <= u <= s[k + 1]@, s[k]@ < s[k + 1]@
{ axiom_eps(); }
pub proof fn lemma_span_exists(s: Seq<R>, n: int, p: int, u: real)
  requires wfk(s, n, p)
  ensures in_span(s, n, p, u, kspan(s, n, p, u))
{
  axiom_eps();
  if u >= s[n + 1]@ - eps() { assert(in_span(s, n, p, u, n)); }
  else if u < s[p]@ + eps() { assert(in_span(s, n, p, u, p)); }
  else { let k = lemma_find(s, p, n + 1, u); assert(in_span(s, n, p, u, k)); }
}
pub proof fn lemma_find(s: Seq<R>, lo: int, hi: int, u: real) -> (k: int)
  requires sorted(s), 0 <= lo < hi < s.len(), s[lo]@ <= u < s[hi]@
  ensures lo <= k < hi, s[k]@ <= u < s[k + 1]@
  decreases hi - lo
{ if s[lo + 1]@ > u { lo } else { lemma_find(s, lo + 1, hi, u) } }
// homogeneous curve value, coordinate c
pub open spec fn hval(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int) -> real {
  csum(cp, s, kspan(s, cp.len() - 1, p, u), p, u, c, p + 1)
}
// csum depends on coordinate c of the active control points only
pub proof fn lemma_csum_ext(a: Seq<OPoint>, b: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, d: int, m: int)
  requires forall|j: int| 0 <= j < m ==> (#[trigger] a[k - p + j]).coords.c(c) == b[k - p + j].coords.c(d)
  ensures csum(a, s, k, p, u, c, m) == csum(b, s, k, p, u, d, m)
  decreases m
{ if m > 0 { lemma_csum_ext(a, b, s, k, p, u, c, d, m - 1); assert(a[k - p + (m - 1)].coords.c(c) == b[k - p + (m - 1)].coords.c(d)); } }
// bounds of a combination: if lo * w <= x <= hi * w on the active control points
pub proof fn lemma_csum_bound(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, w: int, lo: real, m: int)
  requires good_span(s, k, p), k + p + 1 < s.len(), s[k]@ <= u <= s[k + 1]@, 0 <= m <= p + 1, k < cp.len(),
    forall|j: int| k - p <= j <= k ==> lo * (#[trigger] cp[j]).coords.c(w) <= cp[j].coords.c(c),
  ensures lo * csum(cp, s, k, p, u, w, m) <= csum(cp, s, k, p, u, c, m)
  decreases m
{
  if m > 0 {
    lemma_csum_bound(cp, s, k, p, u, c, w, lo, m - 1);
    let j = k - p + m - 1;
    let b = bas(s, k, j, p, u);
    let x = cp[j].coords.c(c);
    let y = cp[j].coords.c(w);
    assert(lo * y <= x);
    lemma_bas_nonneg(s, k, j, p, u);
    let a = csum(cp, s, k, p, u, w, m - 1);
    assert(b >= 0real);
    assert(lo * (a + y * b) == lo * a + (lo * y) * b) by (nonlinear_arith);
    assert((lo * y) * b <= x * b) by (nonlinear_arith) requires lo * y <= x, b >= 0real;
  } else { assert(lo * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn lemma_csum_pos(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, w: int, m: int)
  requires good_span(s, k, p), k + p + 1 < s.len(), s[k]@ <= u <= s[k + 1]@, 0 <= m <= p + 1, k < cp.len(),
    forall|j: int| k - p <= j <= k ==> (#[trigger] cp[j]).coords.c(w) > 0real,
  ensures csum(cp, s, k, p, u, w, m) >= 0real, bsum(s, k, k - p, k - p + m, p, u) > 0real ==> csum(cp, s, k, p, u, w, m) > 0real
  decreases m
{
  if m > 0 {
    lemma_csum_pos(cp, s, k, p, u, w, m - 1);
    let j = k - p + m - 1;
    let b = bas(s, k, j, p, u);
    let y = cp[j].coords.c(w);
    lemma_bas_nonneg(s, k, j, p, u);
    assert(y * b >= 0real) by (nonlinear_arith) requires y > 0real, b >= 0real;
    if b > 0real { assert(y * b > 0real) by (nonlinear_arith) requires y > 0real, b > 0real; }
    assert(bsum(s, k, k - p, k - p + m, p, u) == bsum(s, k, k - p, k - p + m - 1, p, u) + b);
  }
}
// with positive weights the weight of a curve point is positive
pub proof fn lemma_weight_pos(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, w: int)
  requires wfk(s, cp.len() - 1, p), s[p]@ <= u <= s[cp.len() as int]@, forall|j: int| 0 <= j < cp.len() ==> (#[trigger] cp[j]).coords.c(w) > 0real
  ensures hval(cp, s, p, u, w) > 0real
{
  let n = cp.len() - 1;
  let k = kspan(s, n, p, u);
  lemma_span_exists(s, n, p, u);
  lemma_span_contains(s, n, p, u, k);
  lemma_csum_pos(cp, s, k, p, u, w, p + 1);
  lemma_bsum_one(s, k, p, u);
}
// convex hull: the coefficient of control point j of the evaluated point
pub open spec fn hullco(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, j: int) -> real {
  cp[j].coords.c(dim() - 1) * bas(s, kspan(s, cp.len() - 1, p, u), j, p, u) / hval(cp, s, p, u, dim() - 1)
}
pub open spec fn hullsum(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, k: int, m: int) -> real decreases m {
  if m <= 0 { 0real } else { hullsum(cp, s, p, u, k, m - 1) + hullco(cp, s, p, u, k - p + m - 1) }
}
pub open spec fn hullpt(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, k: int, c: int, m: int) -> real decreases m {
  if m <= 0 { 0real } else { hullpt(cp, s, p, u, k, c, m - 1) + hullco(cp, s, p, u, k - p + m - 1) * (cp[k - p + m - 1].coords.c(c) / cp[k - p + m - 1].coords.c(dim() - 1)) }
}
pub proof fn lemma_hull_sums(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, k: int, c: int, m: int)
  requires hval(cp, s, p, u, dim() - 1) > 0real, 0 <= p <= k < cp.len(), 0 <= m <= p + 1, k == kspan(s, cp.len() - 1, p, u),
    forall|j: int| 0 <= j < cp.len() ==> (#[trigger] cp[j]).coords.c(dim() - 1) > 0real,
  ensures hullsum(cp, s, p, u, k, m) * hval(cp, s, p, u, dim() - 1) == csum(cp, s, k, p, u, dim() - 1, m),
    hullpt(cp, s, p, u, k, c, m) * hval(cp, s, p, u, dim() - 1) == csum(cp, s, k, p, u, c, m),
  decreases m
{
  let h = hval(cp, s, p, u, dim() - 1);
  if m > 0 {
    lemma_hull_sums(cp, s, p, u, k, c, m - 1);
    let j = k - p + m - 1;
    let w = cp[j].coords.c(dim() - 1);
    let x = cp[j].coords.c(c);
    let b = bas(s, k, j, p, u);
    let l = hullco(cp, s, p, u, j);
    assert(l * h == w * b) by (nonlinear_arith) requires l == w * b / h, h > 0real;
    assert((l * (x / w)) * h == x * b) by (nonlinear_arith) requires l * h == w * b, w > 0real;
    let a = hullsum(cp, s, p, u, k, m - 1);
    let q = hullpt(cp, s, p, u, k, c, m - 1);
    assert((a + l) * h == a * h + l * h) by (nonlinear_arith);
    assert((q + l * (x / w)) * h == q * h + (l * (x / w)) * h) by (nonlinear_arith);
  } else { assert(0real * h == 0real) by (nonlinear_arith); }
}
// with positive weights an evaluated point is a convex combination of the active control points
pub proof fn lemma_convex_hull(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real)
  requires wfk(s, cp.len() - 1, p), s[p]@ <= u <= s[cp.len() as int]@,
    forall|j: int| 0 <= j < cp.len() ==> (#[trigger] cp[j]).coords.c(dim() - 1) > 0real,
  ensures hval(cp, s, p, u, dim() - 1) > 0real,
    hullsum(cp, s, p, u, kspan(s, cp.len() - 1, p, u), p + 1) == 1real,
    forall|j: int| kspan(s, cp.len() - 1, p, u) - p <= j <= kspan(s, cp.len() - 1, p, u) ==> #[trigger] hullco(cp, s, p, u, j) >= 0real,
    forall|c: int| #[trigger] hullpt(cp, s, p, u, kspan(s, cp.len() - 1, p, u), c, p + 1) * hval(cp, s, p, u, dim() - 1) == hval(cp, s, p, u, c),
{
  let n = cp.len() - 1;
  let k = kspan(s, n, p, u);
  let h = hval(cp, s, p, u, dim() - 1);
  lemma_weight_pos(cp, s, p, u, dim() - 1);
  lemma_span_exists(s, n, p, u);
  lemma_span_contains(s, n, p, u, k);
  lemma_hull_sums(cp, s, p, u, k, 0, p + 1);
  let t = hullsum(cp, s, p, u, k, p + 1);
  assert(t == 1real) by (nonlinear_arith) requires t * h == h, h > 0real;
  assert forall|c: int| #[trigger] hullpt(cp, s, p, u, k, c, p + 1) * h == hval(cp, s, p, u, c) by { lemma_hull_sums(cp, s, p, u, k, c, p + 1); }
  assert forall|j: int| k - p <= j <= k implies #[trigger] hullco(cp, s, p, u, j) >= 0real by {
    lemma_bas_nonneg(s, k, j, p, u);
    let w = cp[j].coords.c(dim() - 1);
    let b = bas(s, k, j, p, u);
    assert(w * b / h >= 0real) by (nonlinear_arith) requires w > 0real, b >= 0real, h > 0real;
  }
}
// evenly spaced parameters of the domain
pub open spec fn spaced(s: Seq<R>, p: int, divs: int, j: int) -> real { s[p]@ + (j as real) * ((s[s.len() - p - 1]@ - s[p]@) / (divs as real)) }
pub open spec fn spaced_span(s: Seq<R>, p: int, divs: int, j: int, k: int) -> bool {
  p <= k <= s.len() - p - 2 && s[k]@ < s[k + 1]@ && s[k]@ <= spaced(s, p, divs, j) && (spaced(s, p, divs, j) < s[k + 1]@ || k == s.len() - p - 2)
}
pub proof fn lemma_spaced(s: Seq<R>, p: int, divs: int, j: int)
  requires divs >= 1
  ensures spaced(s, p, divs, 0) == s[p]@, spaced(s, p, divs, j + 1) == spaced(s, p, divs, j) + (s[s.len() - p - 1]@ - s[p]@) / (divs as real),
    s[p]@ <= s[s.len() - p - 1]@ ==> (s[s.len() - p - 1]@ - s[p]@) / (divs as real) >= 0real
{
  let d = (s[s.len() - p - 1]@ - s[p]@) / (divs as real);
  assert(((j + 1) as real) * d == (j as real) * d + d) by (nonlinear_arith);
  assert((0int as real) * d == 0real) by (nonlinear_arith);
  let x = s[s.len() - p - 1]@ - s[p]@;
  let y = divs as real;
  if x >= 0real { assert(x / y >= 0real) by (nonlinear_arith) requires x >= 0real, y >= 1real; }
}
pub proof fn lemma_csum_above(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, w: int, hi: real, m: int)
  requires good_span(s, k, p), k + p + 1 < s.len(), s[k]@ <= u <= s[k + 1]@, 0 <= m <= p + 1, k < cp.len(),
    forall|j: int| k - p <= j <= k ==> hi * (#[trigger] cp[j]).coords.c(w) >= cp[j].coords.c(c),
  ensures hi * csum(cp, s, k, p, u, w, m) >= csum(cp, s, k, p, u, c, m)
  decreases m
{
  if m > 0 {
    lemma_csum_above(cp, s, k, p, u, c, w, hi, m - 1);
    let j = k - p + m - 1;
    let b = bas(s, k, j, p, u);
    let x = cp[j].coords.c(c);
    let y = cp[j].coords.c(w);
    assert(hi * y >= x);
    lemma_bas_nonneg(s, k, j, p, u);
    let a = csum(cp, s, k, p, u, w, m - 1);
    assert(hi * (a + y * b) == hi * a + (hi * y) * b) by (nonlinear_arith);
    assert((hi * y) * b >= x * b) by (nonlinear_arith) requires hi * y >= x, b >= 0real;
  } else { assert(hi * 0real == 0real) by (nonlinear_arith); }
}
// with positive weights every coordinate of the curve stays within bounds of the control points' coordinates
pub proof fn lemma_curve_bounds(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int, lo: real, hi: real)
  requires wfk(s, cp.len() - 1, p), s[p]@ <= u <= s[cp.len() as int]@,
    forall|j: int| 0 <= j < cp.len() ==> (#[trigger] cp[j]).coords.c(dim() - 1) > 0real,
    forall|j: int| 0 <= j < cp.len() ==> lo <= (#[trigger] cp[j]).coords.c(c) / cp[j].coords.c(dim() - 1) <= hi,
  ensures lo <= hval(cp, s, p, u, c) / hval(cp, s, p, u, dim() - 1) <= hi
{
  let n = cp.len() - 1; let k = kspan(s, n, p, u); let w = dim() - 1;
  lemma_weight_pos(cp, s, p, u, w);
  lemma_span_exists(s, n, p, u); lemma_span_contains(s, n, p, u, k);
  assert forall|j: int| k - p <= j <= k implies lo * (#[trigger] cp[j]).coords.c(w) <= cp[j].coords.c(c) && hi * cp[j].coords.c(w) >= cp[j].coords.c(c) by {
    let y = cp[j].coords.c(w); let x = cp[j].coords.c(c); let q = x / y;
    assert(y > 0real && lo <= q <= hi);
    assert(q * y == x) by (nonlinear_arith) requires q == x / y, y > 0real;
    assert(lo * y <= q * y && q * y <= hi * y) by (nonlinear_arith) requires lo <= q <= hi, y > 0real;
  }
  lemma_csum_bound(cp, s, k, p, u, c, w, lo, p + 1);
  lemma_csum_above(cp, s, k, p, u, c, w, hi, p + 1);
  let x = hval(cp, s, p, u, c); let y = hval(cp, s, p, u, w); let q = x / y;
  assert(q * y == x) by (nonlinear_arith) requires q == x / y, y > 0real;
  assert(lo <= q <= hi) by (nonlinear_arith) requires lo * y <= x, x <= hi * y, q * y == x, y > 0real;
}
