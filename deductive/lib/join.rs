// needs: split
// At a knot of multiplicity at most the degree the pieces on both sides agree.
pub proof fn lemma_zero_mul(a: real, b: real) ensures a * 0real == 0real, 0real * a == 0real, 1real * a == a, a * 1real == a, b * 0real == 0real, 0real * b == 0real { assert(a * 0real == 0real && 0real * a == 0real && 1real * a == a && a * 1real == a && b * 0real == 0real && 0real * b == 0real) by (nonlinear_arith); }
// u = s[k-mu+1] = ... = s[k]
pub open spec fn runof(s: Seq<R>, k: int, mu: int, u: real) -> bool { mu >= 1 && forall|q: int| k - mu < q <= k ==> (#[trigger] s[q])@ == u }
pub proof fn lemma_join_right(s: Seq<R>, k: int, mu: int, i: int, p: int, u: real)
  requires runof(s, k, mu, u), s[k + 1]@ > u, 0 <= p <= mu
  ensures bas(s, k, i, p, u) == (if i == k - p { 1real } else { 0real })
  decreases p
{
  if p > 0 {
    lemma_join_right(s, k, mu, i, p - 1, u); lemma_join_right(s, k, mu, i + 1, p - 1, u);
    let a = fr(u - s[i]@, s[i + p]@ - s[i]@); let b = fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@);
    lemma_zero_mul(a, b);
    if i == k - p {
      assert(s[i + 1]@ == u); assert(s[i + p + 1]@ > u);
      lemma_fr_swap(1real, s[i + p + 1]@ - u, 1real, 1real);
      lemma_zero_mul(b, a);
    } else if i == k - p + 1 { assert(s[i]@ == u); assert(s[i + p]@ == s[k + 1]@); assert(fr(0real, s[i + p]@ - u) == 0real) by { let d = s[i + p]@ - u; assert(0real / d == 0real) by (nonlinear_arith) requires d != 0real; } lemma_zero_mul(a, b); }
  }
}
pub proof fn lemma_join_left(s: Seq<R>, k: int, mu: int, i: int, p: int, u: real)
  requires runof(s, k, mu, u), s[k - mu]@ < u, 0 <= p <= mu
  ensures bas(s, k - mu, i, p, u) == (if i == k - mu { 1real } else { 0real })
  decreases p
{
  if p > 0 {
    lemma_join_left(s, k, mu, i, p - 1, u); lemma_join_left(s, k, mu, i + 1, p - 1, u);
    let a = fr(u - s[i]@, s[i + p]@ - s[i]@); let b = fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@);
    lemma_zero_mul(a, b);
    if i == k - mu {
      assert(s[i + p]@ == u);
      lemma_fr_swap(1real, u - s[i]@, 1real, 1real);
      lemma_zero_mul(a, b);
    } else if i == k - mu - 1 { assert(s[i + 1]@ == s[k - mu]@); assert(s[i + p + 1]@ == u); let d = u - s[i + 1]@; assert(0real / d == 0real) by (nonlinear_arith) requires d != 0real; lemma_zero_mul(b, a); }
  }
}
pub proof fn lemma_join_bas(s: Seq<R>, k: int, mu: int, i: int, p: int, u: real)
  requires runof(s, k, mu, u), s[k - mu]@ < u < s[k + 1]@, p >= mu
  ensures bas(s, k - mu, i, p, u) == bas(s, k, i, p, u)
  decreases p
{
  if p == mu { lemma_join_left(s, k, mu, i, p, u); lemma_join_right(s, k, mu, i, p, u); }
  else { lemma_join_bas(s, k, mu, i, p - 1, u); lemma_join_bas(s, k, mu, i + 1, p - 1, u); }
}
pub open spec fn gsum(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, a: int, m: int) -> real decreases m {
  if m <= 0 { 0real } else { gsum(cp, s, k, p, u, c, a, m - 1) + cp[a + m - 1].coords.c(c) * bas(s, k, a + m - 1, p, u) }
}
pub proof fn lemma_gsum_csum(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, m: int) ensures gsum(cp, s, k, p, u, c, k - p, m) == csum(cp, s, k, p, u, c, m) decreases m
{ if m > 0 { lemma_gsum_csum(cp, s, k, p, u, c, m - 1); } }
pub proof fn lemma_gsum_tail(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, a: int, m: int, m2: int)
  requires 0 <= m <= m2, p >= 0, a + m > k
  ensures gsum(cp, s, k, p, u, c, a, m2) == gsum(cp, s, k, p, u, c, a, m)
  decreases m2
{ if m2 > m { lemma_gsum_tail(cp, s, k, p, u, c, a, m, m2 - 1); lemma_bas_support(s, k, a + m2 - 1, p, u); lemma_zero_mul(cp[a + m2 - 1].coords.c(c), 0real); } }
pub proof fn lemma_gsum_head(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, a: int, h: int, m: int)
  requires 0 <= h, 0 <= m, p >= 0, a + h + p <= k
  ensures gsum(cp, s, k, p, u, c, a, h + m) == gsum(cp, s, k, p, u, c, a + h, m)
  decreases h + m
{
  if m > 0 { lemma_gsum_head(cp, s, k, p, u, c, a, h, m - 1); }
  else if h > 0 { lemma_gsum_head(cp, s, k, p, u, c, a, h - 1, 0); lemma_bas_support(s, k, a + h - 1, p, u); lemma_zero_mul(cp[a + h - 1].coords.c(c), 0real); }
}
pub proof fn lemma_gsum_eq(cp: Seq<OPoint>, s: Seq<R>, k: int, mu: int, p: int, u: real, c: int, a: int, m: int)
  requires runof(s, k, mu, u), s[k - mu]@ < u < s[k + 1]@, p >= mu
  ensures gsum(cp, s, k - mu, p, u, c, a, m) == gsum(cp, s, k, p, u, c, a, m)
  decreases m
{ if m > 0 { lemma_gsum_eq(cp, s, k, mu, p, u, c, a, m - 1); lemma_join_bas(s, k, mu, a + m - 1, p, u); } }
pub proof fn lemma_join(cp: Seq<OPoint>, s: Seq<R>, k: int, mu: int, p: int, u: real, c: int)
  requires runof(s, k, mu, u), s[k - mu]@ < u < s[k + 1]@, p >= mu
  ensures csum(cp, s, k - mu, p, u, c, p + 1) == csum(cp, s, k, p, u, c, p + 1)
{
  let a = k - mu - p;
  lemma_gsum_csum(cp, s, k - mu, p, u, c, p + 1); lemma_gsum_csum(cp, s, k, p, u, c, p + 1);
  lemma_gsum_tail(cp, s, k - mu, p, u, c, a, p + 1, p + 1 + mu);
  lemma_gsum_head(cp, s, k, p, u, c, a, mu, p + 1);
  lemma_gsum_eq(cp, s, k, mu, p, u, c, a, p + 1 + mu);
}
// the end of the second curve's domain, where the first goes on
pub proof fn lemma_traces_end(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, p: int, u: real, c: int)
  requires traces(cp, s, cp2, s2, p), wfk(s, cp.len() - 1, p), wfk(s2, cp2.len() - 1, p), u == s2[cp2.len() as int]@, s[p]@ < u < s[cp.len() as int]@, cnt(s, u, s.len() as int) <= p
  ensures hval(cp2, s2, p, u, c) == hval(cp, s, p, u, c)
{
  let n = cp.len() - 1; let n2 = cp2.len() - 1;
  axiom_eps();
  lemma_kspan(s2, n2, p, u, n2);
  let k = choose|k: int| p <= k < cp.len() && #[trigger] samepiece(cp, s, k, cp2, s2, n2, p);
  assert(csum(cp2, s2, n2, p, u, c, p + 1) == csum(cp, s, k, p, u, c, p + 1));
  if u < s[k + 1]@ { assert(in_span(s, n, p, u, k)); lemma_kspan(s, n, p, u, k); }
  else {
    lemma_span_exists(s, n, p, u);
    let kk = kspan(s, n, p, u);
    lemma_span_contains(s, n, p, u, kk);
    assert(u < s[kk + 1]@) by { if kk == p && u < s[p]@ + eps() { } }
    if kk <= k { lemma_le(s, kk + 1, k + 1); }
    let mu = kk - k;
    assert(runof(s, kk, mu, u)) by { assert forall|q: int| kk - mu < q <= kk implies (#[trigger] s[q])@ == u by { lemma_le(s, k + 1, q); lemma_le(s, q, kk); } }
    assert forall|q: int| kk < q < s.len() implies (#[trigger] s[q])@ > u by { lemma_le(s, kk + 1, q); }
    lemma_cnt_run(s, u, kk, kk + 1); lemma_cnt_run(s, u, kk, s.len() as int);
    assert(mu <= p) by { if mu > cnt(s, u, kk + 1) { assert(s[k + 1]@ == u); } }
    lemma_join(cp, s, kk, mu, p, u, c);
  }
}
pub open spec fn sepq(s: Seq<R>, u: real) -> bool { forall|q: int| 0 <= q < s.len() ==> sepd((#[trigger] s[q])@, u) }
// knots of the part before and the part after u
pub open spec fn lefthalf(s: Seq<R>, p: int, u: R, sl: Seq<R>, m: int) -> bool { p <= m && m + p + 1 < s.len() && sl == s.subrange(0, m + 1) + rep(u, p + 1) && s[m]@ <= u@ && (s[p]@ < u@ ==> s[m]@ < u@) }
pub open spec fn righthalf(s: Seq<R>, p: int, u: R, sr: Seq<R>, m: int) -> bool { p <= m && m + p + 1 < s.len() && sr == rep(u, p + 1) + s.subrange(m + 1, s.len() as int) && u@ <= s[m + 1]@ && (u@ < s[s.len() - 1 - p]@ ==> s[m + 1]@ > u@) }
// L and R are c taken apart at u
pub open spec fn is_left(cp: Seq<OPoint>, s: Seq<R>, p: int, u: R, cl: Seq<OPoint>, sl: Seq<R>) -> bool {
  &&& sl.len() == cl.len() + p + 1 && p < cl.len() && sorted(sl) && (exists|m: int| #[trigger] lefthalf(s, p, u, sl, m)) && sl[p]@ == s[p]@ && sl[cl.len() as int]@ == u@
  &&& traces(cp, s, cl, sl, p)
  &&& s[p]@ < u@ ==> wfk(sl, cl.len() - 1, p)
  &&& forall|x: real, c: int| s[p]@ <= x < u@ ==> #[trigger] hval(cl, sl, p, x, c) == hval(cp, s, p, x, c)
  &&& s[p]@ < u@ && (cnt(s, u@, s.len() as int) <= p || u@ == s[cp.len() as int]@) ==> forall|c: int| #[trigger] hval(cl, sl, p, u@, c) == hval(cp, s, p, u@, c)
}
pub open spec fn is_right(cp: Seq<OPoint>, s: Seq<R>, p: int, u: R, cr: Seq<OPoint>, sr: Seq<R>) -> bool {
  &&& sr.len() == cr.len() + p + 1 && p < cr.len() && sorted(sr) && (exists|m: int| #[trigger] righthalf(s, p, u, sr, m)) && sr[p]@ == u@ && sr[cr.len() as int]@ == s[cp.len() as int]@
  &&& traces(cp, s, cr, sr, p)
  &&& u@ < s[cp.len() as int]@ ==> wfk(sr, cr.len() - 1, p)
  &&& forall|x: real, c: int| u@ <= x <= s[cp.len() as int]@ && u@ < s[cp.len() as int]@ ==> #[trigger] hval(cr, sr, p, x, c) == hval(cp, s, p, x, c)
}
pub proof fn lemma_is_left(cp: Seq<OPoint>, s: Seq<R>, p: int, u: R, b: Seq<OPoint>, t: Seq<R>, c: int, cl: Seq<OPoint>, sl: Seq<R>, m: int)
  requires wfk(s, cp.len() - 1, p), s[p]@ <= u@ <= s[cp.len() as int]@, clstate(cp, s, b, t, p, s[p]@, s[cp.len() as int]@), sepq(s, u@), sorted(sl), sl.to_multiset() =~= t.subrange(0, m + p + 2).to_multiset(), cl =~= b.subrange(0, m + 1), p <= m < cp.len(), lefthalf(s, p, u, t.subrange(0, m + p + 2), m), m + p + 2 <= t.len(), m + 1 <= b.len()
  ensures is_left(cp, s, p, u, cl, sl)
{
  let w = t.subrange(0, m + p + 2);
  lemma_clget(cp, s, b, t, p, s[p]@, s[cp.len() as int]@);
  axiom_eps();
  assert(sorted(w)) by { assert forall|i: int, j: int| 0 <= i <= j < w.len() implies (#[trigger] w[i])@ <= (#[trigger] w[j])@ by { lemma_le(t, i, j); } }
  lemma_sorted_same(sl, w);
  assert(sl[p] == s[p]); assert(sl[m + 1] == u);
  lemma_window_traces(cp, s, b, t, cl, sl, 0, p, s[p]@, s[cp.len() as int]@);
  if s[p]@ < u@ {
    assert(wfk(sl, m, p)) by { assert(sl[m] == s[m]); assert(sepd(s[m]@, u@)); assert(sepd(s[p]@, u@)); if m > p { assert(sl[p + 1] == s[p + 1]); } }
    assert forall|x: real, c: int| s[p]@ <= x < u@ implies #[trigger] hval(cl, sl, p, x, c) == hval(cp, s, p, x, c) by { lemma_traces_val(cp, s, cl, sl, p, x, c); }
    if cnt(s, u@, s.len() as int) <= p || u@ == s[cp.len() as int]@ {
      assert forall|c: int| #[trigger] hval(cl, sl, p, u@, c) == hval(cp, s, p, u@, c) by { if u@ == s[cp.len() as int]@ { lemma_traces_val(cp, s, cl, sl, p, u@, c); } else { lemma_traces_end(cp, s, cl, sl, p, u@, c); } }
    }
  }
}
pub proof fn lemma_is_right(cp: Seq<OPoint>, s: Seq<R>, p: int, u: R, b: Seq<OPoint>, t: Seq<R>, d: int, cr: Seq<OPoint>, sr: Seq<R>, m: int)
  requires wfk(s, cp.len() - 1, p), s[p]@ <= u@ <= s[cp.len() as int]@, clstate(cp, s, b, t, p, s[p]@, s[cp.len() as int]@), sepq(s, u@), sorted(sr), 0 <= d <= t.len(), d <= b.len(), sr.to_multiset() =~= t.subrange(d, t.len() as int).to_multiset(), cr =~= b.subrange(d, b.len() as int), p <= m < cp.len(), righthalf(s, p, u, t.subrange(d, t.len() as int), m)
  ensures is_right(cp, s, p, u, cr, sr)
{
  let w = t.subrange(d, t.len() as int); let n1 = cp.len() as int;
  lemma_clget(cp, s, b, t, p, s[p]@, s[n1]@);
  axiom_eps();
  assert(sorted(w)) by { assert forall|i: int, j: int| 0 <= i <= j < w.len() implies (#[trigger] w[i])@ <= (#[trigger] w[j])@ by { lemma_le(t, i + d, j + d); } }
  lemma_sorted_same(sr, w);
  let nr = cr.len() as int;
  assert(sr.len() == p + 1 + s.len() - m - 1); assert(nr == n1 - m + p);
  assert(sr[p] == u); assert(sr[nr] == s[n1]);
  lemma_window_traces(cp, s, b, t, cr, sr, d, p, s[p]@, s[n1]@);
  if u@ < s[n1]@ {
    assert(wfk(sr, nr - 1, p)) by { assert(sr[p + 1] == s[m + 1]); assert(sepd(s[m + 1]@, u@)); assert(sepd(s[n1]@, u@)); if m + 1 <= n1 - 1 { assert(sr[nr - 1] == s[n1 - 1]); } else { assert(nr - 1 == p); } }
    assert forall|x: real, c: int| u@ <= x <= s[n1]@ implies #[trigger] hval(cr, sr, p, x, c) == hval(cp, s, p, x, c) by { lemma_traces_val(cp, s, cr, sr, p, x, c); }
  }
}
// where a curve is split: u moved into the domain
pub open spec fn into(s: Seq<R>, p: int, n1: int, u: real) -> real { if u < s[p]@ { s[p]@ } else if u > s[n1]@ { s[n1]@ } else { u } }
pub open spec fn leftof(c: NurbsCurve, u: R, l: NurbsCurve) -> bool { l.degree == c.degree && is_left(c.control_points@, c.knots.0@, c.degree as int, u, l.control_points@, l.knots.0@) }
pub open spec fn rightof(c: NurbsCurve, u: R, r: NurbsCurve) -> bool { r.degree == c.degree && is_right(c.control_points@, c.knots.0@, c.degree as int, u, r.control_points@, r.knots.0@) }
// the two windows of the refined knot vector
pub proof fn lemma_windows(s: Seq<R>, p: int, n1: int, u: R, k: int, mu: int, xs: Seq<R>, t: Seq<R>)
  requires wfk(s, n1 - 1, p), s[p]@ <= u@ <= s[n1]@, in_span(s, n1 - 1, p, u@, k), sepq(s, u@), sorted(t),
    mu == (if s[p]@ < u@ < s[n1]@ { cnt(s, u@, s.len() as int) } else { 0 }), 0 <= mu <= p + 1, xs =~= rep(u, p + 1 - mu), t.to_multiset() =~= s.to_multiset().add(xs.to_multiset())
  ensures p <= k - mu, k <= n1 - 1, t.len() == s.len() + p + 1 - mu, lefthalf(s, p, u, t.subrange(0, k - mu + p + 2), k - mu), righthalf(s, p, u, t.subrange(k - mu + 1, t.len() as int), k)
{
  broadcast use axiom_r_ext;
  axiom_eps();
  lemma_span_contains(s, n1 - 1, p, u@, k);
  let m = k - mu;
  lemma_le(s, p, p + 1); lemma_le(s, n1 - 1, n1);
  if s[p]@ < u@ < s[n1]@ {
    assert(sepd(s[p]@, u@)); assert(sepd(s[n1]@, u@)); assert(sepd(s[k]@, u@));
    assert(u@ < s[k + 1]@) by { if k == n1 - 1 { } else { } }
    assert forall|q: int| k < q < s.len() implies (#[trigger] s[q])@ > u@ by { lemma_le(s, k + 1, q); }
    lemma_cnt_run(s, u@, k, k + 1); lemma_cnt_run(s, u@, k, s.len() as int);
    assert forall|q: int| m < q <= k implies (#[trigger] s[q]) == u by { assert(s[q]@ == u@); }
    assert(p <= m) by { if p > m { assert(s[p] == u) by { lemma_le(s, p, k); } } }
    assert(s[m]@ < u@);
  } else if u@ == s[p]@ {
    assert(k == p) by { lemma_kspan(s, n1 - 1, p, u@, k); assert(s[n1]@ - eps() >= u@) by { lemma_le(s, p + 1, n1); } assert(in_span(s, n1 - 1, p, u@, p)); lemma_kspan(s, n1 - 1, p, u@, p); }
  } else {
    assert(k == n1 - 1) by { lemma_kspan(s, n1 - 1, p, u@, k); assert(in_span(s, n1 - 1, p, u@, n1 - 1)); lemma_kspan(s, n1 - 1, p, u@, n1 - 1); }
  }
  lemma_spliced(s, m, u, p + 1 - mu, t, xs);
  assert(t.subrange(0, m + p + 2) =~= s.subrange(0, m + 1) + rep(u, p + 1)) by {
    assert forall|q: int| 0 <= q < m + p + 2 implies (#[trigger] t[q]) == (s.subrange(0, m + 1) + rep(u, p + 1))[q] by { if q > m + p + 1 - mu { assert(t[q] == s[q - (p + 1 - mu)]); } }
  }
  let tw = t.subrange(m + 1, t.len() as int); let rw = rep(u, p + 1) + s.subrange(k + 1, s.len() as int);
  assert(tw =~= rw) by {
    assert forall|q: int| 0 <= q < tw.len() implies (#[trigger] tw[q]) == rw[q] by { if q >= p + 1 - mu { assert(tw[q] == s[q + m + 1 - (p + 1 - mu)]); } }
  }
}
pub proof fn lemma_cnt_tail(s: Seq<R>, a: R, c: int, m: int, u: real, j: int)
  requires a@ != u, c >= 0, 0 <= m <= s.len(), 0 <= j <= c + s.len() - m
  ensures cnt(rep(a, c) + s.subrange(m, s.len() as int), u, j) <= (if j <= c { 0 } else { cnt(s, u, j - c + m) })
  decreases j
{
  if j > 0 {
    lemma_cnt_tail(s, a, c, m, u, j - 1);
    lemma_cnt_nonneg(s, u, m);
  }
}
pub proof fn lemma_cnt_nonneg(s: Seq<R>, u: real, m: int) ensures cnt(s, u, m) >= 0 decreases m { if m > 0 { lemma_cnt_nonneg(s, u, m - 1); } }
// r is the part of c between a and b
pub open spec fn part(c: NurbsCurve, a: R, b: R, r: NurbsCurve) -> bool {
  let p = c.degree as int; let n1 = r.control_points.len() as int;
  &&& r.degree == c.degree && r.knots.0.len() == n1 + p + 1 && p < n1 && sorted(r.knots.0@) && r.knots.0@[p]@ == a@ && r.knots.0@[n1]@ == b@
  &&& traces(c.control_points@, c.knots.0@, r.control_points@, r.knots.0@, p)
  &&& a@ < b@ ==> wfk(r.knots.0@, n1 - 1, p)
  &&& forall|x: real, e: int| a@ <= x < b@ ==> #[trigger] hval(r.control_points@, r.knots.0@, p, x, e) == hval(c.control_points@, c.knots.0@, p, x, e)
  &&& a@ < b@ && (cnt(c.knots.0@, b@, c.knots.0.len() as int) <= p || b@ == c.knots.0@[c.control_points.len() as int]@) ==> forall|e: int| #[trigger] hval(r.control_points@, r.knots.0@, p, b@, e) == hval(c.control_points@, c.knots.0@, p, b@, e)
}
// the part after a, made ready for a second split at b
pub proof fn lemma_tail_ready(c: NurbsCurve, a: R, b: R, t: NurbsCurve)
  requires wfk(c.knots.0@, c.control_points.len() - 1, c.degree as int), rightof(c, a, t), c.knots.0@[c.degree as int]@ <= a@ <= b@ <= c.knots.0@[c.control_points.len() as int]@, a@ < c.knots.0@[c.control_points.len() as int]@,
    sepq(c.knots.0@, b@), sepd(a@, b@)
  ensures wfk(t.knots.0@, t.control_points.len() - 1, c.degree as int), sepq(t.knots.0@, b@), a@ < b@ ==> cnt(t.knots.0@, b@, t.knots.0.len() as int) <= cnt(c.knots.0@, b@, c.knots.0.len() as int),
    into(t.knots.0@, c.degree as int, t.control_points.len() as int, b@) == b@, t.degree == c.degree, t.knots.0@[c.degree as int]@ == a@, t.knots.0@[t.control_points.len() as int]@ == c.knots.0@[c.control_points.len() as int]@
{
  let s = c.knots.0@; let p = c.degree as int; let sr = t.knots.0@;
  let m = choose|m: int| #[trigger] righthalf(s, p, a, sr, m);
  assert forall|q: int| 0 <= q < sr.len() implies sepd((#[trigger] sr[q])@, b@) by { if q > p { assert(sr[q] == s[q - p - 1 + m + 1]); } else { assert(sr[q] == a); } }
  if a@ < b@ { lemma_cnt_tail(s, a, p + 1, m + 1, b@, sr.len() as int); }
}
pub proof fn lemma_part_mid(c: NurbsCurve, a: R, b: R, t: NurbsCurve, h: NurbsCurve)
  requires wfk(c.knots.0@, c.control_points.len() - 1, c.degree as int), rightof(c, a, t), leftof(t, b, h), c.knots.0@[c.degree as int]@ <= a@ < b@ <= c.knots.0@[c.control_points.len() as int]@,
    sepq(c.knots.0@, b@), sepd(a@, b@)
  ensures part(c, a, b, h)
{
  lemma_tail_ready(c, a, b, t);
  lemma_traces_trans(c.control_points@, c.knots.0@, t.control_points@, t.knots.0@, h.control_points@, h.knots.0@, c.degree as int);
  let p = c.degree as int;
  assert forall|x: real, e: int| a@ <= x < b@ implies #[trigger] hval(h.control_points@, h.knots.0@, p, x, e) == hval(c.control_points@, c.knots.0@, p, x, e) by { assert(hval(h.control_points@, h.knots.0@, p, x, e) == hval(t.control_points@, t.knots.0@, p, x, e)); }
  if cnt(c.knots.0@, b@, c.knots.0.len() as int) <= p || b@ == c.knots.0@[c.control_points.len() as int]@ {
    assert forall|e: int| #[trigger] hval(h.control_points@, h.knots.0@, p, b@, e) == hval(c.control_points@, c.knots.0@, p, b@, e) by { assert(hval(h.control_points@, h.knots.0@, p, b@, e) == hval(t.control_points@, t.knots.0@, p, b@, e)); }
  }
}
pub proof fn lemma_part_head(c: NurbsCurve, lo: R, a: R, l: NurbsCurve)
  requires leftof(c, a, l), lo == c.knots.0@[c.degree as int]
  ensures part(c, lo, a, l)
{ }
pub proof fn lemma_part_tail(c: NurbsCurve, a: R, b: R, hi: R, t: NurbsCurve, t2: NurbsCurve)
  requires wfk(c.knots.0@, c.control_points.len() - 1, c.degree as int), rightof(c, a, t), rightof(t, b, t2), c.knots.0@[c.degree as int]@ <= a@ <= b@ <= c.knots.0@[c.control_points.len() as int]@, a@ < hi@,
    sepq(c.knots.0@, b@), sepd(a@, b@), hi == c.knots.0@[c.control_points.len() as int]
  ensures part(c, b, hi, t2)
{
  lemma_tail_ready(c, a, b, t);
  lemma_traces_trans(c.control_points@, c.knots.0@, t.control_points@, t.knots.0@, t2.control_points@, t2.knots.0@, c.degree as int);
  let p = c.degree as int;
  assert forall|x: real, e: int| b@ <= x <= hi@ && b@ < hi@ implies #[trigger] hval(t2.control_points@, t2.knots.0@, p, x, e) == hval(c.control_points@, c.knots.0@, p, x, e) by { assert(hval(t2.control_points@, t2.knots.0@, p, x, e) == hval(t.control_points@, t.knots.0@, p, x, e)); }
}
// a parameter of the domain the curve can be trimmed at
pub open spec fn trimmable(c: NurbsCurve, u: real) -> bool {
  let s = c.knots.0@; let p = c.degree as int; let hi = s[c.control_points.len() as int]@;
  s[p]@ <= u <= hi && sepq(s, u) && (cnt(s, u, s.len() as int) <= p + 1 || u == s[p]@ || u == hi)
}
