// needs: join
// every knot repeated m times, one block per distinct knot
pub open spec fn ex(g: Seq<R>, k: int, m: int) -> Seq<R> decreases k { if k <= 0 { Seq::empty() } else { ex(g, k - 1, m) + rep(g[k - 1], m) } }
pub proof fn lemma_ex_len(g: Seq<R>, k: int, m: int)
  requires 0 <= k, m >= 0 ensures ex(g, k, m).len() == k * m, k * m >= 0 decreases k
{ if k > 0 { lemma_ex_len(g, k - 1, m); assert(k * m == (k - 1) * m + m) by (nonlinear_arith); } else { assert(0 * m == 0) by (nonlinear_arith); } }
pub proof fn lemma_ex_at(g: Seq<R>, k: int, m: int, a: int, b: int)
  requires 0 <= a < k, 0 <= b < m ensures ex(g, k, m).len() == k * m, 0 <= a * m + b < k * m, ex(g, k, m)[a * m + b] == g[a] decreases k
{
  lemma_ex_len(g, k, m); lemma_ex_len(g, k - 1, m);
  assert(k * m == (k - 1) * m + m) by (nonlinear_arith);
  assert(0 <= a * m) by (nonlinear_arith) requires a >= 0, m >= 0;
  if a < k - 1 { lemma_ex_at(g, k - 1, m, a, b); } else { assert(a * m == (k - 1) * m); }
}
// every element comes from some block
pub proof fn lemma_ex_from(g: Seq<R>, k: int, m: int, j: int) -> (a: int)
  requires 0 <= j < ex(g, k, m).len(), k >= 0, m >= 0 ensures 0 <= a < k, ex(g, k, m)[j] == g[a] decreases k
{
  lemma_ex_len(g, k, m); assert(0 * m == 0) by (nonlinear_arith);
  if j < ex(g, k - 1, m).len() { lemma_ex_from(g, k - 1, m, j) } else { k - 1 }
}
// the first k distinct knots (e knots of s) are filled up
pub open spec fn bstate(s: Seq<R>, g: Seq<R>, k: int, m: int, e: int) -> Seq<R> { ex(g, k, m) + s.subrange(e, s.len() as int) }
pub proof fn lemma_bez_full(s: Seq<R>, g: Seq<R>, k: int, m: int, e: int)
  requires 0 <= k, m >= 0, 0 <= e, e + m <= s.len(), forall|i: int| e <= i < e + m ==> (#[trigger] s[i])@ == g[k]@
  ensures bstate(s, g, k, m, e) == bstate(s, g, k + 1, m, e + m)
{
  broadcast use axiom_r_ext;
  lemma_ex_len(g, k, m);
  assert(bstate(s, g, k, m, e) =~= bstate(s, g, k + 1, m, e + m));
}
pub proof fn lemma_bez_step(s: Seq<R>, g: Seq<R>, k: int, m: int, e: int, q: int, v2: Seq<R>, xs: Seq<R>)
  requires 0 <= k, 1 <= q < m, 0 <= e, e + q <= s.len(), sorted(s), forall|i: int| e <= i < e + q ==> (#[trigger] s[i])@ == g[k]@,
    sorted(bstate(s, g, k, m, e)), xs =~= rep(g[k], m - q), sorted(v2), v2.to_multiset() =~= bstate(s, g, k, m, e).to_multiset().add(xs.to_multiset())
  ensures v2 == bstate(s, g, k + 1, m, e + q)
{
  hide(sorted);
  broadcast use axiom_r_ext;
  let v = bstate(s, g, k, m, e); let l = ex(g, k, m).len() as int;
  lemma_ex_len(g, k, m);
  let i = l + q - 1;
  assert(v[i] == s[e + q - 1]);
  if i + 1 < v.len() { assert(v[i + 1] == s[e + q]); lemma_le(s, e + q - 1, e + q); }
  lemma_spliced(v, i, g[k], m - q, v2, xs);
  assert(spliced(v, i, g[k], m - q) =~= bstate(s, g, k + 1, m, e + q)) by {
    let z = spliced(v, i, g[k], m - q); let y = bstate(s, g, k + 1, m, e + q);
    assert(z.len() == y.len());
    assert forall|j: int| 0 <= j < z.len() implies z[j] == y[j] by {
      if j < l { } else if j < l + q { assert(v[j] == s[e + j - l]); assert(s[e + j - l]@ == g[k]@); } else if j < l + m { } else { assert(z[j] == v[j - (m - q)]); }
    }
  }
}
pub proof fn lemma_gap_sepd(s: Seq<R>, i: int, j: int)
  requires sorted(s), distinct_gap(s), 0 <= i <= j < s.len() ensures sepd(s[i]@, s[j]@), s[i]@ == s[j]@ || s[j]@ - s[i]@ > eps() decreases j - i
{ axiom_eps(); if i < j { lemma_gap_sepd(s, i, j - 1); lemma_le(s, i, j - 1); assert(s[j - 1]@ == s[j - 1 + 1]@ || s[j - 1 + 1]@ - s[j - 1]@ > eps()); } }
pub proof fn lemma_has_sepd(s: Seq<R>, a: real, b: real)
  requires sorted(s), distinct_gap(s), has(s, a), has(s, b) ensures sepd(a, b), a < b ==> b - a > eps()
{
  let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == a; let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == b;
  if i <= j { lemma_gap_sepd(s, i, j); } else { lemma_gap_sepd(s, j, i); lemma_le(s, j, i); }
}
pub open spec fn clampedk(s: Seq<R>, n: int, p: int) -> bool { s[0]@ == s[p]@ && s[n + 1]@ == s[n + p + 1]@ }
// a curve part way: knots can be inserted
pub proof fn lemma_bez_has(s: Seq<R>, g: Seq<R>, k: int, m: int, e: int)
  requires 0 <= k, m >= 0, 0 <= e <= s.len(), forall|a: int| 0 <= a <= k ==> has(s, (#[trigger] g[a])@)
  ensures forall|j: int| 0 <= j < bstate(s, g, k, m, e).len() ==> has(s, (#[trigger] bstate(s, g, k, m, e)[j])@)
{
  let v = bstate(s, g, k, m, e); let l = ex(g, k, m).len() as int;
  assert forall|j: int| 0 <= j < v.len() implies has(s, (#[trigger] v[j])@) by { if j < l { let a = lemma_ex_from(g, k, m, j); assert(has(s, g[a]@)); } else { assert(v[j] == s[e + j - l]); } }
}
pub proof fn lemma_bez_insertable(s: Seq<R>, v: Seq<R>, x: R, c: int, p: int, n1: int)
  requires sorted(s), distinct_gap(s), c >= 0, has(s, x@), forall|j: int| 0 <= j < v.len() ==> has(s, (#[trigger] v[j])@), v[p]@ <= x@ <= v[n1]@
  ensures insertable(rep(x, c), v, p, n1)
{
  hide(sepd); hide(has); hide(distinct_gap);
  let xs = rep(x, c);
  assert forall|j: int, i: int| 0 <= j < xs.len() && 0 <= i < v.len() implies sepd((#[trigger] v[i])@, (#[trigger] xs[j])@) by { lemma_has_sepd(s, v[i]@, x@); }
  lemma_has_sepd(s, x@, x@);
}
pub proof fn lemma_bez_len(k: int, m: int, e: int, sl: int)
  requires 1 <= k <= e <= sl, m >= 1, sl * m < 0x1000_0000
  ensures k * m + sl - e < 0x1000_0000, k * m >= m, m < 0x1000_0000
{
  assert(k * m <= e * m) by (nonlinear_arith) requires k <= e, m >= 1;
  assert(k * m >= m) by (nonlinear_arith) requires k >= 1, m >= 1;
  assert(sl - e <= (sl - e) * m) by (nonlinear_arith) requires sl - e >= 0, m >= 1;
  assert(e * m + (sl - e) * m == sl * m) by (nonlinear_arith);
  assert(m <= sl * m) by (nonlinear_arith) requires sl >= 1, m >= 1;
}
pub proof fn lemma_bez_ends(s: Seq<R>, g: Seq<R>, k: int, m: int, e: int)
  requires 1 <= k, 1 <= m <= e, e < s.len() - m, g[0]@ == s[0]@, k == 1 ==> e == m && s[e]@ == g[k]@, k >= 2 ==> g[1]@ == s[m]@
  ensures ({ let v = bstate(s, g, k, m, e); v.len() == k * m + s.len() - e && v.len() > 2 * m && v[m - 1]@ == s[0]@ && v[m]@ == s[m]@ && v[v.len() - m] == s[s.len() - m] && v[v.len() - m - 1] == s[s.len() - m - 1] })
{
  let v = bstate(s, g, k, m, e); let l = ex(g, k, m).len() as int;
  lemma_ex_len(g, k, m); lemma_ex_at(g, k, m, 0, m - 1); assert(0 * m == 0) by (nonlinear_arith);
  assert(l >= m) by (nonlinear_arith) requires l == k * m, k >= 1, m >= 1;
  if k == 1 { assert(l == m) by (nonlinear_arith) requires l == k * m, k == 1; assert(v[m] == s[e]); }
  else { lemma_ex_at(g, k, m, 1, 0); assert(1 * m == m) by (nonlinear_arith); assert(l >= 2 * m) by (nonlinear_arith) requires l == k * m, k >= 2, m >= 1; }
}
pub proof fn lemma_bez_ready(s: Seq<R>, g: Seq<R>, k: int, p: int, n: int, e: int, q: int, xs: Seq<R>)
  requires wfk(s, n, p), distinct_gap(s), clampedk(s, n, p), 1 <= k <= e, p + 1 <= e, 1 <= q < p + 1, e + q <= s.len() - (p + 1), s[e]@ == g[k]@, forall|a: int| 0 <= a <= k ==> has(s, (#[trigger] g[a])@),
    g[0]@ == s[0]@, k == 1 ==> e == p + 1, k >= 2 ==> g[1]@ == s[p + 1]@, s.len() * (p + 1) < 0x1000_0000, sorted(bstate(s, g, k, p + 1, e)), xs =~= rep(g[k], p + 1 - q)
  ensures ({ let v = bstate(s, g, k, p + 1, e); let n1 = v.len() - (p + 1); wfk(v, n1 - 1, p) && v[p]@ == s[p]@ && v[n1]@ == s[n + 1]@ && insertable(xs, v, p, n1) && xs.len() < 0x1000_0000 })
{
  hide(sorted); hide(insertable); hide(distinct_gap); hide(has); hide(bstate);
  let m = p + 1; let v = bstate(s, g, k, m, e); let n1 = v.len() - m; let sl = s.len() as int;
  lemma_bez_ends(s, g, k, m, e);
  lemma_bez_len(k, m, e, sl);
  lemma_le(s, 0, e); lemma_le(s, e, sl - m);
  lemma_bez_has(s, g, k, m, e);
  assert(has(s, g[k]@));
  lemma_bez_insertable(s, v, g[k], m - q, p, n1);
}
pub proof fn lemma_clstate_trans(a: Seq<OPoint>, s: Seq<R>, b: Seq<OPoint>, t: Seq<R>, c: Seq<OPoint>, v: Seq<R>, p: int, lo: real, hi: real)
  requires clstate(a, s, b, t, p, lo, hi), clstate(b, t, c, v, p, lo, hi) ensures clstate(a, s, c, v, p, lo, hi)
{ reveal(clstate); lemma_retrace_trans(a, s, b, t, c, v, p, lo, hi); }
// a Bezier segment of the curve: one span, clamped to its ends
pub open spec fn bezseg(cp: Seq<OPoint>, s: Seq<R>, p: int, cl: Seq<OPoint>, sl: Seq<R>) -> bool {
  &&& cl.len() == p + 1 && sl.len() == 2 * p + 2 && sl[0]@ < sl[p + 1]@
  &&& forall|q: int| 0 <= q <= p ==> (#[trigger] sl[q])@ == sl[0]@
  &&& forall|q: int| p + 1 <= q < 2 * p + 2 ==> (#[trigger] sl[q])@ == sl[p + 1]@
  &&& has(s, sl[0]@) && has(s, sl[p + 1]@) && forall|q: int| 0 <= q < s.len() ==> (#[trigger] s[q])@ <= sl[0]@ || s[q]@ >= sl[p + 1]@
  &&& traces(cp, s, cl, sl, p)
  &&& forall|u: real, c: int| sl[0]@ <= u < sl[p + 1]@ || (u == sl[p + 1]@ && u == s[cp.len() as int]@) ==> #[trigger] hval(cl, sl, p, u, c) == hval(cp, s, p, u, c)
}
pub open spec fn bezlist(c: NurbsCurve, r: Seq<NurbsCurve>) -> bool {
  let s = c.knots.0@; let p = c.degree as int;
  &&& r.len() >= 1
  &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).degree == c.degree && bezseg(c.control_points@, s, p, r[i].control_points@, r[i].knots.0@)
  &&& forall|i: int| 0 <= i < r.len() - 1 ==> (#[trigger] r[i]).knots.0@[p + 1]@ == r[i + 1].knots.0@[0]@
  &&& r[0].knots.0@[0]@ == s[p]@ && r[r.len() - 1].knots.0@[p + 1]@ == s[c.control_points.len() as int]@
}
// the distinct knots
pub open spec fn distinctk(g: Seq<R>, s: Seq<R>) -> bool {
  &&& forall|a: int| 0 <= a < g.len() ==> has(s, (#[trigger] g[a])@)
  &&& forall|q: int| 0 <= q < s.len() ==> #[trigger] isone(g, s[q])
  &&& forall|a: int, b: int| 0 <= a < b < g.len() ==> (#[trigger] g[a])@ < (#[trigger] g[b])@
}
pub open spec fn isone(g: Seq<R>, x: R) -> bool { exists|a: int| 0 <= a < g.len() && (#[trigger] g[a])@ == x@ }
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
pub proof fn lemma_bez_window(cp: Seq<OPoint>, s: Seq<R>, p: int, b: Seq<OPoint>, t: Seq<R>, g: Seq<R>, i: int, cl: Seq<OPoint>, sl: Seq<R>)
  requires wfk(s, cp.len() - 1, p), clampedk(s, cp.len() - 1, p), distinct_gap(s), distinctk(g, s), g.len() >= 2, t == ex(g, g.len() as int, p + 1), clstate(cp, s, b, t, p, s[p]@, s[cp.len() as int]@),
    0 <= i < g.len() - 1, sl == t.subrange(i * (p + 1), i * (p + 1) + 2 * (p + 1)), cl == b.subrange(i * (p + 1), i * (p + 1) + (p + 1)), i * (p + 1) + 2 * (p + 1) <= t.len(), i * (p + 1) >= 0
  ensures bezseg(cp, s, p, cl, sl), sl[0]@ == g[i]@, sl[p + 1]@ == g[i + 1]@
{
  hide(sorted); hide(traces);
  let m = p + 1; let d = i * m; let gl = g.len() as int;
  lemma_clget(cp, s, b, t, p, s[p]@, s[cp.len() as int]@);
  assert((i + 1) * m == d + m) by (nonlinear_arith) requires d == i * m;
  assert forall|q: int| 0 <= q <= p implies (#[trigger] sl[q])@ == g[i]@ by { lemma_ex_at(g, gl, m, i, q); assert(sl[q] == t[d + q]); }
  assert forall|q: int| p + 1 <= q < 2 * p + 2 implies (#[trigger] sl[q])@ == g[i + 1]@ by { lemma_ex_at(g, gl, m, i + 1, q - m); assert(sl[q] == t[d + q]); }
  assert(sl[0]@ == g[i]@ && sl[p + 1]@ == g[i + 1]@ && sl[p]@ == g[i]@);
  assert(has(s, g[i]@) && has(s, g[i + 1]@));
  lemma_has_sepd(s, g[i]@, g[i + 1]@);
  let n1 = cp.len() as int; let i0 = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == g[i]@; let i1 = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == g[i + 1]@;
  lemma_le(s, 0, i0); lemma_le(s, i1, s.len() - 1);
  lemma_window_traces(cp, s, b, t, cl, sl, d, p, s[p]@, s[n1]@);
  axiom_eps();
  assert(wfk(sl, p, p));
  assert forall|q: int| 0 <= q < s.len() implies (#[trigger] s[q])@ <= sl[0]@ || s[q]@ >= sl[p + 1]@ by {
    assert(isone(g, s[q])); let a = choose|a: int| 0 <= a < g.len() && (#[trigger] g[a])@ == s[q]@;
    if a < i { assert(g[a]@ < g[i]@); } else if a > i + 1 { assert(g[i + 1]@ < g[a]@); }
  }
  assert forall|u: real, c: int| sl[0]@ <= u < sl[p + 1]@ || (u == sl[p + 1]@ && u == s[cp.len() as int]@) implies #[trigger] hval(cl, sl, p, u, c) == hval(cp, s, p, u, c) by { lemma_traces_val(cp, s, cl, sl, p, u, c); }
}
// the groups of equal knots
pub open spec fn gof(m: Seq<KnotMultiplicity>) -> Seq<R> { Seq::new(m.len(), |i: int| m[i].knot) }
pub proof fn lemma_group_of(m: Seq<KnotMultiplicity>, k: int, q: int) -> (a: int)
  requires 0 <= k <= m.len(), 0 <= q < msum(m, k) ensures 0 <= a < k, msum(m, a) <= q < msum(m, a) + m[a].multiplicity decreases k
{ if k <= 0 { 0 } else if q < msum(m, k - 1) { lemma_group_of(m, k - 1, q) } else { k - 1 } }
pub proof fn lemma_groups(m: Seq<KnotMultiplicity>, s: Seq<R>)
  requires mult_of(m, s), sorted(s) ensures distinctk(gof(m), s), gof(m).len() == m.len(), m[0].knot@ == s[0]@, m[m.len() - 1].knot@ == s[s.len() - 1]@
{
  let g = gof(m); let l = m.len() as int;
  assert forall|a: int| 0 <= a < g.len() implies has(s, (#[trigger] g[a])@) by { lemma_msum_mono(m, 0, a); lemma_msum_mono(m, a + 1, l); assert(msum(m, a + 1) == msum(m, a) + m[a].multiplicity); assert(s[msum(m, a)]@ == m[a].knot@); }
  assert forall|q: int| 0 <= q < s.len() implies #[trigger] isone(g, s[q]) by { let a = lemma_group_of(m, l, q); assert(s[q]@ == m[a].knot@); assert(g[a]@ == s[q]@); }
  assert forall|a: int, b: int| 0 <= a < b < g.len() implies (#[trigger] g[a])@ < (#[trigger] g[b])@ by { assert(m[a].knot@ < m[b].knot@); }
  lemma_msum_mono(m, 0, l - 1); lemma_msum_mono(m, 1, l);
  assert(msum(m, 1) == msum(m, 0) + m[0].multiplicity); assert(msum(m, l) == msum(m, l - 1) + m[l - 1].multiplicity);
  assert(s[0]@ == m[0].knot@); assert(s[s.len() - 1]@ == m[l - 1].knot@);
}
pub proof fn lemma_msum_ge(m: Seq<KnotMultiplicity>, k: int)
  requires 0 <= k <= m.len(), forall|j: int| 0 <= j < m.len() ==> (#[trigger] m[j]).multiplicity > 0 ensures msum(m, k) >= k decreases k
{ if k > 0 { lemma_msum_ge(m, k - 1); } }
// no knot more often than the order
pub open spec fn atmost(s: Seq<R>, m: int) -> bool { forall|i: int| 0 <= i < s.len() - m ==> (#[trigger] s[i])@ < s[i + m]@ }
// the first and the last group have exactly p + 1 knots
pub proof fn lemma_group_ends(m: Seq<KnotMultiplicity>, s: Seq<R>, n: int, p: int)
  requires mult_of(m, s), wfk(s, n, p), clampedk(s, n, p)
  ensures m.len() >= 2, m[0].multiplicity == p + 1, m[m.len() - 1].multiplicity == p + 1, m[1].knot@ == s[p + 1]@
{
  hide(sorted);
  let l = m.len() as int; let sl = s.len() as int;
  lemma_msum_mono(m, 1, l); lemma_msum_mono(m, 0, l - 1);
  assert(msum(m, 1) == msum(m, 0) + m[0].multiplicity); assert(msum(m, l) == msum(m, l - 1) + m[l - 1].multiplicity);
  let m0 = m[0].multiplicity as int; let ml = m[l - 1].multiplicity as int;
  assert(s[0]@ == m[0].knot@ && s[sl - 1]@ == m[l - 1].knot@);
  lemma_le(s, p + 1, sl - 1);
  assert(l >= 2);
  assert(msum(m, 2) == msum(m, 1) + m[1].multiplicity); lemma_msum_mono(m, 2, l);
  assert(s[m0]@ == m[1].knot@);
  assert(m[0].knot@ < m[1].knot@ && m[l - 2].knot@ < m[l - 1].knot@);
  if m0 < p + 1 { lemma_le(s, m0, p); }
  if m0 > p + 1 { assert(s[p + 1]@ == m[0].knot@); }
  assert(msum(m, l - 1) == msum(m, l - 2) + m[l - 2].multiplicity);
  lemma_msum_mono(m, 0, l - 2);
  assert(s[sl - ml - 1]@ == m[l - 2].knot@);
  if ml < p + 1 { lemma_le(s, n + 1, sl - ml - 1); }
  if ml > p + 1 { assert(s[n]@ == m[l - 1].knot@); }
}
// where group k lies
pub proof fn lemma_group_at(m: Seq<KnotMultiplicity>, s: Seq<R>, n: int, p: int, k: int)
  requires mult_of(m, s), wfk(s, n, p), clampedk(s, n, p), atmost(s, p + 1), 0 <= k < m.len()
  ensures ({ let e = msum(m, k); let q = m[k].multiplicity as int; 1 <= q <= p + 1 && k <= e && 0 <= e && e + q <= s.len() && msum(m, k + 1) == e + q && (forall|i: int| e <= i < e + q ==> (#[trigger] s[i])@ == m[k].knot@)
    && (q < p + 1 ==> 1 <= k && p + 1 <= e && e + q <= s.len() - (p + 1) && (k == 1 ==> e == p + 1) && (k >= 2 ==> m[1].knot@ == s[p + 1]@)) }), m.len() >= 2
{
  hide(sorted);
  let l = m.len() as int; let e = msum(m, k); let q = m[k].multiplicity as int; let sl = s.len() as int;
  lemma_msum_mono(m, 0, k); lemma_msum_mono(m, k + 1, l); lemma_msum_ge(m, k); lemma_msum_mono(m, 1, l); lemma_msum_mono(m, 0, l - 1);
  assert(msum(m, k + 1) == e + q); assert(msum(m, 1) == msum(m, 0) + m[0].multiplicity); assert(msum(m, l) == msum(m, l - 1) + m[l - 1].multiplicity);
  assert(s[e]@ == m[k].knot@ && s[e + q - 1]@ == m[k].knot@);
  assert(q <= p + 1) by { if q > p + 1 { assert(s[e]@ < s[e + (p + 1)]@); assert(s[e + p + 1]@ == m[k].knot@); } }
  lemma_group_ends(m, s, n, p);
  if q < p + 1 { assert(k != 0 && k != l - 1); lemma_msum_mono(m, 1, k); lemma_msum_mono(m, k + 1, l - 1); }
}
pub proof fn lemma_bez_first(s: Seq<R>, g: Seq<R>, m: Seq<KnotMultiplicity>, n: int, p: int)
  requires mult_of(m, s), wfk(s, n, p), clampedk(s, n, p), g == gof(m) ensures g[0]@ == s[p]@, g[g.len() - 1]@ == s[n + 1]@
{ lemma_groups(m, s); }
