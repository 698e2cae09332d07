// needs: srfcut
// entries of the multiplicity list count the knots
pub open spec fn cm(m: Seq<KnotMultiplicity>, u: real, j: int) -> int decreases j { if j <= 0 { 0 } else { cm(m, u, j - 1) + (if m[j - 1].knot@ == u { m[j - 1].multiplicity as int } else { 0 }) } }
pub proof fn lemma_cnt_block(s: Seq<R>, u: real, x: real, a: int, b: int)
  requires 0 <= a <= b <= s.len(), forall|q: int| a <= q < b ==> (#[trigger] s[q])@ == x
  ensures cnt(s, u, b) == cnt(s, u, a) + (if x == u { b - a } else { 0 })
  decreases b - a
{ if a < b { lemma_cnt_block(s, u, x, a, b - 1); assert(s[b - 1]@ == x); } }
pub proof fn lemma_cm(m: Seq<KnotMultiplicity>, s: Seq<R>, u: real, j: int)
  requires mult_of(m, s), 0 <= j <= m.len()
  ensures cnt(s, u, msum(m, j)) == cm(m, u, j), 0 <= msum(m, j) <= s.len()
  decreases j
{
  lemma_msum_mono(m, j, m.len() as int); lemma_msum_mono(m, 0, j);
  if j > 0 { lemma_cm(m, s, u, j - 1); lemma_cnt_block(s, u, m[j - 1].knot@, msum(m, j - 1), msum(m, j)); }
}
pub proof fn lemma_cm_at(m: Seq<KnotMultiplicity>, u: real, i: int, j: int)
  requires 0 <= j <= m.len(), forall|a: int, b: int| 0 <= a < b < m.len() ==> (#[trigger] m[a]).knot@ < (#[trigger] m[b]).knot@, i < m.len(), i < 0 || m[i].knot@ == u, i < 0 ==> forall|a: int| 0 <= a < m.len() ==> (#[trigger] m[a]).knot@ != u
  ensures cm(m, u, j) == (if 0 <= i < j { m[i].multiplicity as int } else { 0 })
  decreases j
{ if j > 0 { lemma_cm_at(m, u, i, j - 1); if i >= 0 && j - 1 != i { if j - 1 < i { assert(m[j - 1].knot@ < m[i].knot@); } else { assert(m[i].knot@ < m[j - 1].knot@); } } } }
// the multiplicity of u: entry i, or none
pub proof fn lemma_mult_cnt(m: Seq<KnotMultiplicity>, s: Seq<R>, u: real, i: int)
  requires mult_of(m, s), i < m.len(), i < 0 || m[i].knot@ == u, i < 0 ==> forall|a: int| 0 <= a < m.len() ==> (#[trigger] m[a]).knot@ != u
  ensures cnt(s, u, s.len() as int) == (if i >= 0 { m[i].multiplicity as int } else { 0 })
{ lemma_cm(m, s, u, m.len() as int); lemma_cm_at(m, u, i, m.len() as int); }
// every entry is one of the knots
pub proof fn lemma_mult_knot(m: Seq<KnotMultiplicity>, s: Seq<R>, i: int)
  requires mult_of(m, s), 0 <= i < m.len()
  ensures 0 <= msum(m, i) < s.len(), s[msum(m, i)]@ == m[i].knot@
{ lemma_cm(m, s, 0real, i); lemma_cm(m, s, 0real, i + 1); assert(m[i].multiplicity > 0); }
// values at clamped ends
pub proof fn lemma_csum_unit(cp: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, i: int, m: int)
  requires 0 <= m <= p + 1, k - p <= i <= k, forall|j: int| k - p <= j <= k ==> #[trigger] bas(s, k, j, p, u) == (if j == i { 1real } else { 0real })
  ensures csum(cp, s, k, p, u, c, m) == (if k - p + m > i { cp[i].coords.c(c) } else { 0real })
  decreases m
{ if m > 0 { lemma_csum_unit(cp, s, k, p, u, c, i, m - 1); let j = k - p + m - 1; assert(bas(s, k, j, p, u) == (if j == i { 1real } else { 0real })); lemma_zero_mul(cp[j].coords.c(c), 0real); } }
pub proof fn lemma_clamped_end(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int)
  requires wfk(s, cp.len() - 1, p), u == s[cp.len() as int]@, u == s[s.len() - 1]@
  ensures hval(cp, s, p, u, c) == cp[cp.len() - 1].coords.c(c)
{
  let n = cp.len() - 1; axiom_eps();
  assert(in_span(s, n, p, u, n)); lemma_kspan(s, n, p, u, n);
  assert(runof(s, n + p + 1, p + 1, u)) by { assert forall|q: int| n < q <= n + p + 1 implies (#[trigger] s[q])@ == u by { lemma_le(s, n + 1, q); lemma_le(s, q, n + p + 1); } }
  assert forall|j: int| n - p <= j <= n implies #[trigger] bas(s, n, j, p, u) == (if j == n { 1real } else { 0real }) by { lemma_join_left(s, n + p + 1, p + 1, j, p, u); }
  lemma_csum_unit(cp, s, n, p, u, c, n, p + 1);
}
pub proof fn lemma_clamped_start(cp: Seq<OPoint>, s: Seq<R>, p: int, u: real, c: int)
  requires wfk(s, cp.len() - 1, p), u == s[p]@, u == s[0]@
  ensures hval(cp, s, p, u, c) == cp[0].coords.c(c)
{
  let n = cp.len() - 1; axiom_eps();
  assert(in_span(s, n, p, u, p)) by { lemma_le(s, p + 1, n + 1); }
  lemma_kspan(s, n, p, u, p);
  assert(runof(s, p, p + 1, u)) by { assert forall|q: int| -1 < q <= p implies (#[trigger] s[q])@ == u by { lemma_le(s, 0, q); lemma_le(s, q, p); } }
  assert forall|j: int| 0 <= j <= p implies #[trigger] bas(s, p, j, p, u) == (if j == 0 { 1real } else { 0real }) by { lemma_join_right(s, p, p + 1, j, p, u); }
  lemma_csum_unit(cp, s, p, p, u, c, 0, p + 1);
}
// inside the domain: the last control point before the p + 1 copies of t
pub proof fn lemma_iso_line(cp: Seq<OPoint>, s: Seq<R>, p: int, t: R, mu: int, b: Seq<OPoint>, tt: Seq<R>, xs: Seq<R>, span: int, c: int)
  requires wfk(s, cp.len() - 1, p), s[p]@ < t@ < s[cp.len() as int]@, sepq(s, t@), mu == cnt(s, t@, s.len() as int), mu <= p, xs == rep(t, p + 1 - mu), tt.to_multiset() =~= s.to_multiset().add(xs.to_multiset()),
    clstate(cp, s, b, tt, p, s[p]@, s[cp.len() as int]@), 0 <= span < s.len() - 1, s[span]@ < t@ <= s[span + 1]@, b.len() == cp.len() + p + 1 - mu
  ensures span < b.len(), b[span].coords.c(c) == hval(cp, s, p, t@, c)
{
  let n1 = cp.len() as int; let k = kspan(s, n1 - 1, p, t@); axiom_eps();
  lemma_span_exists(s, n1 - 1, p, t@); lemma_span_contains(s, n1 - 1, p, t@, k);
  lemma_cnt_nonneg(s, t@, s.len() as int);
  lemma_clget(cp, s, b, tt, p, s[p]@, s[n1]@);
  lemma_windows(s, p, n1, t, k, mu, xs, tt);
  let m = k - mu;
  assert(s[k + 1]@ > t@);
  assert forall|q: int| k < q < s.len() implies (#[trigger] s[q])@ > t@ by { lemma_le(s, k + 1, q); }
  lemma_cnt_run(s, t@, k, k + 1); lemma_cnt_run(s, t@, k, s.len() as int);
  assert(s[m]@ < t@ && s[m + 1]@ >= t@);
  assert(span == m) by { if span < m { lemma_le(s, span + 1, m); } else if span > m { lemma_le(s, m + 1, span); } }
  let cl = b.subrange(0, m + 1); let sl = tt.subrange(0, m + p + 2);
  assert(sorted(sl)) by { assert forall|x: int, y: int| 0 <= x <= y < sl.len() implies (#[trigger] sl[x])@ <= (#[trigger] sl[y])@ by { lemma_le(tt, x, y); } }
  lemma_is_left(cp, s, p, t, b, tt, 0, cl, sl, m);
  assert(sl[sl.len() - 1] == t);
  lemma_clamped_end(cl, sl, p, t@, c);
}
// the curve of the lines' values across is the isocurve
pub open spec fn isopts(a: NurbsSurface, au: bool, t: real, q: Seq<OPoint>) -> bool { q.len() == nlines(a, au) && forall|j: int, c: int| 0 <= j < q.len() ==> (#[trigger] q[j].coords.c(c)) == lineval(a, au, j, t, c) }
pub proof fn lemma_iso_u(net: Seq<Vec<OPoint>>, iu: int, bu: Seq<real>, q: Seq<OPoint>, so: Seq<R>, ko: int, po: int, y: real, c: int, t: int)
  requires 0 <= t <= po + 1, forall|j: int| ko - po <= j <= ko ==> (#[trigger] q[j]).coords.c(c) == usum(net, iu, j, c, bu, bu.len() as int)
  ensures ssum(net, iu, ko - po, c, bu, pseq(so, ko, po, y, 0), t) == csum(q, so, ko, po, y, c, t)
  decreases t
{ if t > 0 { lemma_iso_u(net, iu, bu, q, so, ko, po, y, c, t - 1); let j = ko - po + t - 1; assert(q[j].coords.c(c) == usum(net, iu, j, c, bu, bu.len() as int)); assert(pseq(so, ko, po, y, 0)[t - 1] == bas(so, ko, ko - po + (t - 1), po, y)); } }
pub proof fn lemma_iso_v(net: Seq<Vec<OPoint>>, iv: int, bv: Seq<real>, q: Seq<OPoint>, so: Seq<R>, ko: int, po: int, y: real, c: int, t: int)
  requires 0 <= t <= po + 1, forall|j: int| ko - po <= j <= ko ==> (#[trigger] q[j]).coords.c(c) == lsum(net[j]@, iv, c, bv, bv.len() as int)
  ensures rsum(net, ko - po, iv, c, pseq(so, ko, po, y, 0), bv, bv.len() as int, t) == csum(q, so, ko, po, y, c, t)
  decreases t
{ if t > 0 { lemma_iso_v(net, iv, bv, q, so, ko, po, y, c, t - 1); let j = ko - po + t - 1; assert(q[j].coords.c(c) == lsum(net[j]@, iv, c, bv, bv.len() as int)); assert(pseq(so, ko, po, y, 0)[t - 1] == bas(so, ko, ko - po + (t - 1), po, y)); } }
pub proof fn lemma_iso(a: NurbsSurface, au: bool, t: real, q: Seq<OPoint>, y: real, c: int)
  requires wfs(a), isopts(a, au, t, q)
  ensures hval(q, dknots(a, !au), ddeg(a, !au), y, c) == srfat(a, au, t, y, c)
{
  let s = dknots(a, au); let p = ddeg(a, au); let n = llen(a, au) - 1; let so = dknots(a, !au); let po = ddeg(a, !au); let no = nlines(a, au) - 1;
  lemma_span_exists(s, n, p, t); lemma_span_exists(so, no, po, y);
  let k = kspan(s, n, p, t); let ko = kspan(so, no, po, y); let w = pseq(s, k, p, t, 0);
  let net = a.control_points@;
  if au {
    assert forall|j: int| ko - po <= j <= ko implies (#[trigger] q[j]).coords.c(c) == usum(net, k - p, j, c, w, w.len() as int) by { lemma_usum_csum(net, s, k, p, t, j, c, p + 1); assert(q[j].coords.c(c) == lineval(a, au, j, t, c)); }
    lemma_iso_u(net, k - p, w, q, so, ko, po, y, c, po + 1);
  } else {
    assert forall|j: int| ko - po <= j <= ko implies (#[trigger] q[j]).coords.c(c) == lsum(net[j]@, k - p, c, w, w.len() as int) by { lemma_lsum_csum(net[j]@, s, k, p, t, c, p + 1); assert(q[j].coords.c(c) == lineval(a, au, j, t, c)); }
    lemma_iso_v(net, k - p, w, q, so, ko, po, y, c, po + 1);
    lemma_ssum_rows(net, ko - po, k - p, c, pseq(so, ko, po, y, 0), w, p + 1);
  }
}
// a parameter the isocurve can be taken at: told apart from the knots, no jump there, ends clamped
pub open spec fn isoready(a: NurbsSurface, au: bool, t: R) -> bool {
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au);
  &&& eps() > 0real && distinct_gap(s) && sepq(s, t@) && s[p]@ <= t@ <= s[n1]@ && p < 0x100_0000
  &&& (s[p]@ < t@ || s[0]@ == t@) && (t@ < s[n1]@ || s[s.len() - 1]@ == t@) && (s[p]@ < t@ < s[n1]@ ==> cnt(s, t@, s.len() as int) <= p)
}
pub open spec fn isocurve(a: NurbsSurface, au: bool, t: real, r: NurbsCurve) -> bool {
  &&& r.degree == ddeg(a, !au) && r.knots.0@ == dknots(a, !au) && r.control_points.len() == nlines(a, au)
  &&& forall|y: real, c: int| #[trigger] crv(r, y, c) == srfat(a, au, t, y, c)
}
pub open spec fn isoref(a: NurbsSurface, b: NurbsSurface, au: bool, t: R, mu: int) -> bool {
  if mu <= ddeg(a, au) { srefined(a, b, au, rep(t, ddeg(a, au) + 1 - mu)) } else { a == b }
}
pub open spec fn isospan(s: Seq<R>, t: R, span: int, nb: int) -> bool {
  if t@ == s[0]@ { span == 0 } else if t@ == s[s.len() - 1]@ { span == nb - 1 } else { 0 <= span < s.len() - 1 && s[span]@ < t@ <= s[span + 1]@ }
}
// the multiplicity of a clamped end
pub proof fn lemma_iso_mu(a: NurbsSurface, au: bool, t: R)
  requires wfs(a), isoready(a, au, t)
  ensures 0 <= cnt(dknots(a, au), t@, dknots(a, au).len() as int) <= ddeg(a, au) + 1,
    t@ == dknots(a, au)[ddeg(a, au)]@ || t@ == dknots(a, au)[llen(a, au)]@ ==> cnt(dknots(a, au), t@, dknots(a, au).len() as int) == ddeg(a, au) + 1
{
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au); let l = s.len() as int;
  lemma_cnt_nonneg(s, t@, l);
  lemma_le(s, p + 1, n1);
  if t@ == s[p]@ {
    assert forall|q: int| 0 <= q < p + 1 implies (#[trigger] s[q])@ == t@ by { lemma_le(s, 0, q); lemma_le(s, q, p); }
    lemma_cnt_block(s, t@, t@, 0, p + 1);
    lemma_cnt_none(s, t@, p + 1, l);
  } else if t@ == s[n1]@ {
    assert forall|q: int| n1 <= q < l implies (#[trigger] s[q])@ == t@ by { lemma_le(s, n1, q); lemma_le(s, q, l - 1); }
    lemma_cnt_block(s, t@, t@, n1, l);
    lemma_cnt_none_below(s, t@, n1);
  }
}
pub proof fn lemma_cnt_none(s: Seq<R>, u: real, a: int, b: int)
  requires sorted(s), 0 <= a <= b <= s.len(), a < s.len() ==> s[a]@ > u
  ensures cnt(s, u, b) == cnt(s, u, a)
  decreases b - a
{ if a < b { lemma_cnt_none(s, u, a, b - 1); lemma_le(s, a, b - 1); } }
pub proof fn lemma_cnt_none_below(s: Seq<R>, u: real, b: int)
  requires sorted(s), 0 <= b <= s.len(), b > 0 ==> s[b - 1]@ < u
  ensures cnt(s, u, b) == 0
  decreases b
{ if b > 0 { if b > 1 { lemma_le(s, b - 2, b - 1); } lemma_cnt_none_below(s, u, b - 1); } }
pub proof fn lemma_iso_pick(a: NurbsSurface, b: NurbsSurface, au: bool, t: R, mu: int, span: int)
  requires wfs(a), isoready(a, au, t), mu == cnt(dknots(a, au), t@, dknots(a, au).len() as int), isoref(a, b, au, t, mu), isospan(dknots(a, au), t, span, llen(b, au))
  ensures 0 <= span < llen(b, au), netrect(b), across(a, b, au), forall|j: int, c: int| 0 <= j < nlines(a, au) ==> (#[trigger] sline(b, au, j)[span].coords.c(c)) == lineval(a, au, j, t@, c)
{
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au);
  lemma_iso_mu(a, au, t);
  lemma_le(s, 0, p); lemma_le(s, p, p + 1); lemma_le(s, p + 1, n1); lemma_le(s, n1, s.len() - 1);
  if s[p]@ < t@ < s[n1]@ {
    assert(lineref(a, b, au, 0));
    assert forall|j: int, c: int| 0 <= j < nlines(a, au) implies span < llen(b, au) && (#[trigger] sline(b, au, j)[span].coords.c(c)) == lineval(a, au, j, t@, c) by {
      assert(lineref(a, b, au, j));
      assert(sline(a, au, j).len() == n1); assert(sline(b, au, j).len() == llen(b, au));
      lemma_iso_line(sline(a, au, j), s, p, t, mu, sline(b, au, j), dknots(b, au), rep(t, p + 1 - mu), span, c);
    }
    assert(sline(b, au, 0)[span].coords.c(0) == lineval(a, au, 0, t@, 0));
  } else {
    assert(a == b);
    assert forall|j: int, c: int| 0 <= j < nlines(a, au) implies (#[trigger] sline(b, au, j)[span].coords.c(c)) == lineval(a, au, j, t@, c) by {
      assert(sline(a, au, j).len() == n1);
      if t@ == s[p]@ { lemma_clamped_start(sline(a, au, j), s, p, t@, c); } else { lemma_clamped_end(sline(a, au, j), s, p, t@, c); }
    }
  }
}
pub proof fn lemma_iso_facts(a: NurbsSurface, au: bool, t: R)
  requires wfs(a), isoready(a, au, t)
  ensures wfk(dknots(a, au), llen(a, au) - 1, ddeg(a, au)), sorted(dknots(a, au)), distinct_gap(dknots(a, au)), sepq(dknots(a, au), t@), eps() > 0real, dknots(a, au).len() == llen(a, au) + ddeg(a, au) + 1, ddeg(a, au) < 0x100_0000, netrect(a), llen(a, au) > ddeg(a, au), nlines(a, au) >= 1, dknots(a, au)[0]@ <= t@ <= dknots(a, au)[dknots(a, au).len() - 1]@,
    dknots(a, au)[0]@ < dknots(a, au)[dknots(a, au).len() - 1]@
{ let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au); lemma_le(s, 0, p); lemma_le(s, p, p + 1); lemma_le(s, p + 1, n1); lemma_le(s, n1, s.len() - 1); }
pub proof fn lemma_iso_insertable(a: NurbsSurface, au: bool, t: R, mu: int)
  requires wfs(a), isoready(a, au, t), mu == cnt(dknots(a, au), t@, dknots(a, au).len() as int)
  ensures 0 <= mu <= ddeg(a, au) + 1, mu <= ddeg(a, au) ==> insertable(rep(t, ddeg(a, au) + 1 - mu), dknots(a, au), ddeg(a, au), llen(a, au))
{ lemma_iso_mu(a, au, t); if mu <= ddeg(a, au) { lemma_cut_insertable(dknots(a, au), ddeg(a, au), llen(a, au), t, ddeg(a, au) + 1 - mu, rep(t, ddeg(a, au) + 1 - mu)); } }
pub proof fn lemma_iso_len(a: NurbsSurface, b: NurbsSurface, au: bool, t: R, mu: int)
  requires wfs(a), isoready(a, au, t), 0 <= mu <= ddeg(a, au) + 1, isoref(a, b, au, t, mu)
  ensures netrect(b), across(a, b, au), b.control_points.len() >= 1, net_nv(b) >= 1, nlines(b, au) <= 0x1000_0000, ddeg(b, !au) < nlines(b, au), dknots(b, !au).len() == nlines(b, au) + ddeg(b, !au) + 1, ddeg(b, !au) < 0x1000_0000
{ }
pub proof fn lemma_iso_end(a: NurbsSurface, b: NurbsSurface, au: bool, t: R, mu: int, span: int, r: NurbsCurve)
  requires wfs(a), isoready(a, au, t), mu == cnt(dknots(a, au), t@, dknots(a, au).len() as int), isoref(a, b, au, t, mu), isospan(dknots(a, au), t, span, llen(b, au)),
    r.degree == ddeg(b, !au), sorted(r.knots.0@), r.knots.0@.to_multiset() =~= dknots(b, !au).to_multiset(), r.control_points.len() == nlines(b, au), forall|j: int| 0 <= j < nlines(b, au) ==> #[trigger] r.control_points@[j] == sline(b, au, j)[span]
  ensures isocurve(a, au, t@, r)
{
  lemma_iso_mu(a, au, t);
  lemma_iso_pick(a, b, au, t, mu, span);
  lemma_iso_len(a, b, au, t, mu);
  lemma_sorted_same(r.knots.0@, dknots(a, !au));
  assert(isopts(a, au, t@, r.control_points@)) by { assert forall|j: int, c: int| 0 <= j < r.control_points.len() implies (#[trigger] r.control_points@[j].coords.c(c)) == lineval(a, au, j, t@, c) by { assert(r.control_points@[j] == sline(b, au, j)[span]); } }
  assert forall|y: real, c: int| #[trigger] crv(r, y, c) == srfat(a, au, t@, y, c) by { lemma_iso(a, au, t@, r.control_points@, y, c); }
}
