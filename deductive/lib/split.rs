// needs: refine
pub proof fn lemma_bas_window(s: Seq<R>, t: Seq<R>, d: int, k: int, i: int, p: int, u: real)
  requires forall|q: int| i <= q <= i + p + 1 ==> (#[trigger] s[q])@ == t[q - d]@, p >= 0
  ensures bas(s, k, i, p, u) == bas(t, k - d, i - d, p, u)
  decreases p
{
  if p > 0 {
    lemma_bas_window(s, t, d, k, i, p - 1, u); lemma_bas_window(s, t, d, k, i + 1, p - 1, u);
    assert(s[i]@ == t[i - d]@ && s[i + p]@ == t[i + p - d]@ && s[i + 1]@ == t[i + 1 - d]@ && s[i + p + 1]@ == t[i + p + 1 - d]@);
  }
}
pub proof fn lemma_csum_window(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, t: Seq<R>, d: int, k: int, p: int, u: real, c: int, m: int)
  requires forall|q: int| k - p <= q <= k + p + 1 ==> (#[trigger] s[q])@ == t[q - d]@, forall|j: int| k - p <= j <= k ==> (#[trigger] cp[j]) == cp2[j - d], 0 <= m <= p + 1, p >= 0
  ensures csum(cp, s, k, p, u, c, m) == csum(cp2, t, k - d, p, u, c, m)
  decreases m
{
  if m > 0 {
    lemma_csum_window(cp, s, cp2, t, d, k, p, u, c, m - 1);
    let i = k - p + m - 1;
    lemma_bas_window(s, t, d, k, i, p, u);
    assert(cp[i] == cp2[i - d]);
  }
}
// every piece of the second curve is (part of) a piece of the first
pub open spec fn traces(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, p: int) -> bool {
  forall|k2: int| p <= k2 < cp2.len() && s2[k2]@ < #[trigger] s2[k2 + 1]@ ==> exists|k: int| p <= k < cp.len() && #[trigger] samepiece(cp, s, k, cp2, s2, k2, p)
}
pub proof fn lemma_traces_trans(a: Seq<OPoint>, s: Seq<R>, b: Seq<OPoint>, t: Seq<R>, c: Seq<OPoint>, v: Seq<R>, p: int)
  requires traces(a, s, b, t, p), traces(b, t, c, v, p)
  ensures traces(a, s, c, v, p)
{
  assert forall|k2: int| p <= k2 < c.len() && v[k2]@ < #[trigger] v[k2 + 1]@ implies exists|k: int| p <= k < a.len() && #[trigger] samepiece(a, s, k, c, v, k2, p) by {
    let j = choose|j: int| p <= j < b.len() && #[trigger] samepiece(b, t, j, c, v, k2, p);
    let k = choose|k: int| p <= k < a.len() && #[trigger] samepiece(a, s, k, b, t, j, p);
    assert forall|u: real, e: int| #[trigger] csum(c, v, k2, p, u, e, p + 1) == csum(a, s, k, p, u, e, p + 1) by { assert(csum(c, v, k2, p, u, e, p + 1) == csum(b, t, j, p, u, e, p + 1)); }
    assert(samepiece(a, s, k, c, v, k2, p));
  }
}
// a run of control points and their knots, taken out of a curve
pub proof fn lemma_window_traces(cp: Seq<OPoint>, s: Seq<R>, b: Seq<OPoint>, t: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, d: int, p: int, lo: real, hi: real)
  requires retrace(cp, s, b, t, p, lo, hi), sorted(t), 0 <= p < cp2.len(), 0 <= d, d + cp2.len() <= b.len(), t.len() == b.len() + p + 1, s2.len() == cp2.len() + p + 1,
    forall|q: int| 0 <= q < s2.len() ==> (#[trigger] s2[q])@ == t[q + d]@, forall|j: int| 0 <= j < cp2.len() ==> (#[trigger] cp2[j]) == b[j + d],
    lo <= s2[p]@, s2[cp2.len() as int]@ <= hi
  ensures traces(cp, s, cp2, s2, p), sorted(s2)
{
  assert(sorted(s2)) by { assert forall|i: int, j: int| 0 <= i <= j < s2.len() implies (#[trigger] s2[i])@ <= (#[trigger] s2[j])@ by { lemma_le(t, i + d, j + d); } }
  assert forall|k2: int| p <= k2 < cp2.len() && s2[k2]@ < #[trigger] s2[k2 + 1]@ implies exists|k: int| p <= k < cp.len() && #[trigger] samepiece(cp, s, k, cp2, s2, k2, p) by {
    let k3 = k2 + d;
    lemma_le(s2, p, k2); lemma_le(s2, k2 + 1, cp2.len() as int);
    assert(s2[k2]@ == t[k3]@ && s2[k2 + 1]@ == t[k3 + 1]@);
    let k = choose|k: int| p <= k < cp.len() && lo <= s[k]@ && s[k + 1]@ <= hi && #[trigger] samepiece(cp, s, k, b, t, k3, p);
    assert forall|u: real, e: int| #[trigger] csum(cp2, s2, k2, p, u, e, p + 1) == csum(cp, s, k, p, u, e, p + 1) by {
      lemma_csum_window(cp2, s2, b, t, 0 - d, k2, p, u, e, p + 1);
      assert(k2 - (0 - d) == k3);
      assert(csum(b, t, k3, p, u, e, p + 1) == csum(cp, s, k, p, u, e, p + 1));
    }
    assert(samepiece(cp, s, k, cp2, s2, k2, p));
  }
}
// the second curve has the values of the first, away from the end of its domain
pub proof fn lemma_traces_val(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, p: int, u: real, c: int)
  requires traces(cp, s, cp2, s2, p), wfk(s, cp.len() - 1, p), wfk(s2, cp2.len() - 1, p), s2[p]@ <= u < s2[cp2.len() as int]@ || (u == s2[cp2.len() as int]@ && u == s[cp.len() as int]@)
  ensures hval(cp2, s2, p, u, c) == hval(cp, s, p, u, c)
{
  let n = cp.len() - 1; let n2 = cp2.len() - 1;
  axiom_eps();
  lemma_span_exists(s2, n2, p, u);
  let k2 = kspan(s2, n2, p, u);
  lemma_span_contains(s2, n2, p, u, k2);
  let k = choose|k: int| p <= k < cp.len() && #[trigger] samepiece(cp, s, k, cp2, s2, k2, p);
  assert(samepiece(cp, s, k, cp2, s2, k2, p));
  assert(in_span(s, n, p, u, k)) by {
    if u < s2[n2 + 1]@ { assert(u < s2[k2 + 1]@) by { if k2 < n2 { lemma_le(s2, k2 + 1, n2); } } }
    else { assert(k2 == n2) by { if k2 < n2 { lemma_le(s2, k2 + 1, n2); } } assert(k == n) by { if k < n { lemma_le(s, k + 1, n); } } }
  }
  lemma_kspan(s, n, p, u, k);
  assert(csum(cp2, s2, k2, p, u, c, p + 1) == csum(cp, s, k, p, u, c, p + 1));
}
// copies of u among the first m knots
pub open spec fn cnt(s: Seq<R>, u: real, m: int) -> int decreases m { if m <= 0 { 0 } else { cnt(s, u, m - 1) + (if s[m - 1]@ == u { 1int } else { 0int }) } }
pub proof fn lemma_cnt_run(s: Seq<R>, u: real, k: int, m: int)
  requires sorted(s), 0 <= k < s.len(), s[k]@ <= u, forall|q: int| k < q < s.len() ==> (#[trigger] s[q])@ > u, 0 <= m <= s.len()
  ensures 0 <= cnt(s, u, m) <= m,
    m <= k + 1 ==> (forall|q: int| m - cnt(s, u, m) <= q < m ==> (#[trigger] s[q])@ == u) && (forall|q: int| 0 <= q < m - cnt(s, u, m) ==> (#[trigger] s[q])@ < u),
    m >= k + 1 ==> cnt(s, u, m) == cnt(s, u, k + 1)
  decreases m
{
  if m > 0 {
    lemma_cnt_run(s, u, k, m - 1);
    if m <= k + 1 {
      lemma_le(s, m - 1, k);
      if s[m - 1]@ < u { assert(cnt(s, u, m - 1) == 0) by { if cnt(s, u, m - 1) > 0 { assert(s[m - 2]@ == u); lemma_le(s, m - 2, m - 1); } } }
    }
  }
}
pub open spec fn rep(u: R, n: int) -> Seq<R> { Seq::new(n as nat, |i: int| u) }
// copies of u inserted into s after index m
pub open spec fn spliced(s: Seq<R>, m: int, u: R, c: int) -> Seq<R> { s.subrange(0, m + 1) + rep(u, c) + s.subrange(m + 1, s.len() as int) }
pub proof fn lemma_spliced_le(s: Seq<R>, m: int, u: R, c: int, i: int, j: int)
  requires insat(s, m, u), c >= 0, 0 <= i <= j < s.len() + c
  ensures spliced(s, m, u, c)[i]@ <= spliced(s, m, u, c)[j]@
{
  hide(sorted);
  let e = spliced(s, m, u, c);
      if i <= m { lemma_le(s, i, m); assert(e[i] == s[i]); } else if i < m + 1 + c { assert(e[i] == u); } else { assert(e[i] == s[i - c]); lemma_le(s, m + 1, i - c); }
      if j <= m { assert(e[j] == s[j]); lemma_le(s, i, j); } else if j < m + 1 + c { assert(e[j] == u); } else { assert(e[j] == s[j - c]); lemma_le(s, m + 1, j - c); if i <= m { lemma_le(s, i, j - c); } else if i >= m + 1 + c { lemma_le(s, i - c, j - c); } }
}
pub proof fn lemma_spliced(s: Seq<R>, m: int, u: R, c: int, v: Seq<R>, xs: Seq<R>)
  requires insat(s, m, u), sorted(v), c >= 0, xs =~= rep(u, c), v.to_multiset() =~= s.to_multiset().add(xs.to_multiset())
  ensures v == spliced(s, m, u, c), v.len() == s.len() + c
{
  let a = s.subrange(0, m + 1); let b = s.subrange(m + 1, s.len() as int); let r = rep(u, c); let e = spliced(s, m, u, c);
  assert(e.to_multiset() =~= v.to_multiset()) by {
    vstd::seq_lib::lemma_multiset_commutative(a, r); vstd::seq_lib::lemma_multiset_commutative(a + r, b); vstd::seq_lib::lemma_multiset_commutative(a, b);
    assert(a + b =~= s);
  }
  assert(sorted(e)) by {
    assert forall|i: int, j: int| 0 <= i <= j < e.len() implies (#[trigger] e[i])@ <= (#[trigger] e[j])@ by {
      lemma_spliced_le(s, m, u, c, i, j);
    }
  }
  lemma_sorted_same(e, v);
  e.to_multiset_ensures(); v.to_multiset_ensures();
}
pub proof fn lemma_sorted_same(a: Seq<R>, b: Seq<R>)
  requires sorted(a), sorted(b), a.to_multiset() =~= b.to_multiset()
  ensures a == b
{
  broadcast use axiom_r_ext;
  let leq = |x: R, y: R| x@ <= y@;
  assert(vstd::relations::total_ordering(leq)) by { assert forall|x: R, y: R| #[trigger] leq(x, y) && #[trigger] leq(y, x) implies x == y by { assert(x@ == y@); } }
  assert(vstd::relations::sorted_by(a, leq)); assert(vstd::relations::sorted_by(b, leq));
  vstd::seq_lib::lemma_sorted_unique(a, b, leq);
}
