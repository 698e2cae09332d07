// needs: srfsum join
// A surface along one direction: its control net is a bundle of lines, each the control polygon of a curve over the
// knots of that direction. What holds for the values of all lines holds for the surface.
pub open spec fn sline(s: NurbsSurface, au: bool, j: int) -> Seq<OPoint> { if au { ucol(s.control_points@, j) } else { s.control_points@[j]@ } }
pub open spec fn nlines(s: NurbsSurface, au: bool) -> int { if au { net_nv(s) } else { s.control_points.len() as int } }
pub open spec fn llen(s: NurbsSurface, au: bool) -> int { if au { s.control_points.len() as int } else { net_nv(s) } }
pub open spec fn dknots(s: NurbsSurface, au: bool) -> Seq<R> { if au { s.u_knots.0@ } else { s.v_knots.0@ } }
pub open spec fn ddeg(s: NurbsSurface, au: bool) -> int { if au { s.u_degree as int } else { s.v_degree as int } }
// the surface at x along the direction and y across
pub open spec fn srfat(s: NurbsSurface, au: bool, x: real, y: real, c: int) -> real { if au { srf(s, x, y, c) } else { srf(s, y, x, c) } }
pub open spec fn netrect(s: NurbsSurface) -> bool { s.control_points.len() > 0 && forall|i: int| 0 <= i < s.control_points.len() ==> (#[trigger] s.control_points@[i]).len() == net_nv(s) }
// nothing changed across the direction
pub open spec fn across(a: NurbsSurface, b: NurbsSurface, au: bool) -> bool {
  netrect(b) && nlines(b, au) == nlines(a, au) && ddeg(b, au) == ddeg(a, au) && ddeg(b, !au) == ddeg(a, !au) && dknots(b, !au) == dknots(a, !au)
}
pub open spec fn lineval(s: NurbsSurface, au: bool, j: int, x: real, c: int) -> real { hval(sline(s, au, j), dknots(s, au), ddeg(s, au), x, c) }
pub proof fn lemma_lift(a: NurbsSurface, b: NurbsSurface, au: bool, x: real, y: real, c: int)
  requires wfs(a), wfs(b), across(a, b, au), forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] lineval(b, au, j, x, c) == lineval(a, au, j, x, c)
  ensures srfat(b, au, x, y, c) == srfat(a, au, x, y, c)
{
  let sa = dknots(a, au); let sb = dknots(b, au); let p = ddeg(a, au); let na = llen(a, au) - 1; let nb = llen(b, au) - 1;
  lemma_span_exists(sa, na, p, x); lemma_span_exists(sb, nb, p, x);
  let ka = kspan(sa, na, p, x); let kb = kspan(sb, nb, p, x);
  let so = dknots(a, !au); let po = ddeg(a, !au); let no = nlines(a, au) - 1;
  lemma_span_exists(so, no, po, y);
  let ko = kspan(so, no, po, y);
  let wa = pseq(sa, ka, p, x, 0); let wb = pseq(sb, kb, p, x, 0); let wo = pseq(so, ko, po, y, 0);
  if au {
    assert forall|j: int| ko - po <= j < ko - po + wo.len() implies #[trigger] usum(a.control_points@, ka - p, j, c, wa, wa.len() as int) == usum(b.control_points@, kb - p, j, c, wb, wb.len() as int) by {
      lemma_usum_csum(a.control_points@, sa, ka, p, x, j, c, p + 1); lemma_usum_csum(b.control_points@, sb, kb, p, x, j, c, p + 1);
      assert(lineval(b, au, j, x, c) == lineval(a, au, j, x, c));
    }
    lemma_ssum_cols(a.control_points@, b.control_points@, ka - p, kb - p, ko - po, c, wa, wb, wo, po + 1);
  } else {
    lemma_ssum_rows(a.control_points@, ko - po, ka - p, c, wo, wa, p + 1); lemma_ssum_rows(b.control_points@, ko - po, kb - p, c, wo, wb, p + 1);
    assert forall|i: int| ko - po <= i < ko - po + (po + 1) implies lsum((#[trigger] a.control_points@[i])@, ka - p, c, wa, wa.len() as int) == lsum(b.control_points@[i]@, kb - p, c, wb, wb.len() as int) by {
      lemma_lsum_csum(a.control_points@[i]@, sa, ka, p, x, c, p + 1); lemma_lsum_csum(b.control_points@[i]@, sb, kb, p, x, c, p + 1);
      assert(lineval(b, au, i, x, c) == lineval(a, au, i, x, c));
    }
    lemma_rsum_ext(a.control_points@, b.control_points@, ko - po, ka - p, kb - p, c, wo, wa, wb, po + 1);
  }
}
pub open spec fn rleq() -> spec_fn(R, R) -> bool { |x: R, y: R| x@ <= y@ }
pub proof fn lemma_rsort(a: Seq<R>) -> (b: Seq<R>)
  ensures sorted(b), b.to_multiset() =~= a.to_multiset(), b.len() == a.len(), forall|q: int| 0 <= q < b.len() ==> a.contains(#[trigger] b[q])
{
  broadcast use axiom_r_ext;
  let leq = rleq();
  assert(vstd::relations::total_ordering(leq)) by { assert forall|x: R, y: R| #[trigger] leq(x, y) && #[trigger] leq(y, x) implies x == y by { assert(x@ == y@); } }
  let b = a.sort_by(leq);
  a.lemma_sort_by_ensures(leq);
  a.to_multiset_ensures(); b.to_multiset_ensures();
  assert(sorted(b)) by { assert forall|i: int, j: int| 0 <= i <= j < b.len() implies (#[trigger] b[i])@ <= (#[trigger] b[j])@ by { assert(leq(b[i], b[j])); } }
  assert forall|q: int| 0 <= q < b.len() implies a.contains(#[trigger] b[q]) by { assert(b.to_multiset().contains(b[q])); }
  b
}
// knots inserted strictly inside the domain leave the ends alone
pub proof fn lemma_refined_head(s: Seq<R>, xs: Seq<R>, t: Seq<R>, m: int)
  requires sorted(s), sorted(t), 0 <= m < s.len(), t.to_multiset() =~= s.to_multiset().add(xs.to_multiset()), forall|j: int| 0 <= j < xs.len() ==> s[m]@ < (#[trigger] xs[j])@
  ensures t.len() == s.len() + xs.len(), forall|q: int| 0 <= q <= m ==> #[trigger] t[q] == s[q], forall|q: int| m < q < t.len() ==> (xs.contains(#[trigger] t[q]) || s.subrange(m + 1, s.len() as int).contains(t[q]))
{
  let a = s.subrange(0, m + 1); let z = s.subrange(m + 1, s.len() as int);
  let w = lemma_rsort(z + xs);
  let e = a + w;
  vstd::seq_lib::lemma_multiset_commutative(a, w); vstd::seq_lib::lemma_multiset_commutative(a, z); vstd::seq_lib::lemma_multiset_commutative(z, xs);
  assert(a + z =~= s);
  assert(e.to_multiset() =~= t.to_multiset());
  assert forall|q: int| 0 <= q < w.len() implies xs.contains(#[trigger] w[q]) || z.contains(w[q]) by {
    assert((z + xs).contains(w[q]));
    let j = choose|j: int| 0 <= j < (z + xs).len() && #[trigger] (z + xs)[j] == w[q];
    if j < z.len() { assert(z[j] == w[q]); } else { assert(xs[j - z.len()] == w[q]); }
  }
  assert(sorted(e)) by {
    assert forall|i: int, j: int| 0 <= i <= j < e.len() implies (#[trigger] e[i])@ <= (#[trigger] e[j])@ by {
      if j <= m { lemma_le(s, i, j); } else if i > m { lemma_le(w, i - m - 1, j - m - 1); } else {
        lemma_le(s, i, m);
        let x = w[j - m - 1];
        if xs.contains(x) { let q = choose|q: int| 0 <= q < xs.len() && xs[q] == x; assert(s[m]@ < xs[q]@); } else { assert(z.contains(x)); let q = choose|q: int| 0 <= q < z.len() && z[q] == x; assert(z[q] == s[m + 1 + q]); lemma_le(s, m, m + 1 + q); }
      }
    }
  }
  lemma_sorted_same(e, t);
  e.to_multiset_ensures(); t.to_multiset_ensures(); s.to_multiset_ensures(); xs.to_multiset_ensures();
  assert forall|q: int| 0 <= q <= m implies #[trigger] t[q] == s[q] by { assert(e[q] == a[q]); }
  assert forall|q: int| m < q < t.len() implies (xs.contains(#[trigger] t[q]) || z.contains(t[q])) by { assert(e[q] == w[q - m - 1]); }
}
pub proof fn lemma_refined_tail(s: Seq<R>, xs: Seq<R>, t: Seq<R>, m: int)
  requires sorted(s), sorted(t), 0 <= m < s.len(), t.to_multiset() =~= s.to_multiset().add(xs.to_multiset()), forall|j: int| 0 <= j < xs.len() ==> (#[trigger] xs[j])@ < s[m]@
  ensures t.len() == s.len() + xs.len(), forall|q: int| m <= q < s.len() ==> t[q + xs.len()] == #[trigger] s[q], forall|q: int| 0 <= q < m + xs.len() ==> (xs.contains(#[trigger] t[q]) || s.subrange(0, m).contains(t[q]))
{
  let a = s.subrange(0, m); let z = s.subrange(m, s.len() as int);
  let w = lemma_rsort(a + xs);
  let e = w + z;
  vstd::seq_lib::lemma_multiset_commutative(w, z); vstd::seq_lib::lemma_multiset_commutative(a, z); vstd::seq_lib::lemma_multiset_commutative(a, xs);
  assert(a + z =~= s);
  assert(e.to_multiset() =~= t.to_multiset());
  assert forall|q: int| 0 <= q < w.len() implies xs.contains(#[trigger] w[q]) || a.contains(w[q]) by {
    assert((a + xs).contains(w[q]));
    let j = choose|j: int| 0 <= j < (a + xs).len() && #[trigger] (a + xs)[j] == w[q];
    if j < a.len() { assert(a[j] == w[q]); } else { assert(xs[j - a.len()] == w[q]); }
  }
  assert(sorted(e)) by {
    assert forall|i: int, j: int| 0 <= i <= j < e.len() implies (#[trigger] e[i])@ <= (#[trigger] e[j])@ by {
      let l = w.len() as int;
      if j < l { lemma_le(w, i, j); } else if i >= l { lemma_le(s, m + i - l, m + j - l); } else {
        lemma_le(s, m, m + j - l);
        let x = w[i];
        if xs.contains(x) { let q = choose|q: int| 0 <= q < xs.len() && xs[q] == x; assert(xs[q]@ < s[m]@); } else { assert(a.contains(x)); let q = choose|q: int| 0 <= q < a.len() && a[q] == x; assert(a[q] == s[q]); lemma_le(s, q, m); }
      }
    }
  }
  lemma_sorted_same(e, t);
  e.to_multiset_ensures(); t.to_multiset_ensures(); s.to_multiset_ensures(); xs.to_multiset_ensures();
  assert forall|q: int| m <= q < s.len() implies t[q + xs.len()] == #[trigger] s[q] by { assert(e[q + xs.len()] == z[q - m]); }
  assert forall|q: int| 0 <= q < m + xs.len() implies (xs.contains(#[trigger] t[q]) || a.contains(t[q])) by { assert(e[q] == w[q]); }
}
pub open spec fn interior(xs: Seq<R>, lo: real, hi: real) -> bool { forall|j: int| 0 <= j < xs.len() ==> lo < (#[trigger] xs[j])@ < hi }
pub proof fn lemma_refined_wfk(s: Seq<R>, xs: Seq<R>, t: Seq<R>, p: int, n1: int)
  requires wfk(s, n1 - 1, p), insertable(xs, s, p, n1), interior(xs, s[p]@, s[n1]@), sorted(t), t.to_multiset() =~= s.to_multiset().add(xs.to_multiset()), n1 + xs.len() <= 0x1000_0000
  ensures wfk(t, n1 + xs.len() - 1, p), t[p] == s[p], t[n1 + xs.len()] == s[n1]
{
  axiom_eps();
  let r = xs.len() as int;
  lemma_refined_head(s, xs, t, p); lemma_refined_tail(s, xs, t, n1);
  assert(t[p + 1]@ - t[p]@ >= eps() && t[p + 1]@ > t[p]@) by {
    let x = t[p + 1];
    if xs.contains(x) { let q = choose|q: int| 0 <= q < xs.len() && xs[q] == x; assert(s[p]@ < xs[q]@); assert(sepd(s[p]@, xs[q]@)); }
    else { let z = s.subrange(p + 1, s.len() as int); assert(z.contains(x)); let q = choose|q: int| 0 <= q < z.len() && z[q] == x; assert(z[q] == s[p + 1 + q]); lemma_le(s, p + 1, p + 1 + q); }
  }
  assert(t[n1 + r]@ - t[n1 + r - 1]@ >= eps() && t[n1 + r]@ > t[n1 + r - 1]@) by {
    let x = t[n1 + r - 1];
    assert(t[n1 + r] == s[n1]);
    if xs.contains(x) { let q = choose|q: int| 0 <= q < xs.len() && xs[q] == x; assert(xs[q]@ < s[n1]@); assert(sepd(s[n1]@, xs[q]@)); }
    else { let z = s.subrange(0, n1); assert(z.contains(x)); let q = choose|q: int| 0 <= q < z.len() && z[q] == x; assert(z[q] == s[q]); lemma_le(s, q, n1 - 1); }
  }
}
pub proof fn lemma_clstate_val(cp: Seq<OPoint>, s: Seq<R>, b: Seq<OPoint>, t: Seq<R>, p: int, x: real, c: int)
  requires wfk(s, cp.len() - 1, p), wfk(t, b.len() - 1, p), t[p] == s[p], t[b.len() as int] == s[cp.len() as int], clstate(cp, s, b, t, p, s[p]@, s[cp.len() as int]@), s[p]@ <= x <= s[cp.len() as int]@
  ensures hval(b, t, p, x, c) == hval(cp, s, p, x, c)
{
  lemma_clget(cp, s, b, t, p, s[p]@, s[cp.len() as int]@);
  lemma_window_traces(cp, s, b, t, b, t, 0, p, s[p]@, s[cp.len() as int]@);
  lemma_traces_val(cp, s, b, t, p, x, c);
}
pub open spec fn lineref(a: NurbsSurface, b: NurbsSurface, au: bool, j: int) -> bool {
  clstate(sline(a, au, j), dknots(a, au), sline(b, au, j), dknots(b, au), ddeg(a, au), dknots(a, au)[ddeg(a, au)]@, dknots(a, au)[llen(a, au)]@)
}
// b is a with the knots xs added along one direction
pub open spec fn srefined(a: NurbsSurface, b: NurbsSurface, au: bool, xs: Seq<R>) -> bool {
  &&& across(a, b, au) && llen(b, au) == llen(a, au) + xs.len() && dknots(b, au).len() == dknots(a, au).len() + xs.len()
  &&& sorted(dknots(b, au)) && dknots(b, au).to_multiset() =~= dknots(a, au).to_multiset().add(xs.to_multiset())
  &&& forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] lineref(a, b, au, j)
}
pub open spec fn samevalues(a: NurbsSurface, b: NurbsSurface, au: bool) -> bool {
  forall|x: real, y: real, c: int| dknots(a, au)[ddeg(a, au)]@ <= x <= dknots(a, au)[llen(a, au)]@ ==> #[trigger] srfat(b, au, x, y, c) == srfat(a, au, x, y, c)
}
pub proof fn lemma_srefined(a: NurbsSurface, b: NurbsSurface, au: bool, xs: Seq<R>)
  requires wfs(a), srefined(a, b, au, xs), insertable(xs, dknots(a, au), ddeg(a, au), llen(a, au)), interior(xs, dknots(a, au)[ddeg(a, au)]@, dknots(a, au)[llen(a, au)]@), llen(a, au) + xs.len() <= 0x1000_0000
  ensures wfs(b), samevalues(a, b, au)
{
  let s = dknots(a, au); let t = dknots(b, au); let p = ddeg(a, au); let n1 = llen(a, au);
  lemma_refined_wfk(s, xs, t, p, n1);
  assert(wfs(b));
  assert forall|x: real, y: real, c: int| s[p]@ <= x <= s[n1]@ implies #[trigger] srfat(b, au, x, y, c) == srfat(a, au, x, y, c) by {
    assert forall|j: int| 0 <= j < nlines(a, au) implies #[trigger] lineval(b, au, j, x, c) == lineval(a, au, j, x, c) by {
      assert(lineref(a, b, au, j));
      lemma_clstate_val(sline(a, au, j), s, sline(b, au, j), t, p, x, c);
    }
    lemma_lift(a, b, au, x, y, c);
  }
}
// the part of a surface before x along the direction, and the part after it
pub open spec fn lineleft(a: NurbsSurface, au: bool, u: R, l: NurbsSurface, j: int) -> bool { is_left(sline(a, au, j), dknots(a, au), ddeg(a, au), u, sline(l, au, j), dknots(l, au)) }
pub open spec fn lineright(a: NurbsSurface, au: bool, u: R, r: NurbsSurface, j: int) -> bool { is_right(sline(a, au, j), dknots(a, au), ddeg(a, au), u, sline(r, au, j), dknots(r, au)) }
pub open spec fn sleft(a: NurbsSurface, au: bool, u: R, l: NurbsSurface) -> bool {
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au);
  &&& across(a, l, au) && forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] lineleft(a, au, u, l, j)
  &&& s[p]@ < u@ ==> wfs(l)
  &&& dknots(l, au)[p]@ == s[p]@ && dknots(l, au)[llen(l, au)]@ == u@
  &&& forall|x: real, y: real, c: int| s[p]@ <= x < u@ ==> #[trigger] srfat(l, au, x, y, c) == srfat(a, au, x, y, c)
  &&& s[p]@ < u@ && (cnt(s, u@, s.len() as int) <= p || u@ == s[n1]@) ==> forall|y: real, c: int| #[trigger] srfat(l, au, u@, y, c) == srfat(a, au, u@, y, c)
}
pub open spec fn sright(a: NurbsSurface, au: bool, u: R, r: NurbsSurface) -> bool {
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au);
  &&& across(a, r, au) && forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] lineright(a, au, u, r, j)
  &&& u@ < s[n1]@ ==> wfs(r)
  &&& dknots(r, au)[p]@ == u@ && dknots(r, au)[llen(r, au)]@ == s[n1]@
  &&& forall|x: real, y: real, c: int| u@ <= x <= s[n1]@ && u@ < s[n1]@ ==> #[trigger] srfat(r, au, x, y, c) == srfat(a, au, x, y, c)
}
pub proof fn lemma_sleft(a: NurbsSurface, au: bool, u: R, l: NurbsSurface)
  requires wfs(a), across(a, l, au), forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] lineleft(a, au, u, l, j)
  ensures sleft(a, au, u, l)
{
  hide(traces); hide(sorted); hide(srf); hide(lefthalf); hide(righthalf);
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au);
  assert(lineleft(a, au, u, l, 0));
  assert(sline(l, au, 0).len() == llen(l, au)); assert(sline(a, au, 0).len() == n1);
  if s[p]@ < u@ {
    assert(wfs(l));
    assert forall|x: real, y: real, c: int| s[p]@ <= x < u@ implies #[trigger] srfat(l, au, x, y, c) == srfat(a, au, x, y, c) by {
      assert forall|j: int| 0 <= j < nlines(a, au) implies #[trigger] lineval(l, au, j, x, c) == lineval(a, au, j, x, c) by { assert(lineleft(a, au, u, l, j)); }
      lemma_lift(a, l, au, x, y, c);
    }
    if cnt(s, u@, s.len() as int) <= p || u@ == s[n1]@ {
      assert forall|y: real, c: int| #[trigger] srfat(l, au, u@, y, c) == srfat(a, au, u@, y, c) by {
        assert forall|j: int| 0 <= j < nlines(a, au) implies #[trigger] lineval(l, au, j, u@, c) == lineval(a, au, j, u@, c) by { assert(lineleft(a, au, u, l, j)); assert(sline(a, au, j).len() == n1); }
        lemma_lift(a, l, au, u@, y, c);
      }
    }
  }
}
pub proof fn lemma_sright(a: NurbsSurface, au: bool, u: R, r: NurbsSurface)
  requires wfs(a), across(a, r, au), forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] lineright(a, au, u, r, j)
  ensures sright(a, au, u, r)
{
  hide(traces); hide(sorted); hide(srf); hide(lefthalf); hide(righthalf);
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au);
  assert(lineright(a, au, u, r, 0));
  assert(sline(r, au, 0).len() == llen(r, au)); assert(sline(a, au, 0).len() == n1);
  if u@ < s[n1]@ {
    assert(wfs(r));
    assert forall|x: real, y: real, c: int| u@ <= x <= s[n1]@ implies #[trigger] srfat(r, au, x, y, c) == srfat(a, au, x, y, c) by {
      assert forall|j: int| 0 <= j < nlines(a, au) implies #[trigger] lineval(r, au, j, x, c) == lineval(a, au, j, x, c) by { assert(lineright(a, au, u, r, j)); assert(sline(a, au, j).len() == n1); }
      lemma_lift(a, r, au, x, y, c);
    }
  }
}
// one line of the net as a curve of its own, refined
pub open spec fn refline(a: NurbsSurface, au: bool, xs: Seq<R>, c: NurbsCurve, j: int) -> bool {
  &&& c.degree == ddeg(a, au) && c.control_points.len() == llen(a, au) + xs.len() && c.knots.0.len() == dknots(a, au).len() + xs.len()
  &&& sorted(c.knots.0@) && c.knots.0@.to_multiset() =~= dknots(a, au).to_multiset().add(xs.to_multiset())
  &&& clstate(sline(a, au, j), dknots(a, au), c.control_points@, c.knots.0@, ddeg(a, au), dknots(a, au)[ddeg(a, au)]@, dknots(a, au)[llen(a, au)]@)
}
pub open spec fn reflines(a: NurbsSurface, au: bool, xs: Seq<R>, cs: Seq<NurbsCurve>, m: int) -> bool {
  cs.len() == m && forall|j: int| 0 <= j < m ==> #[trigger] refline(a, au, xs, cs[j], j)
}
pub proof fn lemma_reflines_same(a: NurbsSurface, au: bool, xs: Seq<R>, cs: Seq<NurbsCurve>, m: int, i: int, j: int)
  requires reflines(a, au, xs, cs, m), 0 <= i < m, 0 <= j < m
  ensures cs[i].knots.0@ == cs[j].knots.0@, cs[i].control_points.len() == llen(a, au) + xs.len(), cs[j].degree == ddeg(a, au)
{ assert(refline(a, au, xs, cs[i], i) && refline(a, au, xs, cs[j], j)); lemma_sorted_same(cs[i].knots.0@, cs[j].knots.0@); }
pub proof fn lemma_reflines(a: NurbsSurface, b: NurbsSurface, au: bool, xs: Seq<R>, cs: Seq<NurbsCurve>)
  requires wfs(a), reflines(a, au, xs, cs, nlines(a, au)), ddeg(b, au) == ddeg(a, au), ddeg(b, !au) == ddeg(a, !au), dknots(b, !au) == dknots(a, !au), dknots(b, au) == cs[0].knots.0@,
    b.control_points.len() == (if au { llen(a, au) + xs.len() } else { nlines(a, au) }),
    forall|i: int| 0 <= i < b.control_points.len() ==> (#[trigger] b.control_points@[i]).len() == (if au { nlines(a, au) } else { llen(a, au) + xs.len() }),
    forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] sline(b, au, j) == cs[j].control_points@
  ensures srefined(a, b, au, xs)
{
  assert(refline(a, au, xs, cs[0], 0));
  assert(across(a, b, au));
  assert forall|j: int| 0 <= j < nlines(a, au) implies #[trigger] lineref(a, b, au, j) by { lemma_reflines_same(a, au, xs, cs, nlines(a, au), 0, j); assert(refline(a, au, xs, cs[j], j)); assert(sline(b, au, j) == cs[j].control_points@); }
}
pub open spec fn cutready(a: NurbsSurface, au: bool, u: R, xs: Seq<R>, cs: Seq<NurbsCurve>, mu: int, k: int) -> bool {
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au);
  &&& wfs(a) && reflines(a, au, xs, cs, nlines(a, au)) && s[p]@ <= u@ <= s[n1]@ && in_span(s, n1 - 1, p, u@, k) && sepq(s, u@)
  &&& mu == (if s[p]@ < u@ < s[n1]@ { cnt(s, u@, s.len() as int) } else { 0 }) && 0 <= mu <= p + 1 && xs == rep(u, p + 1 - mu)
}
pub proof fn lemma_cut_left(a: NurbsSurface, au: bool, u: R, xs: Seq<R>, cs: Seq<NurbsCurve>, mu: int, k: int, l: NurbsSurface)
  requires cutready(a, au, u, xs, cs, mu, k), across(a, l, au), dknots(l, au) == cs[0].knots.0@.subrange(0, k - mu + ddeg(a, au) + 2),
    forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] sline(l, au, j) == cs[j].control_points@.subrange(0, k - mu + 1)
  ensures sleft(a, au, u, l)
{
  hide(is_left); hide(lefthalf); hide(righthalf); hide(sepq); hide(sleft);
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au); let m = k - mu;
  assert forall|j: int| 0 <= j < nlines(a, au) implies #[trigger] lineleft(a, au, u, l, j) by {
    lemma_reflines_same(a, au, xs, cs, nlines(a, au), 0, j); assert(refline(a, au, xs, cs[j], j));
    let t = cs[j].knots.0@; let b = cs[j].control_points@; let cp = sline(a, au, j); let cl = sline(l, au, j); let sl = dknots(l, au);
    assert(cp.len() == n1);
    lemma_windows(s, p, n1, u, k, mu, xs, t);
    assert(sorted(sl)) by { assert forall|x: int, y: int| 0 <= x <= y < sl.len() implies (#[trigger] sl[x])@ <= (#[trigger] sl[y])@ by { lemma_le(t, x, y); } }
    lemma_is_left(cp, s, p, u, b, t, 0, cl, sl, m);
  }
  lemma_sleft(a, au, u, l);
}
pub proof fn lemma_cut_right(a: NurbsSurface, au: bool, u: R, xs: Seq<R>, cs: Seq<NurbsCurve>, mu: int, k: int, r: NurbsSurface)
  requires cutready(a, au, u, xs, cs, mu, k), across(a, r, au), dknots(r, au) == cs[0].knots.0@.subrange(k - mu + 1, cs[0].knots.0.len() as int),
    forall|j: int| 0 <= j < nlines(a, au) ==> #[trigger] sline(r, au, j) == cs[j].control_points@.subrange(k - mu + 1, cs[j].control_points.len() as int)
  ensures sright(a, au, u, r)
{
  hide(is_right); hide(lefthalf); hide(righthalf); hide(sepq); hide(sright);
  let s = dknots(a, au); let p = ddeg(a, au); let n1 = llen(a, au); let m = k - mu;
  assert forall|j: int| 0 <= j < nlines(a, au) implies #[trigger] lineright(a, au, u, r, j) by {
    lemma_reflines_same(a, au, xs, cs, nlines(a, au), 0, j); assert(refline(a, au, xs, cs[j], j));
    let t = cs[j].knots.0@; let b = cs[j].control_points@; let cp = sline(a, au, j); let cr = sline(r, au, j); let sr = dknots(r, au);
    assert(cp.len() == n1);
    lemma_windows(s, p, n1, u, k, mu, xs, t);
    assert(sorted(sr)) by { assert forall|x: int, y: int| 0 <= x <= y < sr.len() implies (#[trigger] sr[x])@ <= (#[trigger] sr[y])@ by { lemma_le(t, x + m + 1, y + m + 1); } }
    lemma_is_right(cp, s, p, u, b, t, m + 1, cr, sr, k);
  }
  lemma_sright(a, au, u, r);
}
pub proof fn lemma_cut_insertable(s: Seq<R>, p: int, n1: int, u: R, c: int, xs: Seq<R>)
  requires wfk(s, n1 - 1, p), sepq(s, u@), s[p]@ <= u@ <= s[n1]@, xs =~= rep(u, c), c >= 0
  ensures insertable(xs, s, p, n1)
{ assert forall|j: int, q: int| 0 <= j < xs.len() && 0 <= q < s.len() implies sepd((#[trigger] s[q])@, (#[trigger] xs[j])@) by { } }
pub proof fn lemma_cut_span(s: Seq<R>, p: int, n1: int, u: R, mu: int, xs: Seq<R>)
  requires wfk(s, n1 - 1, p), s[p]@ <= u@ <= s[n1]@, sepq(s, u@), mu == (if s[p]@ < u@ < s[n1]@ { cnt(s, u@, s.len() as int) } else { 0 }), 0 <= mu <= p + 1, xs =~= rep(u, p + 1 - mu)
  ensures forall|k: int| #[trigger] in_span(s, n1 - 1, p, u@, k) ==> p <= k - mu && k <= n1 - 1
{
  let t = lemma_rsort(s + xs);
  vstd::seq_lib::lemma_multiset_commutative(s, xs);
  assert forall|k: int| #[trigger] in_span(s, n1 - 1, p, u@, k) implies p <= k - mu && k <= n1 - 1 by { lemma_windows(s, p, n1, u, k, mu, xs, t); }
}
