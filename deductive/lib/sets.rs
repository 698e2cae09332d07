// needs: split
// union and difference of sorted lists, counted by value
pub open spec fn rmax2(x: int, y: int) -> int { if x >= y { x } else { y } }
pub open spec fn apart2(a: Seq<R>, b: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> (#[trigger] a[i])@ == (#[trigger] b[j])@ || rabs(a[i]@ - b[j]@) >= eps() }
pub proof fn lemma_cnt_prefix(s: Seq<R>, t: Seq<R>, v: real, m: int)
  requires 0 <= m <= s.len(), m <= t.len(), forall|i: int| 0 <= i < m ==> s[i] == t[i]
  ensures cnt(s, v, m) == cnt(t, v, m)
  decreases m
{ if m > 0 { lemma_cnt_prefix(s, t, v, m - 1); assert(s[m - 1] == t[m - 1]); } }
pub proof fn lemma_cnt_push(s: Seq<R>, x: R, v: real)
  ensures cnt(s.push(x), v, (s.len() + 1) as int) == cnt(s, v, s.len() as int) + (if x@ == v { 1int } else { 0int })
{ lemma_cnt_prefix(s.push(x), s, v, s.len() as int); }
// between a and b
pub proof fn lemma_cnt_span(s: Seq<R>, v: real, a: int, b: int)
  requires 0 <= a <= b <= s.len()
  ensures 0 <= cnt(s, v, a) <= cnt(s, v, b), (forall|j: int| a <= j < b ==> (#[trigger] s[j])@ != v) ==> cnt(s, v, a) == cnt(s, v, b)
  decreases b
{ if b > a { lemma_cnt_span(s, v, a, b - 1); } else if a > 0 { lemma_cnt_span(s, v, a - 1, b - 1); } }
pub open spec fn heads(a: Seq<R>, b: Seq<R>, ai: int, bi: int) -> bool {
  &&& ai < a.len() ==> (forall|j: int| 0 <= j < bi ==> (#[trigger] b[j])@ <= a[ai]@) && cnt(a, a[ai]@, ai) >= cnt(b, a[ai]@, bi)
}
pub open spec fn under(s: Seq<R>, a: Seq<R>, ai: int) -> bool { ai < a.len() ==> forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k])@ <= a[ai]@ }
pub open spec fn ustate(a: Seq<R>, b: Seq<R>, s: Seq<R>, ai: int, bi: int) -> bool {
  &&& 0 <= ai <= a.len() && 0 <= bi <= b.len() && sorted(a) && sorted(b) && sorted(s)
  &&& forall|v: real| #[trigger] cnt(s, v, s.len() as int) == rmax2(cnt(a, v, ai), cnt(b, v, bi))
  &&& under(s, a, ai) && under(s, b, bi) && heads(a, b, ai, bi) && heads(b, a, bi, ai)
}
pub proof fn lemma_heads_next(a: Seq<R>, b: Seq<R>, ai: int, bi: int, bj: int)
  requires sorted(a), sorted(b), 0 <= ai < a.len(), 0 <= bi <= bj <= b.len(), heads(a, b, ai, bi), bj == bi || (bj == bi + 1 && b[bi]@ == a[ai]@)
  ensures heads(a, b, ai + 1, bj)
{
  if ai + 1 < a.len() {
    let x = a[ai]@; let y = a[ai + 1]@;
    lemma_le(a, ai, ai + 1);
    if y > x { assert forall|j: int| 0 <= j < bj implies (#[trigger] b[j])@ != y by { if j < bi { assert(b[j]@ <= x); } } lemma_cnt_span(b, y, 0, bj); lemma_cnt_span(a, y, 0, ai + 1); }
  }
}
pub proof fn lemma_u_left(a: Seq<R>, b: Seq<R>, s: Seq<R>, ai: int, bi: int)
  requires ustate(a, b, s, ai, bi), ai < a.len(), bi < b.len() ==> a[ai]@ < b[bi]@
  ensures ustate(a, b, s.push(a[ai]), ai + 1, bi)
{
  let x = a[ai]; let t = s.push(x);
  assert forall|v: real| #[trigger] cnt(t, v, t.len() as int) == rmax2(cnt(a, v, ai + 1), cnt(b, v, bi)) by { lemma_cnt_push(s, x, v); assert(cnt(s, v, s.len() as int) == rmax2(cnt(a, v, ai), cnt(b, v, bi))); }
  lemma_heads_next(a, b, ai, bi, bi);
  if ai + 1 < a.len() { lemma_le(a, ai, ai + 1); }
}
pub proof fn lemma_u_swap(a: Seq<R>, b: Seq<R>, s: Seq<R>, ai: int, bi: int)
  requires ustate(a, b, s, ai, bi)
  ensures ustate(b, a, s, bi, ai)
{
  assert forall|v: real| #[trigger] cnt(s, v, s.len() as int) == rmax2(cnt(b, v, bi), cnt(a, v, ai)) by { assert(cnt(s, v, s.len() as int) == rmax2(cnt(a, v, ai), cnt(b, v, bi))); }
}
pub proof fn lemma_u_both(a: Seq<R>, b: Seq<R>, s: Seq<R>, ai: int, bi: int, x: R)
  requires ustate(a, b, s, ai, bi), ai < a.len(), bi < b.len(), a[ai]@ == b[bi]@, x@ == a[ai]@
  ensures ustate(a, b, s.push(x), ai + 1, bi + 1)
{
  let t = s.push(x);
  assert forall|v: real| #[trigger] cnt(t, v, t.len() as int) == rmax2(cnt(a, v, ai + 1), cnt(b, v, bi + 1)) by { lemma_cnt_push(s, x, v); assert(cnt(s, v, s.len() as int) == rmax2(cnt(a, v, ai), cnt(b, v, bi))); }
  lemma_heads_next(a, b, ai, bi, bi + 1);
  lemma_heads_next(b, a, bi, ai, ai + 1);
  if ai + 1 < a.len() { lemma_le(a, ai, ai + 1); }
  if bi + 1 < b.len() { lemma_le(b, bi, bi + 1); }
}
pub proof fn lemma_u_step(a: Seq<R>, b: Seq<R>, s: Seq<R>, ai: int, bi: int)
  requires ustate(a, b, s, ai, bi), ai < a.len() || bi < b.len()
  ensures
    ai < a.len() && (bi < b.len() ==> a[ai]@ < b[bi]@) ==> ustate(a, b, s.push(a[ai]), ai + 1, bi),
    bi < b.len() && (ai < a.len() ==> b[bi]@ < a[ai]@) ==> ustate(a, b, s.push(b[bi]), ai, bi + 1),
    ai < a.len() && bi < b.len() && a[ai]@ == b[bi]@ ==> ustate(a, b, s.push(a[ai]), ai + 1, bi + 1) && ustate(a, b, s.push(b[bi]), ai + 1, bi + 1)
{
  if ai < a.len() && (bi < b.len() ==> a[ai]@ < b[bi]@) { lemma_u_left(a, b, s, ai, bi); }
  if bi < b.len() && (ai < a.len() ==> b[bi]@ < a[ai]@) { lemma_u_swap(a, b, s, ai, bi); lemma_u_left(b, a, s, bi, ai); lemma_u_swap(b, a, s.push(b[bi]), bi + 1, ai); }
  if ai < a.len() && bi < b.len() && a[ai]@ == b[bi]@ { lemma_u_both(a, b, s, ai, bi, a[ai]); lemma_u_both(a, b, s, ai, bi, b[bi]); }
}
pub open spec fn subbag(a: Seq<R>, b: Seq<R>) -> bool { forall|v: real| #[trigger] cnt(b, v, b.len() as int) <= cnt(a, v, a.len() as int) }
pub open spec fn rest(a: Seq<R>, ai: int, v: real) -> int { cnt(a, v, a.len() as int) - cnt(a, v, ai) }
pub open spec fn sstate(a: Seq<R>, b: Seq<R>, s: Seq<R>, ai: int, bi: int) -> bool {
  &&& 0 <= ai <= a.len() && 0 <= bi <= b.len() && sorted(a) && sorted(b) && sorted(s) && under(s, a, ai)
  &&& forall|v: real| #[trigger] cnt(s, v, s.len() as int) == cnt(a, v, ai) - cnt(b, v, bi)
  &&& forall|v: real| #[trigger] rest(b, bi, v) <= rest(a, ai, v)
}
pub proof fn lemma_s_step(a: Seq<R>, b: Seq<R>, s: Seq<R>, ai: int, bi: int)
  requires sstate(a, b, s, ai, bi), ai < a.len()
  ensures bi < b.len() && a[ai]@ == b[bi]@ ==> sstate(a, b, s, ai + 1, bi + 1),
    (bi < b.len() ==> a[ai]@ != b[bi]@) ==> sstate(a, b, s.push(a[ai]), ai + 1, bi)
{
  let x = a[ai]@;
  if ai + 1 < a.len() { lemma_le(a, ai, ai + 1); }
  if bi < b.len() && x == b[bi]@ {
    assert forall|v: real| #[trigger] cnt(s, v, s.len() as int) == cnt(a, v, ai + 1) - cnt(b, v, bi + 1) by { assert(cnt(s, v, s.len() as int) == cnt(a, v, ai) - cnt(b, v, bi)); }
    assert forall|v: real| #[trigger] rest(b, bi + 1, v) <= rest(a, ai + 1, v) by { assert(rest(b, bi, v) <= rest(a, ai, v)); }
  } else {
    let t = s.push(a[ai]);
    assert forall|v: real| #[trigger] cnt(t, v, t.len() as int) == cnt(a, v, ai + 1) - cnt(b, v, bi) by { lemma_cnt_push(s, a[ai], v); assert(cnt(s, v, s.len() as int) == cnt(a, v, ai) - cnt(b, v, bi)); }
    assert forall|v: real| #[trigger] rest(b, bi, v) <= rest(a, ai + 1, v) by {
      assert(rest(b, bi, v) <= rest(a, ai, v));
      if v == x {
        lemma_cnt_span(a, x, ai + 1, a.len() as int);
        if bi < b.len() {
          let y = b[bi]@;
          if y < x {
            lemma_cnt_span(b, y, bi + 1, b.len() as int); assert(rest(b, bi, y) <= rest(a, ai, y));
            assert forall|j: int| ai <= j < a.len() implies (#[trigger] a[j])@ != y by { lemma_le(a, ai, j); }
            lemma_cnt_span(a, y, ai, a.len() as int);
            assert(false);
          }
          assert forall|j: int| bi <= j < b.len() implies (#[trigger] b[j])@ != x by { lemma_le(b, bi, j); }
        }
        lemma_cnt_span(b, x, bi, b.len() as int);
      }
    }
  }
}
pub proof fn lemma_s_end(a: Seq<R>, b: Seq<R>, s: Seq<R>, bi: int)
  requires sstate(a, b, s, a.len() as int, bi)
  ensures forall|v: real| #[trigger] cnt(s, v, s.len() as int) == cnt(a, v, a.len() as int) - cnt(b, v, b.len() as int)
{
  assert forall|v: real| #[trigger] cnt(s, v, s.len() as int) == cnt(a, v, a.len() as int) - cnt(b, v, b.len() as int) by { assert(rest(b, bi, v) <= rest(a, a.len() as int, v)); lemma_cnt_span(b, v, bi, b.len() as int); }
}
