// needs: srf knotmaps
// mirrored knots reverse the sequence of active basis functions
pub proof fn lemma_pseq_mirror(s: Seq<R>, s2: Seq<R>, a: real, k: int, p: int, u: real)
  requires mirrored(s, s2, a), 0 <= p <= k, k + p + 1 < s.len()
  ensures forall|i: int| 0 <= i < p + 1 ==> #[trigger] pseq(s2, s.len() - 2 - k, p, a - u, 0)[i] == pseq(s, k, p, u, 0)[p - i],
{
  assert forall|i: int| 0 <= i < p + 1 implies #[trigger] pseq(s2, s.len() - 2 - k, p, a - u, 0)[i] == pseq(s, k, p, u, 0)[p - i] by {
    lemma_bas_mirror(s, s2, a, k, k - i, p, u);
    assert(s.len() - p - 2 - (k - i) == s.len() - 2 - k - p + i);
  }
}
