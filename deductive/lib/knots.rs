// needs: base
pub open spec fn sorted(s: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i])@ <= (#[trigger] s[j])@ }
// spans that make sense for a lookup: last control point index n, degree p
pub open spec fn spans(s: Seq<R>, n: int, p: int) -> bool { 0 <= p <= n && n + 1 < s.len() && sorted(s) }
// the span the definition of a B-spline assigns to u: half open, the end of the domain belongs to the last one
pub open spec fn in_span(s: Seq<R>, n: int, p: int, u: real, k: int) -> bool {
  p <= k <= n && (
    (s[k]@ <= u && u < s[k + 1]@)
    || (k == n && u >= s[n + 1]@ - eps())
    || (k == p && u < s[p]@ + eps() && u <= s[n + 1]@ - eps()))
}

// distinct neighbours are told apart by the tolerance the multiplicity count uses
pub open spec fn distinct_gap(s: Seq<R>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i])@ == s[i + 1]@ || s[i + 1]@ - s[i]@ > eps() }
pub proof fn lemma_le(s: Seq<R>, i: int, j: int) requires sorted(s), 0 <= i <= j < s.len() ensures s[i]@ <= s[j]@ {}
