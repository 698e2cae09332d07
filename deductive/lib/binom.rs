// needs: base
broadcast use group_hash_axioms;
#[verifier::external_body]
pub fn hm_get_mut<V>(m: &mut HashMap<usize, V>, k: usize) -> (r: Option<&mut V>)
  ensures r.is_some() == old(m)@.contains_key(k), r.is_none() ==> final(m)@ == old(m)@, r.is_some() ==> *r.unwrap() == old(m)@[k] && final(m)@ == old(m)@.insert(k, *final(r.unwrap())) { m.get_mut(&k) }
// binomial coefficients by Pascal's rule
pub open spec fn bin(n: int, k: int) -> int decreases n { if k == 0 || k == n { 1 } else if n <= 0 || k < 0 || k > n { 0 } else { bin(n - 1, k) + bin(n - 1, k - 1) } }
pub proof fn lemma_bin_sym(n: int, k: int) requires 0 <= k <= n ensures bin(n, k) == bin(n, n - k) decreases n
{ if 0 < k < n { lemma_bin_sym(n - 1, k); lemma_bin_sym(n - 1, k - 1); } }
