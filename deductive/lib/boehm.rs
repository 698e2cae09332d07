// needs: crv
// Knot insertion (Boehm): x goes in after index m; the new control points are affine combinations of neighbours.
pub open spec fn ia(s: Seq<R>, m: int, x: real, i: int, p: int) -> real {
  if i > m { 0real } else if s[i + p]@ <= x { 1real } else { fr(x - s[i]@, s[i + p]@ - s[i]@) }
}
pub open spec fn insat(s: Seq<R>, m: int, x: R) -> bool { sorted(s) && 0 <= m < s.len() && s[m]@ <= x@ && (m + 1 < s.len() ==> x@ <= s[m + 1]@) }
// the span k2 of the new vector lies in span k of the old one
pub open spec fn inspan(s: Seq<R>, m: int, x: R, k: int, k2: int) -> bool {
  &&& 0 <= k && k + 1 < s.len() && s[k]@ < s[k + 1]@
  &&& (k < m && k2 == k) || (k > m && k2 == k + 1) || (k == m && k2 == m && s[m]@ < x@) || (k == m && k2 == m + 1 && x@ < s[m + 1]@)
}
pub proof fn lemma_ex(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d
{
  let e = c - d;
  assert((a - b) * e == a * e - b * e) by (nonlinear_arith);
  assert(a * (c - d) == a * c - a * d) by (nonlinear_arith);
  assert(b * (c - d) == b * c - b * d) by (nonlinear_arith);
}
// (a g) h for a product taken apart
pub proof fn lemma_regroup(a: real, g: real, h: real) ensures a * (g * h) == (a * g) * h { assert(a * (g * h) == (a * g) * h) by (nonlinear_arith); }
pub proof fn lemma_mix(a: real, b: real, g: real, h: real) ensures (a * b) * (g * h) == (a * g) * (b * h) {
  let t = b * g;
  assert((a * b) * (g * h) == a * (b * (g * h))) by (nonlinear_arith);
  assert(b * (g * h) == (b * g) * h) by (nonlinear_arith);
  assert((a * g) * (b * h) == a * (g * (b * h))) by (nonlinear_arith);
  assert(g * (b * h) == (g * b) * h) by (nonlinear_arith);
  assert(b * g == g * b) by (nonlinear_arith);
}
pub proof fn lemma_dist(a: real, b: real, g: real) ensures (a + b) * g == a * g + b * g, (a - b) * g == a * g - b * g
{ assert((a + b) * g == a * g + b * g) by (nonlinear_arith); assert((a - b) * g == a * g - b * g) by (nonlinear_arith); }
pub proof fn lemma_fr_swap(a: real, d: real, b: real, e: real)
  requires d != 0real, e != 0real
  ensures fr(a, d) * fr(b, e) == fr(a, e) * fr(b, d), fr(d, d) == 1real, fr(e, e) == 1real, fr(a, d) * d == a, fr(b, e) * e == b
{
  let q1 = a / d; let q2 = b / e; let q3 = a / e; let q4 = b / d;
  assert(q1 * d == a && q4 * d == b && d / d == 1real) by (nonlinear_arith) requires d != 0real, q1 == a / d, q4 == b / d;
  assert(q2 * e == b && q3 * e == a && e / e == 1real) by (nonlinear_arith) requires e != 0real, q2 == b / e, q3 == a / e;
  assert(q3 * q4 == q1 * q2) by {
    // q1 d = q3 e, q2 e = q4 d
    lemma_mix(q1, q2, d, e); lemma_mix(q3, q4, e, d);
    assert(d * e == e * d) by (nonlinear_arith);
    assert((q1 * d) * (q2 * e) == a * b);
    assert((q3 * e) * (q4 * d) == a * b);
    assert(d * e != 0real) by (nonlinear_arith) requires d != 0real, e != 0real;
    let g = d * e; let x = q1 * q2; let y = q3 * q4;
    assert(x * g == y * g);
    assert(x == y) by (nonlinear_arith) requires x * g == y * g, g != 0real;
  }
}
pub proof fn lemma_fr_mulb(a: real, d: real) requires d != 0real ensures fr(a, d) * d == a
{ let q = a / d; assert(q * d == a) by (nonlinear_arith) requires d != 0real, q == a / d; }
pub proof fn lemma_cancel(x: real, y: real, g: real) requires x * g == y * g, g != 0real ensures x == y
{ assert(x == y) by (nonlinear_arith) requires x * g == y * g, g != 0real; }
// 1 - (x-s)/(y-s) == (y-x)/(y-s)
pub proof fn lemma_fr_one(x: real, s: real, y: real) requires y != s ensures 1real - fr(x - s, y - s) == fr(y - x, y - s)
{ lemma_fr_mulb(x - s, y - s); lemma_fr_mulb(y - x, y - s); let g = y - s; let q = fr(x - s, y - s); assert((1real - q) * g == g - q * g) by (nonlinear_arith); lemma_cancel(1real - q, fr(y - x, y - s), g); }
// (u-s)/(y-s) == (x-s)/(y-s) (y-u)/(y-x) + (u-x)/(y-x)
pub proof fn lemma_fr_a(u: real, s: real, x: real, y: real)
  requires y != s, y != x
  ensures fr(u - s, y - s) == fr(x - s, y - s) * fr(y - u, y - x) + fr(u - x, y - x)
{
  let g = y - s; let h = y - x;
  lemma_fr_mulb(u - s, g); lemma_fr_mulb(x - s, g); lemma_fr_mulb(y - u, h); lemma_fr_mulb(u - x, h);
  let a = fr(u - s, g); let b = fr(x - s, g); let c = fr(y - u, h); let d = fr(u - x, h);
  assert((a * g) * h == (u - s) * h);
  assert((b * g) * (c * h) == (x - s) * (y - u));
  assert((d * h) * g == (u - x) * g);
  lemma_ex(u, s, y, x); lemma_ex(x, s, y, u); lemma_ex(u, x, y, s);
  assert((u - s) * (y - x) == (x - s) * (y - u) + (u - x) * (y - s));
  lemma_regroup(a, g, h); lemma_dist(b * c, d, g * h); lemma_mix(b, c, g, h); lemma_regroup(d, h, g);
  assert(g * h == h * g) by (nonlinear_arith);
  assert((b * c + d) * (g * h) == (b * g) * (c * h) + (d * h) * g);
  assert(g * h != 0real) by (nonlinear_arith) requires g != 0real, h != 0real;
  lemma_cancel(a, b * c + d, g * h);
}
// (y-u)/(y-s) == (x-u)/(x-s) + (y-x)/(y-s) (u-s)/(x-s)
pub proof fn lemma_fr_b(u: real, s: real, x: real, y: real)
  requires y != s, x != s
  ensures fr(y - u, y - s) == fr(x - u, x - s) + fr(y - x, y - s) * fr(u - s, x - s)
{
  let g = y - s; let h = x - s;
  lemma_fr_mulb(y - u, g); lemma_fr_mulb(x - u, h); lemma_fr_mulb(y - x, g); lemma_fr_mulb(u - s, h);
  let a = fr(y - u, g); let d = fr(x - u, h); let b = fr(y - x, g); let c = fr(u - s, h);
  assert((a * g) * h == (y - u) * h);
  assert((b * g) * (c * h) == (y - x) * (u - s));
  assert((d * h) * g == (x - u) * g);
  lemma_ex(y, u, x, s); lemma_ex(y, x, u, s); lemma_ex(x, u, y, s);
  assert((y - u) * (x - s) == (y - x) * (u - s) + (x - u) * (y - s));
  lemma_regroup(a, g, h); lemma_dist(d, b * c, g * h); lemma_mix(b, c, g, h); lemma_regroup(d, h, g);
  assert(g * h == h * g) by (nonlinear_arith);
  assert((d + b * c) * (g * h) == (b * g) * (c * h) + (d * h) * g);
  assert(g * h != 0real) by (nonlinear_arith) requires g != 0real, h != 0real;
  lemma_cancel(a, d + b * c, g * h);
}
// (u-r)/(y-r) (y-x) - (x-r)/(y-r) (y-u) == u - x
pub proof fn lemma_fr_c(u: real, r: real, x: real, y: real)
  requires y != r
  ensures fr(u - r, y - r) * (y - x) - fr(x - r, y - r) * (y - u) == u - x
{
  let g = y - r;
  lemma_fr_mulb(u - r, g); lemma_fr_mulb(x - r, g);
  let a = fr(u - r, g); let b = fr(x - r, g);
  lemma_dist(a * (y - x), b * (y - u), g);
  let e = y - x; let f = y - u;
  assert((a * e) * g == (a * g) * e) by (nonlinear_arith);
  assert((b * f) * g == (b * g) * f) by (nonlinear_arith);
  lemma_ex(u, r, y, x); lemma_ex(x, r, y, u); lemma_ex(u, x, y, r);
  assert((u - r) * (y - x) - (x - r) * (y - u) == (u - x) * (y - r));
  assert((a * g) * (y - x) == (u - r) * (y - x));
  assert((b * g) * (y - u) == (x - r) * (y - u));
  lemma_cancel(a * (y - x) - b * (y - u), u - x, g);
}
// (z-x)/(z-s) (u-s) - (z-u)/(z-s) (x-s) == u - x
pub proof fn lemma_fr_d(u: real, s: real, x: real, z: real)
  requires z != s
  ensures fr(z - x, z - s) * (u - s) - fr(z - u, z - s) * (x - s) == u - x
{
  let g = z - s;
  lemma_fr_mulb(z - x, g); lemma_fr_mulb(z - u, g);
  let a = fr(z - x, g); let b = fr(z - u, g);
  lemma_dist(a * (u - s), b * (x - s), g);
  let e = u - s; let f = x - s;
  assert((a * e) * g == (a * g) * e) by (nonlinear_arith);
  assert((b * f) * g == (b * g) * f) by (nonlinear_arith);
  lemma_ex(z, x, u, s); lemma_ex(z, u, x, s); lemma_ex(u, x, z, s);
  assert((z - x) * (u - s) - (z - u) * (x - s) == (u - x) * (z - s));
  assert((a * g) * (u - s) == (z - x) * (u - s));
  assert((b * g) * (x - s) == (z - u) * (x - s));
  lemma_cancel(a * (u - s) - b * (x - s), u - x, g);
}
// coefficient of the first new function
pub proof fn lemma_ins1(s: Seq<R>, s2: Seq<R>, m: int, x: R, i: int, p: int, u: real)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), p >= 1, 0 <= i, i + p < s.len(), s2[i]@ < s2[i + p]@
  ensures fr(u - s[i]@, s[i + p]@ - s[i]@) * ia(s, m, x@, i, p - 1) == ia(s, m, x@, i, p) * fr(u - s2[i]@, s2[i + p]@ - s2[i]@)
{
  let w = fr(u - s[i]@, s[i + p]@ - s[i]@); let w2 = fr(u - s2[i]@, s2[i + p]@ - s2[i]@);
  if i > m { assert(w * 0real == 0real * w2) by (nonlinear_arith); }
  else if s[i + p]@ <= x@ {
    assert(s[i + p - 1]@ <= s[i + p]@);
    if i + p <= m { } else if i + p == m + 1 { assert(s[m + 1]@ == x@); } else { assert(s[m + 1]@ <= s[i + p - 1]@); }
    assert(w == w2);
  } else if s[i + p - 1]@ <= x@ {
    assert(i + p > m) by { if i + p <= m { assert(s[i + p]@ <= s[m]@); } }
    if i + p > m + 1 { assert(s[m + 1]@ <= s[i + p - 1]@); }
    assert(s2[i + p]@ == x@);
    lemma_fr_swap(x@ - s[i]@, s[i + p]@ - s[i]@, u - s[i]@, x@ - s[i]@);
  } else {
    assert(i + p > m + 1) by { if i + p <= m + 1 { assert(s[i + p - 1]@ <= s[m]@); } }
    assert(s2[i + p] == s[i + p - 1]);
    lemma_fr_swap(u - s[i]@, s[i + p]@ - s[i]@, x@ - s[i]@, s[i + p - 1]@ - s[i]@);
    assert(w * ia(s, m, x@, i, p - 1) == fr(u - s[i]@, s[i + p - 1]@ - s[i]@) * fr(x@ - s[i]@, s[i + p]@ - s[i]@));
    let e = fr(x@ - s[i]@, s[i + p]@ - s[i]@);
    assert(w2 * e == e * w2) by (nonlinear_arith);
  }
}
// coefficient of the last new function; a = i + 1
pub proof fn lemma_ins3(s: Seq<R>, s2: Seq<R>, m: int, x: R, a: int, p: int, u: real)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), p >= 1, 0 <= a, a + p < s.len(), s2[a + 1]@ < s2[a + p + 1]@
  ensures fr(s[a + p]@ - u, s[a + p]@ - s[a]@) * (1real - ia(s, m, x@, a + 1, p - 1)) == (1real - ia(s, m, x@, a, p)) * fr(s2[a + p + 1]@ - u, s2[a + p + 1]@ - s2[a + 1]@)
{
  let v = fr(s[a + p]@ - u, s[a + p]@ - s[a]@); let v2 = fr(s2[a + p + 1]@ - u, s2[a + p + 1]@ - s2[a + 1]@);
  if a > m { assert(v == v2); assert(v * 1real == 1real * v2); }
  else if s[a + p]@ <= x@ {
    if a + 1 > m {
      if a + p > m { assert(s[m + 1]@ <= s[a + p]@); }
      assert(s2[a + p + 1]@ == s[a + p]@);
      assert(false);
    } else { assert(ia(s, m, x@, a + 1, p - 1) == 1real); assert(v * 0real == 0real * v2) by (nonlinear_arith); }
  } else {
    assert(a + p > m) by { if a + p <= m { assert(s[a + p]@ <= s[m]@); } }
    assert(s2[a + p + 1] == s[a + p]);
    assert(s[a]@ <= s[m]@);
    lemma_fr_one(x@, s[a]@, s[a + p]@);
    let d = s[a + p]@ - s[a]@; let y = s[a + p]@;
    if a + 1 > m {
      lemma_fr_swap(y - x@, d, y - u, y - x@);
      let e = fr(y - x@, d);
      assert(e * v2 == fr(y - x@, y - x@) * v);
    } else {
      assert(s[a + 1]@ <= s[m]@);
      lemma_fr_one(x@, s[a + 1]@, y);
      lemma_fr_swap(y - u, d, y - x@, y - s[a + 1]@);
      let e = fr(y - x@, d);
      assert(v2 * e == e * v2) by (nonlinear_arith);
    }
  }
}
// coefficient of the middle new function; a = i + 1
pub proof fn lemma_ins2(s: Seq<R>, s2: Seq<R>, m: int, x: R, i: int, p: int, u: real)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), p >= 1, 0 <= i, i + p + 1 < s.len(), s2[i + 1]@ < s2[i + p + 1]@
  ensures fr(u - s[i]@, s[i + p]@ - s[i]@) * (1real - ia(s, m, x@, i + 1, p - 1)) + fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@) * ia(s, m, x@, i + 1, p - 1)
    == ia(s, m, x@, i, p) * fr(s2[i + p + 1]@ - u, s2[i + p + 1]@ - s2[i + 1]@) + (1real - ia(s, m, x@, i + 1, p)) * fr(u - s2[i + 1]@, s2[i + p + 1]@ - s2[i + 1]@)
{
  let a = i + 1;
  let w = fr(u - s[i]@, s[i + p]@ - s[i]@); let v = fr(s[a + p]@ - u, s[a + p]@ - s[a]@);
  let v2 = fr(s2[a + p]@ - u, s2[a + p]@ - s2[a]@); let w2 = fr(u - s2[a]@, s2[a + p]@ - s2[a]@);
  let a1 = ia(s, m, x@, a, p - 1); let a0 = ia(s, m, x@, i, p); let a2 = ia(s, m, x@, a, p);
  if i > m {
    assert(w == w2); assert(w * 1real + v * 0real == 0real * v2 + 1real * w2) by (nonlinear_arith) requires w == w2;
  } else if i == m {
    assert(s[m + 1]@ <= s[m + p]@);
    assert(s2[a] == x && s2[a + p] == s[m + p]);
    lemma_fr_a(u, s[m]@, x@, s[m + p]@);
    assert(w * 1real + v * 0real == a0 * v2 + 1real * w2) by (nonlinear_arith) requires w == a0 * v2 + w2;
  } else if s[i + p]@ <= x@ {
    assert(a1 == 1real && a0 == 1real);
    assert(w * (1real - a1) + v * a1 == v) by (nonlinear_arith) requires a1 == 1real;
    if s[a + p]@ <= x@ {
      if a + p > m { assert(s[m + 1]@ <= s[a + p]@); }
      if a + p > m + 1 { assert(s[m + 1]@ <= s[a + p - 1]@); }
      assert(v == v2);
      assert(a0 * v2 + (1real - a2) * w2 == v2) by (nonlinear_arith) requires a0 == 1real, a2 == 1real;
    } else {
      assert(a + p > m) by { if a + p <= m { assert(s[a + p]@ <= s[m]@); } }
      if a + p > m + 1 { assert(s[m + 1]@ <= s[a + p - 1]@); }
      assert(s2[a + p]@ == x@);
      lemma_fr_one(x@, s[a]@, s[a + p]@);
      lemma_fr_b(u, s[a]@, x@, s[a + p]@);
      assert(a0 * v2 == v2) by (nonlinear_arith) requires a0 == 1real;
    }
  } else {
    assert(i + p > m) by { if i + p <= m { assert(s[i + p]@ <= s[m]@); } }
    assert(s2[a + p] == s[i + p]);
    assert(s[i]@ <= s[m]@ && s[a]@ <= s[m]@);
    assert(s[i + p]@ <= s[a + p]@);
    let y = s[i + p]@; let z = s[a + p]@; let t = s[a]@; let r = s[i]@; let g = y - t;
    lemma_fr_c(u, r, x@, y); lemma_fr_d(u, t, x@, z);
    lemma_fr_one(x@, t, y); lemma_fr_one(x@, t, z);
    // multiply by y - t
    lemma_fr_mulb(y - x@, g); lemma_fr_mulb(x@ - t, g); lemma_fr_mulb(y - u, g); lemma_fr_mulb(u - t, g);
    let b1 = 1real - a1; let b2 = 1real - a2;
    assert(b1 * g == y - x@ && a1 * g == x@ - t && v2 * g == y - u && w2 * g == u - t);
    lemma_dist(w * b1, v * a1, g); lemma_dist(a0 * v2, b2 * w2, g);
    lemma_regroup(w, b1, g); lemma_regroup(v, a1, g); lemma_regroup(a0, v2, g); lemma_regroup(b2, w2, g);
    lemma_cancel(w * b1 + v * a1, a0 * v2 + b2 * w2, g);
  }
}
pub proof fn lemma_expand2(w: real, a: real, f0: real, b1: real, f1: real, v: real, b: real, c1: real, f2: real)
  ensures w * (a * f0 + b1 * f1) + v * (b * f1 + c1 * f2) == (w * a) * f0 + (w * b1 + v * b) * f1 + (v * c1) * f2
{
  let x = a * f0; let y = b1 * f1; let z = b * f1; let t = c1 * f2;
  assert(w * (x + y) == w * x + w * y) by (nonlinear_arith);
  assert(v * (z + t) == v * z + v * t) by (nonlinear_arith);
  lemma_regroup(w, a, f0); lemma_regroup(w, b1, f1); lemma_regroup(v, b, f1); lemma_regroup(v, c1, f2);
  lemma_dist(w * b1, v * b, f1);
}
// the functions of the old vector in terms of those of the new one
pub proof fn lemma_bas_insert(s: Seq<R>, s2: Seq<R>, m: int, x: R, k: int, k2: int, i: int, p: int, u: real)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), inspan(s, m, x, k, k2), p >= 0, 0 <= i, i + p + 1 < s.len(),
  ensures bas(s, k, i, p, u) == ia(s, m, x@, i, p) * bas(s2, k2, i, p, u) + (1real - ia(s, m, x@, i + 1, p)) * bas(s2, k2, i + 1, p, u)
  decreases p
{
  if p <= 0 {
    if i <= m { assert(s[i]@ <= s[m]@); }
    if i + 1 <= m { assert(s[i + 1]@ <= s[m]@); }
    let a = ia(s, m, x@, i, 0); let b = ia(s, m, x@, i + 1, 0); let f = bas(s2, k2, i, 0, u); let h = bas(s2, k2, i + 1, 0, u);
    if i < m { assert(a * f + (1real - b) * h == f) by (nonlinear_arith) requires a == 1real, b == 1real; }
    else if i == m { assert(a * f + (1real - b) * h == f + h) by (nonlinear_arith) requires a == 1real, b == 0real; }
    else { assert(a * f + (1real - b) * h == h) by (nonlinear_arith) requires a == 0real, b == 0real; }
  } else {
    lemma_bas_insert(s, s2, m, x, k, k2, i, p - 1, u);
    lemma_bas_insert(s, s2, m, x, k, k2, i + 1, p - 1, u);
    assert(s2[k2]@ < s2[k2 + 1]@);
    let f0 = bas(s2, k2, i, p - 1, u); let f1 = bas(s2, k2, i + 1, p - 1, u); let f2 = bas(s2, k2, i + 2, p - 1, u);
    let w = fr(u - s[i]@, s[i + p]@ - s[i]@); let v = fr(s[i + p + 1]@ - u, s[i + p + 1]@ - s[i + 1]@);
    let w0 = fr(u - s2[i]@, s2[i + p]@ - s2[i]@); let v0 = fr(s2[i + p + 1]@ - u, s2[i + p + 1]@ - s2[i + 1]@);
    let w1 = fr(u - s2[i + 1]@, s2[i + 1 + p]@ - s2[i + 1]@); let v1 = fr(s2[i + 1 + p + 1]@ - u, s2[i + 1 + p + 1]@ - s2[i + 1 + 1]@);
    let a = ia(s, m, x@, i, p - 1); let b = ia(s, m, x@, i + 1, p - 1); let c = ia(s, m, x@, i + 2, p - 1);
    let ca = ia(s, m, x@, i, p); let cb = ia(s, m, x@, i + 1, p);
    lemma_sorted_insert(s, s2, m, x);
    if k2 < i || k2 > i + p - 1 { lemma_bas_support(s2, k2, i, p - 1, u); assert((w * a) * f0 == (ca * w0) * f0) by (nonlinear_arith) requires f0 == 0real; }
    else { assert(s2[i]@ <= s2[k2]@ && s2[k2 + 1]@ <= s2[i + p]@); lemma_ins1(s, s2, m, x, i, p, u); }
    if k2 < i + 1 || k2 > i + p { lemma_bas_support(s2, k2, i + 1, p - 1, u); assert((w * (1real - b) + v * b) * f1 == (ca * v0 + (1real - cb) * w1) * f1) by (nonlinear_arith) requires f1 == 0real; }
    else { assert(s2[i + 1]@ <= s2[k2]@ && s2[k2 + 1]@ <= s2[i + p + 1]@); lemma_ins2(s, s2, m, x, i, p, u); }
    if k2 < i + 2 || k2 > i + p + 1 { lemma_bas_support(s2, k2, i + 2, p - 1, u); assert((v * (1real - c)) * f2 == ((1real - cb) * v1) * f2) by (nonlinear_arith) requires f2 == 0real; }
    else { assert(s2[i + 2]@ <= s2[k2]@ && s2[k2 + 1]@ <= s2[i + p + 2]@); lemma_ins3(s, s2, m, x, i + 1, p, u); assert(i + 1 + p + 1 == i + p + 2); }
    assert((w * a) * f0 == (ca * w0) * f0);
    let b1 = 1real - b; let c1 = 1real - c; let d1 = 1real - cb;
    lemma_expand2(w, a, f0, b1, f1, v, b, c1, f2);
    lemma_expand2(ca, w0, f0, v0, f1, d1, w1, v1, f2);
    assert(bas(s, k, i, p, u) == w * (a * f0 + b1 * f1) + v * (b * f1 + c1 * f2));
  }
}
pub proof fn lemma_sorted_insert(s: Seq<R>, s2: Seq<R>, m: int, x: R)
  requires insat(s, m, x), s2 == s.insert(m + 1, x)
  ensures sorted(s2)
{
  assert forall|i: int, j: int| 0 <= i <= j < s2.len() implies (#[trigger] s2[i])@ <= (#[trigger] s2[j])@ by {
    if i <= m { assert(s[i]@ <= s[m]@); }
    if j > m + 1 { assert(s[m + 1]@ <= s[j - 1]@); if i > m + 1 { assert(s[i - 1]@ <= s[j - 1]@); } }
    if j <= m { assert(s[i]@ <= s[j]@); }
  }
}
// coordinate c of new control point j
pub open spec fn insco(cp: Seq<OPoint>, s: Seq<R>, m: int, x: real, p: int, j: int, c: int) -> real {
  ia(s, m, x, j, p) * cp[j].coords.c(c) + (1real - ia(s, m, x, j, p)) * cp[j - 1].coords.c(c)
}
pub proof fn lemma_boehm_lo(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, m: int, x: R, p: int, k: int, u: real, c: int, t: int)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), inspan(s, m, x, k, k), 0 <= p <= k, k + p + 1 < s.len(), 0 <= t <= p + 1,
    forall|j: int| k - p <= j <= k ==> (#[trigger] cp2[j]).coords.c(c) == insco(cp, s, m, x@, p, j, c),
  ensures csum(cp, s, k, p, u, c, t) == csum(cp2, s2, k, p, u, c, t) + ((1real - ia(s, m, x@, k - p + t, p)) * cp[k - p + t - 1].coords.c(c)) * bas(s2, k, k - p + t, p, u)
  decreases t
{
  if t == 0 {
    assert(s[k]@ <= s[m]@);
    let y = cp[k - p - 1].coords.c(c); let b = bas(s2, k, k - p, p, u);
    assert(ia(s, m, x@, k - p, p) == 1real);
    assert((0real * y) * b == 0real) by (nonlinear_arith);
  } else {
    lemma_boehm_lo(cp, s, cp2, s2, m, x, p, k, u, c, t - 1);
    let i = k - p + t - 1;
    lemma_bas_insert(s, s2, m, x, k, k, i, p, u);
    let a = ia(s, m, x@, i, p); let a2 = 1real - ia(s, m, x@, i + 1, p); let f = bas(s2, k, i, p, u); let f2 = bas(s2, k, i + 1, p, u);
    let y = cp[i].coords.c(c); let z = cp[i - 1].coords.c(c);
    assert(cp2[i].coords.c(c) == a * y + (1real - a) * z);
    let w = (1real - a) * z;
    assert((a * y + w) * f == (a * y) * f + w * f) by (nonlinear_arith);
    assert(y * (a * f + a2 * f2) == (a * y) * f + (a2 * y) * f2) by { lemma_regroup(y, a, f); lemma_regroup(y, a2, f2); let q = a * f; let r = a2 * f2; assert(y * (q + r) == y * q + y * r) by (nonlinear_arith); assert(y * a == a * y) by (nonlinear_arith); assert(y * a2 == a2 * y) by (nonlinear_arith); }
  }
}
pub proof fn lemma_boehm_hi(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, m: int, x: R, p: int, k: int, u: real, c: int, t: int)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), inspan(s, m, x, k, k + 1), 0 <= p <= k, k + p + 1 < s.len(), 0 <= t <= p + 1,
    forall|j: int| k + 1 - p <= j <= k + 1 ==> (#[trigger] cp2[j]).coords.c(c) == insco(cp, s, m, x@, p, j, c),
  ensures csum(cp, s, k, p, u, c, t) == csum(cp2, s2, k + 1, p, u, c, t) - (ia(s, m, x@, k - p + t, p) * cp[k - p + t].coords.c(c)) * bas(s2, k + 1, k - p + t, p, u)
  decreases t
{
  if t == 0 {
    lemma_bas_support(s2, k + 1, k - p, p, u);
    let y = ia(s, m, x@, k - p, p) * cp[k - p].coords.c(c);
    assert(y * 0real == 0real) by (nonlinear_arith);
  } else {
    lemma_boehm_hi(cp, s, cp2, s2, m, x, p, k, u, c, t - 1);
    let i = k - p + t - 1;
    lemma_bas_insert(s, s2, m, x, k, k + 1, i, p, u);
    let a = ia(s, m, x@, i, p); let b = ia(s, m, x@, i + 1, p); let a2 = 1real - b; let f = bas(s2, k + 1, i, p, u); let f2 = bas(s2, k + 1, i + 1, p, u);
    let y = cp[i].coords.c(c); let z = cp[i + 1].coords.c(c);
    assert(k + 1 - p + t - 1 == i + 1);
    assert(cp2[i + 1].coords.c(c) == b * z + a2 * y);
    let w = b * z; let v = a2 * y;
    assert((w + v) * f2 == w * f2 + v * f2) by (nonlinear_arith);
    assert(y * (a * f + a2 * f2) == (a * y) * f + (a2 * y) * f2) by { lemma_regroup(y, a, f); lemma_regroup(y, a2, f2); let q = a * f; let r = a2 * f2; assert(y * (q + r) == y * q + y * r) by (nonlinear_arith); assert(y * a == a * y) by (nonlinear_arith); assert(y * a2 == a2 * y) by (nonlinear_arith); }
  }
}
pub proof fn lemma_boehm(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, m: int, x: R, p: int, k: int, k2: int, u: real, c: int)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), inspan(s, m, x, k, k2), 0 <= p <= k, k + p + 1 < s.len(),
    forall|j: int| k2 - p <= j <= k2 ==> (#[trigger] cp2[j]).coords.c(c) == insco(cp, s, m, x@, p, j, c),
  ensures csum(cp, s, k, p, u, c, p + 1) == csum(cp2, s2, k2, p, u, c, p + 1)
{
  if k2 == k {
    lemma_boehm_lo(cp, s, cp2, s2, m, x, p, k, u, c, p + 1);
    lemma_bas_support(s2, k, k + 1, p, u);
    let y = (1real - ia(s, m, x@, k + 1, p)) * cp[k].coords.c(c);
    assert(y * 0real == 0real) by (nonlinear_arith);
  } else {
    lemma_boehm_hi(cp, s, cp2, s2, m, x, p, k, u, c, p + 1);
    assert(ia(s, m, x@, k + 1, p) == 0real);
    let y = cp[k + 1].coords.c(c); let f = bas(s2, k + 1, k + 1, p, u);
    assert((0real * y) * f == 0real) by (nonlinear_arith);
  }
}
// piece k2 of the second curve is piece k of the first, over a part of its span
pub open spec fn samepiece(cp: Seq<OPoint>, s: Seq<R>, k: int, cp2: Seq<OPoint>, s2: Seq<R>, k2: int, p: int) -> bool {
  &&& s[k]@ < s[k + 1]@ && s[k]@ <= s2[k2]@ && s2[k2 + 1]@ <= s[k + 1]@
  &&& forall|u: real, c: int| #[trigger] csum(cp2, s2, k2, p, u, c, p + 1) == csum(cp, s, k, p, u, c, p + 1)
}
// every piece of the second curve inside [lo, hi] is (part of) a piece of the first
pub open spec fn retrace(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, p: int, lo: real, hi: real) -> bool {
  forall|k2: int| p <= k2 < cp2.len() && s2[k2]@ < #[trigger] s2[k2 + 1]@ && lo <= s2[k2]@ && s2[k2 + 1]@ <= hi ==> exists|k: int| p <= k < cp.len() && lo <= s[k]@ && s[k + 1]@ <= hi && #[trigger] samepiece(cp, s, k, cp2, s2, k2, p)
}
pub proof fn lemma_retrace_trans(a: Seq<OPoint>, s: Seq<R>, b: Seq<OPoint>, t: Seq<R>, c: Seq<OPoint>, v: Seq<R>, p: int, lo: real, hi: real)
  requires retrace(a, s, b, t, p, lo, hi), retrace(b, t, c, v, p, lo, hi)
  ensures retrace(a, s, c, v, p, lo, hi)
{
  assert forall|k2: int| p <= k2 < c.len() && v[k2]@ < #[trigger] v[k2 + 1]@ && lo <= v[k2]@ && v[k2 + 1]@ <= hi implies exists|k: int| p <= k < a.len() && lo <= s[k]@ && s[k + 1]@ <= hi && #[trigger] samepiece(a, s, k, c, v, k2, p) by {
    let j = choose|j: int| p <= j < b.len() && lo <= t[j]@ && t[j + 1]@ <= hi && #[trigger] samepiece(b, t, j, c, v, k2, p);
    let k = choose|k: int| p <= k < a.len() && lo <= s[k]@ && s[k + 1]@ <= hi && #[trigger] samepiece(a, s, k, b, t, j, p);
    assert forall|u: real, e: int| #[trigger] csum(c, v, k2, p, u, e, p + 1) == csum(a, s, k, p, u, e, p + 1) by { assert(csum(c, v, k2, p, u, e, p + 1) == csum(b, t, j, p, u, e, p + 1)); }
    assert(samepiece(a, s, k, c, v, k2, p));
  }
}
pub proof fn lemma_retrace_refl(a: Seq<OPoint>, s: Seq<R>, p: int, lo: real, hi: real) ensures retrace(a, s, a, s, p, lo, hi)
{
  assert forall|k2: int| p <= k2 < a.len() && s[k2]@ < #[trigger] s[k2 + 1]@ && lo <= s[k2]@ && s[k2 + 1]@ <= hi implies exists|k: int| p <= k < a.len() && lo <= s[k]@ && s[k + 1]@ <= hi && #[trigger] samepiece(a, s, k, a, s, k2, p) by {
    assert(samepiece(a, s, k2, a, s, k2, p));
  }
}
// control point j of the new net, as far as it is used by a piece in [lo, hi]
pub open spec fn insnet(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, m: int, x: R, p: int) -> bool {
  &&& cp2.len() == cp.len() + 1
  &&& forall|j: int, c: int| 0 <= j < cp2.len() && usedcp(m, cp.len() as int, p, j) ==> (#[trigger] cp2[j].coords.c(c)) == insco(cp, s, m, x@, p, j, c)
}
// (an insertion before or after the domain may leave control points undetermined that no piece of the domain uses)
pub open spec fn usedcp(m: int, len: int, p: int, j: int) -> bool { (m < p ==> j >= 1) && (m >= len ==> j < len) }
pub proof fn lemma_insert_retrace(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, m: int, x: R, p: int)
  requires insat(s, m, x), s2 == s.insert(m + 1, x), 0 <= p < cp.len(), s.len() == cp.len() + p + 1, insnet(cp, s, cp2, m, x, p)
  ensures retrace(cp, s, cp2, s2, p, s[p]@, s[cp.len() as int]@), sorted(s2), s2.len() == s.len() + 1
{
  lemma_sorted_insert(s, s2, m, x);
  let lo = s[p]@; let n1 = cp.len() as int; let hi = s[n1]@;
  assert forall|k2: int| p <= k2 < cp2.len() && s2[k2]@ < #[trigger] s2[k2 + 1]@ && lo <= s2[k2]@ && s2[k2 + 1]@ <= hi implies exists|k: int| p <= k < cp.len() && lo <= s[k]@ && s[k + 1]@ <= hi && #[trigger] samepiece(cp, s, k, cp2, s2, k2, p) by {
    let k = if k2 <= m { k2 } else { k2 - 1 };
    // k lies in the domain: [s[k], s[k+1]] contains the span of k2
    assert(s[k]@ <= s2[k2]@ && s2[k2 + 1]@ <= s[k + 1]@) by {
      if k2 < m { } else if k2 == m { } else if k2 == m + 1 { assert(s[m]@ <= x@); } else { }
    }
    assert(k >= p) by { if k < p { assert(s[k + 1]@ <= s[p]@); } }
    assert(k < n1) by { if k >= n1 { assert(s[n1]@ <= s[k]@); } }
    assert(inspan(s, m, x, k, k2));
    assert(lo <= s[k]@ && s[k + 1]@ <= hi);
    assert forall|u: real, c: int| #[trigger] csum(cp2, s2, k2, p, u, c, p + 1) == csum(cp, s, k, p, u, c, p + 1) by {
      assert forall|j: int| k2 - p <= j <= k2 implies (#[trigger] cp2[j]).coords.c(c) == insco(cp, s, m, x@, p, j, c) by { assert(usedcp(m, n1, p, j)); assert(cp2[j].coords.c(c) == insco(cp, s, m, x@, p, j, c)); }
      lemma_boehm(cp, s, cp2, s2, m, x, p, k, k2, u, c);
    }
    assert(samepiece(cp, s, k, cp2, s2, k2, p));
  }
}
// where the coefficient is 0 or 1 the control point is a copy
pub proof fn lemma_insco(cp: Seq<OPoint>, s: Seq<R>, m: int, x: real, p: int, j: int, c: int)
  ensures j > m ==> insco(cp, s, m, x, p, j, c) == cp[j - 1].coords.c(c),
    j <= m && s[j + p]@ <= x ==> insco(cp, s, m, x, p, j, c) == cp[j].coords.c(c)
{
  let a = cp[j].coords.c(c); let b = cp[j - 1].coords.c(c);
  assert(0real * a == 0real && 1real * a == a && (1real - 0real) * b == b && (1real - 1real) * b == 0real) by (nonlinear_arith);
}
// a - (a - b) (1 - t)
pub proof fn lemma_blend(a: real, b: real, t: real) ensures a - (a - b) * (1real - t) == t * a + (1real - t) * b
{ assert((a - b) * (1real - t) == a * (1real - t) - b * (1real - t)) by (nonlinear_arith); assert(a * (1real - t) == a - t * a) by (nonlinear_arith); assert((1real - t) * b == b * (1real - t)) by (nonlinear_arith); }
// the second curve is the first with x inserted
pub open spec fn inserted(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, x: R, p: int) -> bool {
  exists|m: int| insat(s, m, x) && s2 == #[trigger] s.insert(m + 1, x) && insnet(cp, s, cp2, m, x, p)
}
pub proof fn lemma_fr_inv(a: real, d: real, i: real) requires d != 0real, i * d == 1real ensures a * i == fr(a, d)
{ let q = fr(a, d); lemma_fr_mulb(a, d); let x = a * i; assert(x * d == a) by (nonlinear_arith) requires x == a * i, i * d == 1real; lemma_cancel(x, q, d); }
pub open spec fn has(s: Seq<R>, x: real) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x }
// [lo, hi] is delimited by knots and lies in the domain
pub open spec fn dom_in(s: Seq<R>, p: int, n1: int, lo: real, hi: real) -> bool { has(s, lo) && has(s, hi) && s[p]@ <= lo && hi <= s[n1]@ }
pub proof fn lemma_retrace_narrow(a: Seq<OPoint>, s: Seq<R>, b: Seq<OPoint>, t: Seq<R>, p: int, l: real, h: real, lo: real, hi: real)
  requires retrace(a, s, b, t, p, l, h), sorted(s), has(s, lo), has(s, hi), l <= lo, hi <= h, 0 <= p, s.len() >= a.len() + 1
  ensures retrace(a, s, b, t, p, lo, hi)
{
  assert forall|k2: int| p <= k2 < b.len() && t[k2]@ < #[trigger] t[k2 + 1]@ && lo <= t[k2]@ && t[k2 + 1]@ <= hi implies exists|k: int| p <= k < a.len() && lo <= s[k]@ && s[k + 1]@ <= hi && #[trigger] samepiece(a, s, k, b, t, k2, p) by {
    let k = choose|k: int| p <= k < a.len() && l <= s[k]@ && s[k + 1]@ <= h && #[trigger] samepiece(a, s, k, b, t, k2, p);
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == lo;
    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == hi;
    if s[k]@ < lo { assert(i > k); assert(s[k + 1]@ <= s[i]@); }
    if s[k + 1]@ > hi { assert(j < k + 1); assert(s[j]@ <= s[k]@); }
    assert(samepiece(a, s, k, b, t, k2, p));
  }
}
pub open spec fn starts(s: Seq<R>, x: real, c: int) -> bool { c <= s.len() && forall|j: int| 0 <= j < c ==> (#[trigger] s[j])@ == x }
pub open spec fn ends(s: Seq<R>, x: real, c: int) -> bool { c <= s.len() && forall|j: int| s.len() - c <= j < s.len() ==> (#[trigger] s[j])@ == x }
pub proof fn lemma_inserted(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, x: R, p: int, lo: real, hi: real)
  requires inserted(cp, s, cp2, s2, x, p), 0 <= p < cp.len(), s.len() == cp.len() + p + 1, dom_in(s, p, cp.len() as int, lo, hi)
  ensures sorted(s2), s2.len() == s.len() + 1, cp2.len() == cp.len() + 1, retrace(cp, s, cp2, s2, p, lo, hi), dom_in(s2, p, cp2.len() as int, lo, hi),
    s2.to_multiset() =~= s.to_multiset().insert(x), has(s2, x@),
    forall|y: real| has(s, y) ==> #[trigger] has(s2, y),
    forall|i: int| 0 <= i < s.len() ==> s2[i]@ <= (#[trigger] s[i])@ <= s2[i + 1]@
{
  hide(sorted); hide(insnet); hide(retrace);
  let m = choose|m: int| insat(s, m, x) && s2 == #[trigger] s.insert(m + 1, x) && insnet(cp, s, cp2, m, x, p);
  lemma_insert_retrace(cp, s, cp2, s2, m, x, p);
  lemma_retrace_narrow(cp, s, cp2, s2, p, s[p]@, s[cp.len() as int]@, lo, hi);
  lemma_insert_seq(s, s2, m, x);
  assert(cp2.len() == cp.len() + 1) by { reveal(insnet); }
  assert(s2[p]@ <= s[p]@); assert(s[cp.len() as int]@ <= s2[cp.len() as int + 1]@);
}
pub proof fn lemma_insert_seq(s: Seq<R>, s2: Seq<R>, m: int, x: R)
  requires insat(s, m, x), s2 == s.insert(m + 1, x)
  ensures s2.len() == s.len() + 1, s2.to_multiset() =~= s.to_multiset().insert(x), has(s2, x@),
    forall|y: real| has(s, y) ==> #[trigger] has(s2, y),
    forall|i: int| 0 <= i < s.len() ==> s2[i]@ <= (#[trigger] s[i])@ <= s2[i + 1]@
{
  hide(sorted);
  s.insert_ensures(m + 1, x);
  assert(s2[m + 1] == x);
  vstd::seq_lib::to_multiset_insert(s, m + 1, x);
  assert forall|y: real| has(s, y) implies #[trigger] has(s2, y) by {
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == y;
    assert(s2[if i <= m { i } else { i + 1 }]@ == y);
  }
  assert forall|i: int| 0 <= i < s.len() implies s2[i]@ <= (#[trigger] s[i])@ <= s2[i + 1]@ by {
    if i < m { assert(s2[i] == s[i] && s2[i + 1] == s[i + 1]); lemma_le(s, i, i + 1); } else if i == m { assert(s2[i] == s[i]); } else if i == m + 1 { assert(s2[i + 1] == s[i]); } else { assert(s2[i + 1] == s[i] && s2[i] == s[i - 1]); lemma_le(s, i - 1, i); }
  }
}
// element j of s with x inserted after m
pub open spec fn insel(s: Seq<R>, m: int, x: R, j: int, v: R) -> bool { v == (if j <= m { s[j] } else if j == m + 1 { x } else { s[j - 1] }) }
pub proof fn lemma_insel(s: Seq<R>, m: int, x: R, j: int)
  requires 0 <= m < s.len(), 0 <= j < s.len() + 1
  ensures insel(s, m, x, j, s.insert(m + 1, x)[j]), s.insert(m + 1, x).len() == s.len() + 1
{ }
proof fn lemma_start_lo(s: Seq<R>, m: int, x: R, c: int, j: int, v: R)
  requires insat(s, m, x), insel(s, m, x, j, v), 0 <= j < c + 1, 0 < c, starts(s, x@, c)
  ensures v@ == x@
{ hide(sorted); assert(s[0]@ == x@); if j <= m { lemma_le(s, 0, j); lemma_le(s, j, m); } else if j > m + 1 { assert(s[j - 1]@ == x@); } }
proof fn lemma_start_hi(s: Seq<R>, m: int, x: R, y: real, e: int, j: int, v: R)
  requires insat(s, m, x), insel(s, m, x, j, v), s.len() + 1 - e <= j < s.len() + 1, 0 < e, ends(s, y, e), y >= x@, s[0]@ == x@
  ensures v@ == y
{
  hide(sorted);
  let l = s.len() - 1;
  assert(s[l]@ == y);
  if j > m + 1 { assert(s[j - 1]@ == y); }
  else if j == m + 1 { if m < l { assert(s[m + 1]@ == y); lemma_le(s, 0, m); if m >= s.len() - e { assert(s[m]@ == y); } } else { assert(s[m]@ == y); } }
  else { lemma_le(s, j, m); lemma_le(s, j, l); lemma_le(s, 0, j); assert(s[j]@ == y); }
}
pub proof fn lemma_inserted_start(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, x: R, y: real, p: int, c: int, e: int)
  requires inserted(cp, s, cp2, s2, x, p), 0 < c, 0 < e, starts(s, x@, c), ends(s, y, e), y >= x@
  ensures starts(s2, x@, c + 1), ends(s2, y, e)
{
  hide(sorted); hide(insnet); hide(insat);
  let m = choose|m: int| insat(s, m, x) && s2 == #[trigger] s.insert(m + 1, x) && insnet(cp, s, cp2, m, x, p);
  assert(insat(s, m, x) && s2 == s.insert(m + 1, x));
  assert(0 <= m < s.len()) by { reveal(insat); }
  assert(s2.len() == s.len() + 1) by { lemma_insel(s, m, x, 0); }
  assert(s[0]@ == x@);
  assert forall|j: int| 0 <= j < c + 1 implies (#[trigger] s2[j])@ == x@ by { lemma_insel(s, m, x, j); lemma_start_lo(s, m, x, c, j, s2[j]); }
  assert forall|j: int| s2.len() - e <= j < s2.len() implies (#[trigger] s2[j])@ == y by { lemma_insel(s, m, x, j); lemma_start_hi(s, m, x, y, e, j, s2[j]); }
}
proof fn lemma_end_hi(s: Seq<R>, m: int, x: R, e: int, j: int, v: R)
  requires insat(s, m, x), insel(s, m, x, j, v), s.len() - e <= j < s.len() + 1, 0 < e, ends(s, x@, e)
  ensures v@ == x@
{ hide(sorted); let l = s.len() - 1; assert(s[l]@ == x@); if j > m + 1 { lemma_le(s, m + 1, j - 1); lemma_le(s, j - 1, l); } else if j <= m { assert(s[j]@ == x@); } }
proof fn lemma_end_lo(s: Seq<R>, m: int, x: R, y: real, c: int, j: int, v: R)
  requires insat(s, m, x), insel(s, m, x, j, v), 0 <= j < c, 0 < c, starts(s, y, c), y <= x@, s[s.len() - 1]@ == x@
  ensures v@ == y
{ hide(sorted); let l = s.len() - 1; if j == m + 1 { assert(s[j]@ == y); lemma_le(s, j, l); } else if j <= m { assert(s[j]@ == y); } else { assert(s[j - 1]@ == y); } }
pub proof fn lemma_inserted_end(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, x: R, y: real, p: int, c: int, e: int)
  requires inserted(cp, s, cp2, s2, x, p), 0 < c, 0 < e, starts(s, y, c), ends(s, x@, e), y <= x@
  ensures starts(s2, y, c), ends(s2, x@, e + 1)
{
  hide(sorted); hide(insnet); hide(insat);
  let m = choose|m: int| insat(s, m, x) && s2 == #[trigger] s.insert(m + 1, x) && insnet(cp, s, cp2, m, x, p);
  assert(insat(s, m, x) && s2 == s.insert(m + 1, x));
  assert(0 <= m < s.len()) by { reveal(insat); }
  assert(s2.len() == s.len() + 1) by { lemma_insel(s, m, x, 0); }
  assert(s[s.len() - 1]@ == x@);
  assert forall|j: int| s2.len() - (e + 1) <= j < s2.len() implies (#[trigger] s2[j])@ == x@ by { lemma_insel(s, m, x, j); lemma_end_hi(s, m, x, e, j, s2[j]); }
  assert forall|j: int| 0 <= j < c implies (#[trigger] s2[j])@ == y by { lemma_insel(s, m, x, j); lemma_end_lo(s, m, x, y, c, j, s2[j]); }
}
// the curve (cp2, s2) came from (cp, s) by insertions: the same pieces over [lo, hi]
#[verifier::opaque]
pub open spec fn clstate(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, p: int, lo: real, hi: real) -> bool {
  sorted(s2) && 0 <= p < cp2.len() && s2.len() == cp2.len() + p + 1 && dom_in(s2, p, cp2.len() as int, lo, hi) && retrace(cp, s, cp2, s2, p, lo, hi)
}
pub proof fn lemma_clget(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, p: int, lo: real, hi: real)
  requires clstate(cp, s, cp2, s2, p, lo, hi)
  ensures sorted(s2), 0 <= p < cp2.len(), s2.len() == cp2.len() + p + 1, retrace(cp, s, cp2, s2, p, lo, hi)
{ reveal(clstate); }
pub proof fn lemma_clinit(cp: Seq<OPoint>, s: Seq<R>, p: int)
  requires sorted(s), 0 <= p < cp.len(), s.len() == cp.len() + p + 1
  ensures clstate(cp, s, cp, s, p, s[p]@, s[cp.len() as int]@)
{ reveal(clstate); lemma_retrace_refl(cp, s, p, s[p]@, s[cp.len() as int]@); assert(has(s, s[p]@) && has(s, s[cp.len() as int]@)); }
pub proof fn lemma_clstep(cp: Seq<OPoint>, s: Seq<R>, cp2: Seq<OPoint>, s2: Seq<R>, cp3: Seq<OPoint>, s3: Seq<R>, x: R, p: int, lo: real, hi: real)
  requires clstate(cp, s, cp2, s2, p, lo, hi), inserted(cp2, s2, cp3, s3, x, p)
  ensures clstate(cp, s, cp3, s3, p, lo, hi), s3.len() == s2.len() + 1, s3.to_multiset() =~= s2.to_multiset().insert(x)
{
  reveal(clstate);
  lemma_inserted(cp2, s2, cp3, s3, x, p, lo, hi);
  lemma_retrace_trans(cp, s, cp2, s2, cp3, s3, p, lo, hi);
}
