// C01: index and domain arithmetic
//@ dom1_equal_members: native=0
#include <vsip/domain.hpp>
#include <ovxx/domain_utils.hpp>
#include "vp.hpp"
using namespace vsip;
typedef std::int64_t I;
static I const M = I(1) << 30, N = I(1) << 20;

// a valid non-empty one-dimensional domain: all indices in [0, 2^52]
struct D1 { I f, s, n; Domain<1> d; };
static Domain<1> mk(char const *f, char const *s, char const *n, I &ff, I &ss, I &nn)
{
  ff = vp_int(f, 0, M); ss = vp_int(s, -N, N); nn = vp_int(n, 1, N);
  vp_assume(ff + (nn - 1) * ss >= 0);
  return Domain<1>(ff, ss, nn);
}

VP_PROOF(dom1_elements)
{
  I f, s, n; Domain<1> d = mk("first", "stride", "length", f, s, n);
  vp_assert(I(d.first()) == f && d.stride() == s && I(d.length()) == n && I(d.size()) == n, "constructor stores first, stride and length");
  I k = vp_int("k", 0, N); vp_assume(k < n);
  vp_assert(I(d.impl_nth(k)) == f + k * s, "k-th element is first + k*stride");
  vp_assert(I(d.impl_nth(k)) >= 0, "every element is a non-negative index");
  vp_assert(I(d.impl_last()) == f + (n - 1) * s, "last element");
  vp_assert(I(d[0].impl_nth(k)) == f + k * s, "operator[] is the identity in one dimension");
  Domain<1> c(d), e; e = d;
  vp_assert(I(c.impl_nth(k)) == f + k * s && c.length() == d.length(), "copy");
  vp_assert(I(e.impl_nth(k)) == f + k * s && e.length() == d.length(), "assignment");
  vp_cover("reached");
}
VP_PROOF(dom1_default)
{
  Domain<1> d; vp_assert(d.length() == 1 && d.first() == 0 && d.stride() == 1, "the default domain is {0}");
  I n = vp_int("n", 1, N), k = vp_int("k", 0, N); vp_assume(k < n);
  Domain<1> e(n); vp_assert(I(e.length()) == n && I(e.impl_nth(k)) == k, "Domain(n) is {0..n-1}");
  Domain<2> d2; Domain<3> d3;
  vp_assert(d2.size() == 1 && d3.size() == 1 && d2[1].first() == 0 && d3[2].first() == 0, "default multi-dimensional domains");
}
VP_PROOF(dom1_arith)
{
  I f, s, n; Domain<1> d = mk("first", "stride", "length", f, s, n);
  I c = vp_int("c", -M, M), k = vp_int("k", 0, N); vp_assume(k < n);
  vp_assume(f + c >= 0 && f + (n - 1) * s + c >= 0);
  Domain<1> a = d + c, a2 = c + d;
  vp_assert(I(a.impl_nth(k)) == f + k * s + c && a.length() == d.length(), "dom + c shifts every element");
  vp_assert(I(a2.impl_nth(k)) == f + k * s + c && a2.length() == d.length(), "c + dom shifts every element");
  vp_assert((a - c).impl_nth(k) == d.impl_nth(k), "shift is invertible");
}
VP_PROOF(dom1_sub)
{
  I f, s, n; Domain<1> d = mk("first", "stride", "length", f, s, n);
  I c = vp_int("c", -M, M), k = vp_int("k", 0, N); vp_assume(k < n);
  vp_assume(f - c >= 0 && f + (n - 1) * s - c >= 0);
  Domain<1> a = d - c;
  vp_assert(I(a.impl_nth(k)) == f + k * s - c && a.length() == d.length(), "dom - c shifts every element");
}
VP_PROOF(dom1_scale)
{
  I f, s, n; Domain<1> d = mk("first", "stride", "length", f, s, n);
  I c = vp_int("c", -1000, 1000), k = vp_int("k", 0, N); vp_assume(k < n);
  vp_assume(f + (n - 1) * (s * c) >= 0);
  Domain<1> a = d * c, b = c * d;
  vp_assert(I(a.impl_nth(k)) == f + k * (s * c) && a.length() == d.length(), "dom * c scales the stride");
  vp_assert(I(b.impl_nth(k)) == f + k * (s * c) && b.length() == d.length(), "c * dom scales the stride");
}
VP_PROOF(dom1_div)
{
  I f, q, n, c = vp_int("c", 1, 1000);
  f = vp_int("first", 0, M); q = vp_int("q", -1000, 1000); n = vp_int("length", 1, N);
  vp_assume(f + (n - 1) * (q * c) >= 0 && f + (n - 1) * q >= 0);
  Domain<1> d(f, q * c, n), a = d / c;
  vp_assert(I(a.first()) == f && a.stride() == q && I(a.length()) == n, "dom / c divides the stride");
}
// arithmetic acts on every dimension
template <dimension_type D> Domain<D> mkd(Domain<1> const *d);
template <> Domain<2> mkd<2>(Domain<1> const *d) { return Domain<2>(d[0], d[1]);}
template <> Domain<3> mkd<3>(Domain<1> const *d) { return Domain<3>(d[0], d[1], d[2]);}
template <dimension_type D> void arithd()
{
  I f[D], s[D], n[D]; Domain<1> p[D];
  I c = vp_int("c", -1000, 1000);
  for (int i = 0; i != D; ++i)
  {
    f[i] = vp_int("first", 1000, M); s[i] = vp_int("stride", 0, N); n[i] = vp_int("length", 1, N);
    p[i] = Domain<1>(f[i], s[i], n[i]);
  }
  Domain<D> d = mkd<D>(p);
  Domain<D> a = d + c, b = d - c, m = d * 3, q = m / 3, e = c + d, g = 3 * d;
  I sz = 1;
  for (int i = 0; i != D; ++i)
  {
    vp_assert(I(d[i].first()) == f[i] && d[i].stride() == s[i] && I(d[i].length()) == n[i], "dimension i is the i-th argument");
    vp_assert(I(a[i].first()) == f[i] + c && a[i].stride() == s[i] && I(a[i].length()) == n[i], "+ in every dimension");
    vp_assert(I(e[i].first()) == f[i] + c && e[i].stride() == s[i] && I(e[i].length()) == n[i], "c + dom in every dimension");
    vp_assert(I(b[i].first()) == f[i] - c && b[i].stride() == s[i] && I(b[i].length()) == n[i], "- in every dimension");
    vp_assert(I(m[i].first()) == f[i] && m[i].stride() == 3 * s[i] && I(m[i].length()) == n[i], "* in every dimension");
    vp_assert(I(g[i].first()) == f[i] && g[i].stride() == 3 * s[i] && I(g[i].length()) == n[i], "c * dom in every dimension");
    vp_assert(I(q[i].first()) == f[i] && q[i].stride() == s[i] && I(q[i].length()) == n[i], "/ in every dimension");
    sz *= n[i];
  }
  vp_assert(I(d.size()) == sz, "size is the product of the lengths");
  vp_assert(I(ovxx::size(d)) == sz, "total size");
}
VP_PROOF(dom2_arith) { arithd<2>();}
VP_PROOF(dom3_arith) { arithd<3>();}

// canonical description of the set { f + k*s : 0<=k<n }, s != 0:  (least element, |s|, n), |s| irrelevant if n == 1.
// Two such sets are equal iff these agree: equal sets have the same least element and size, and for n > 1 the same
// second-least element.
static bool same_set(I f, I s, I n, I f2, I s2, I n2)
{
  I lo = s < 0 ? f + (n - 1) * s : f, lo2 = s2 < 0 ? f2 + (n2 - 1) * s2 : f2;
  I a = s < 0 ? -s : s, a2 = s2 < 0 ? -s2 : s2;
  return (n == n2) & (lo == lo2) & ((n == 1) | (a == a2));
}
VP_PROOF(dom1_equal)
{
  I f, s, n, f2, s2, n2; Domain<1> d = mk("first", "stride", "length", f, s, n), e = mk("first2", "stride2", "length2", f2, s2, n2);
  vp_assume(s != 0); vp_assume(s2 != 0);
  bool eq = d == e, ne = d != e;
  vp_assert(eq == same_set(f, s, n, f2, s2, n2), "equal iff they contain the same indices");
  vp_assert(ne == !eq, "!= is the negation");
  vp_assert((e == d) == eq, "symmetric");
}
VP_PROOF(dom1_equal_refl)
{
  I f, s, n; Domain<1> d = mk("first", "stride", "length", f, s, n);
  vp_assert(d == d, "reflexive");
  Domain<1> r(d.impl_last(), -s, n);
  vp_assert(d == r, "a domain equals its reversal");
}
VP_PROOF(dom1_equal_members)   // equality really means: the same elements
{
  I f, s, n, f2, s2, n2; Domain<1> d = mk("first", "stride", "length", f, s, n), e = mk("first2", "stride2", "length2", f2, s2, n2);
  vp_assume(d == e);
  I k = vp_int("k", 0, N); vp_assume(k < n);
  vp_assert(n == n2, "same number of elements");
  I x = f + k * s;
  vp_assert((x == f2 + k * s2) | (x == f2 + (n2 - 1 - k) * s2), "every element of one is an element of the other");
}
VP_PROOF(domN_equal)
{
  I f = vp_int("f", 0, M), n = vp_int("n", 2, N), g = vp_int("g", 0, M), m = vp_int("m", 2, N), h = vp_int("h", 0, M), o = vp_int("o", 2, N);
  I f2 = vp_int("f2", 0, M), n2 = vp_int("n2", 2, N), g2 = vp_int("g2", 0, M), m2 = vp_int("m2", 2, N), h2 = vp_int("h2", 0, M), o2 = vp_int("o2", 2, N);
  Domain<1> a(f, 2, n), b(g, 3, m), c(h, 1, o), a2(f2, 2, n2), b2(g2, 3, m2), c2(h2, 1, o2);
  bool ea = (f == f2) & (n == n2), eb = (g == g2) & (m == m2), ec = (h == h2) & (o == o2);
  vp_assert((Domain<2>(a, b) == Domain<2>(a2, b2)) == (ea & eb), "2-D equality is dimension-wise");
  vp_assert((Domain<2>(a, b) != Domain<2>(a2, b2)) == !(ea & eb), "2-D inequality");
  vp_assert((Domain<3>(a, b, c) == Domain<3>(a2, b2, c2)) == (ea & eb & ec), "3-D equality is dimension-wise");
  vp_assert(Domain<2>(a, b).element_conformant(Domain<2>(a2, b2)) == ((n == n2) & (m == m2)), "2-D element conformance is equality of the lengths");
  vp_assert(Domain<3>(a, b, c).element_conformant(Domain<3>(a2, b2, c2)) == ((n == n2) & (m == m2) & (o == o2)), "3-D element conformance");
  vp_assert(a.element_conformant(a2) == (n == n2), "1-D element conformance");
  vp_assert(Domain<2>(a, b).product_conformant(Domain<2>(a2, b2)) == (m == n2), "product conformance: columns of the first = rows of the second");
}
// ---- Index
VP_PROOF(index_arith)
{
  I a = vp_int("a", 0, M), b = vp_int("b", 0, M), c = vp_int("c", 0, M), x = vp_int("x", 0, M), y = vp_int("y", 0, M), z = vp_int("z", 0, M);
  Index<1> i1(a), j1(x); Index<2> i2(a, b), j2(x, y); Index<3> i3(a, b, c), j3(x, y, z);
  vp_assert(I(i1[0]) == a && I(i2[0]) == a && I(i2[1]) == b && I(i3[0]) == a && I(i3[1]) == b && I(i3[2]) == c, "coordinates");
  vp_assert((i1 == j1) == (a == x), "1-D equality");
  vp_assert((i2 == j2) == ((a == x) & (b == y)), "2-D equality");
  vp_assert((i3 == j3) == ((a == x) & (b == y) & (c == z)), "3-D equality");
  vp_assert((i3 != j3) == !((a == x) & (b == y) & (c == z)), "3-D inequality");
  vp_assert((i2 != j2) == !((a == x) & (b == y)), "2-D inequality");
  Index<3> s = i3 + j3; Index<2> t = i2 - j2;
  vp_assert(I(s[0]) == a + x && I(s[1]) == b + y && I(s[2]) == c + z, "sum is coordinate-wise");
  vp_assert(I(t[0]) == a - x && I(t[1]) == b - y, "difference is coordinate-wise");
  Index<3> zero; vp_assert(zero[0] == 0 && zero[1] == 0 && zero[2] == 0, "default index is the origin");
}
// ---- intersection
static bool in_unit(I f, I n, I x) { return (f <= x) & (x < f + n);}
VP_PROOF(intersect_unit)
{
  I f1 = vp_int("f1", 0, M), n1 = vp_int("n1", 1, N), f2 = vp_int("f2", 0, M), n2 = vp_int("n2", 1, N), x = vp_int("x", 0, 2 * M);
  Domain<1> r(77, 3, 5);
  bool ok = ovxx::intersect(Domain<1>(f1, 1, n1), Domain<1>(f2, 1, n2), r);
  bool both = in_unit(f1, n1, x) & in_unit(f2, n2, x);
  if (ok) vp_assert((r.stride() == 1) & (both == in_unit(r.first(), r.size(), x)) & (r.size() > 0), "the intersection holds exactly the common indices");
  else vp_assert(!both & (r.first() == 77) & (r.stride() == 3) & (r.size() == 5), "no common index, result untouched");
}
template <int S> void intersect_strided()
{
  I f1 = vp_int("f1", 0, M), n1 = vp_int("n1", 1, N), f2 = vp_int("f2", 0, M), n2 = vp_int("n2", 1, N), k = vp_int("k", 0, N);
  vp_assume(k < n2); vp_assume(f2 + (n2 - 1) * S >= 0);
  Domain<1> r(77, 3, 5);
  bool ok = ovxx::intersect(Domain<1>(f1, 1, n1), Domain<1>(f2, S, n2), r);
  I x = f2 + k * S;                                   // an element of the second domain
  bool in1 = in_unit(f1, n1, x);
  if (!ok) { vp_assert(!in1, "no common index is missed"); vp_assert((r.first() == 77) & (r.stride() == 3) & (r.size() == 5), "result untouched"); return; }
  I d = (x - I(r.first())) / S;                       // its position in the result
  bool inr = (d * S == x - I(r.first())) & (d >= 0) & (d < I(r.size()));
  vp_assert(r.stride() == S, "the intersection keeps the stride");
  vp_assert(in1 == inr, "an index of the second domain is in the result iff it is in the first");
  I e = (I(r.first()) - f2) / S;                      // every element of the result is in the second domain
  vp_assert((e * S == I(r.first()) - f2) & (e >= 0) & (e + I(r.size()) <= n2) & (r.size() > 0), "every element of the result is in the second domain");
}
VP_PROOF(intersect_stride1) { intersect_strided<1>();}
VP_PROOF(intersect_stride2) { intersect_strided<2>();}
VP_PROOF(intersect_stride3) { intersect_strided<3>();}
VP_PROOF(intersect_stride7) { intersect_strided<7>();}
VP_PROOF(intersect_strideM1) { intersect_strided<-1>();}
VP_PROOF(intersect_strideM2) { intersect_strided<-2>();}
VP_PROOF(intersect_strideM5) { intersect_strided<-5>();}
VP_PROOF(intersect_empty)
{
  I f = vp_int("f", 0, M), n = vp_int("n", 0, N), g = vp_int("g", 0, M), m = vp_int("m", 0, N);
  vp_assume((n == 0) | (m == 0));
  Domain<1> r(77, 3, 5);
  vp_assert(!ovxx::intersect(Domain<1>(f, 1, n), Domain<1>(g, 1, m), r), "nothing intersects the empty domain");
  vp_assert(!ovxx::intersect(Domain<1>(f, 1, n), Domain<1>(g, 2, m), r), "nothing intersects the empty domain (strided)");
}
template <dimension_type D> void intersectd()
{
  I f1[D], n1[D], f2[D], n2[D], x[D]; Domain<1> p[D], q[D]; bool both = true;
  for (int i = 0; i != D; ++i)
  {
    f1[i] = vp_int("f1", 0, M); n1[i] = vp_int("n1", 1, N); f2[i] = vp_int("f2", 0, M); n2[i] = vp_int("n2", 1, N); x[i] = vp_int("x", 0, 2 * M);
    p[i] = Domain<1>(f1[i], 1, n1[i]); q[i] = Domain<1>(f2[i], 1, n2[i]);
    both = both & in_unit(f1[i], n1[i], x[i]) & in_unit(f2[i], n2[i], x[i]);
  }
  Domain<D> r;
  bool ok = ovxx::intersect(mkd<D>(p), mkd<D>(q), r);
  if (!ok) { vp_assert(!both, "no common index is missed"); return; }
  bool in = true;
  for (int i = 0; i != D; ++i) in = in & in_unit(r[i].first(), r[i].size(), x[i]);
  vp_assert(in == both, "the intersection is exactly the common indices");
}
VP_PROOF(intersect_2d) { intersectd<2>();}
VP_PROOF(intersect_3d) { intersectd<3>();}
// ---- offsets implied by an intersection
VP_PROOF(apply_intr1)
{
  // element j of intr is element (intr.first - y.first + j*intr.stride) of y; the result must be the same elements of x
  I xf = vp_int("xf", 0, M), xs = vp_int("xs", 1, 1000), yf = vp_int("yf", 0, M), off = vp_int("off", 0, N), is = vp_int("is", 1, 1000), n = vp_int("n", 1, N), j = vp_int("j", 0, N);
  vp_assume(j < n);
  Domain<1> r = ovxx::apply_intr(Domain<1>(xf, xs, off + n), Domain<1>(yf, 1, off + n), Domain<1>(yf + off, is, n));
  vp_assert(I(r.size()) == n, "size of the intersection");
  vp_assert(I(r.impl_nth(j)) == xf + xs * (off + j * is), "the same elements of the other domain");
}
VP_PROOF(apply_intr23)
{
  Domain<1> x[3], y[3], t[3];
  for (int i = 0; i != 3; ++i)
  {
    I a = vp_int("a", 0, N), b = vp_int("b", 0, N), c = vp_int("c", 0, N), n = vp_int("n", 1, N);
    x[i] = Domain<1>(a, 1 + i, n + c); y[i] = Domain<1>(b, 1, n + c); t[i] = Domain<1>(b + c, 1, n);
  }
  Domain<2> r2 = ovxx::apply_intr(mkd<2>(x), mkd<2>(y), mkd<2>(t));
  Domain<3> r3 = ovxx::apply_intr(mkd<3>(x), mkd<3>(y), mkd<3>(t));
  Domain<2> s2 = ovxx::subset_from_intr(mkd<2>(y), mkd<2>(t));
  Domain<3> s3 = ovxx::subset_from_intr(mkd<3>(y), mkd<3>(t));
  for (int i = 0; i != 3; ++i)
  {
    I f = I(x[i].first()) + (I(t[i].first()) - I(y[i].first())) * x[i].stride(), n = t[i].size();
    I o = I(t[i].first()) - I(y[i].first());
    if (i < 2) vp_assert(I(r2[i].first()) == f && r2[i].stride() == x[i].stride() && I(r2[i].size()) == n, "apply_intr acts on each dimension (2-D)");
    vp_assert(I(r3[i].first()) == f && r3[i].stride() == x[i].stride() && I(r3[i].size()) == n, "apply_intr acts on each dimension (3-D)");
    if (i < 2) vp_assert(I(s2[i].first()) == o && s2[i].stride() == 1 && I(s2[i].size()) == n, "subset_from_intr acts on each dimension (2-D)");
    vp_assert(I(s3[i].first()) == o && s3[i].stride() == 1 && I(s3[i].size()) == n, "subset_from_intr acts on each dimension (3-D)");
  }
}
template <int S> void subset_intr()
{
  I f = vp_int("f", 0, M), o = vp_int("o", 0, N), n = vp_int("n", 1, N);
  Domain<1> r = ovxx::subset_from_intr(Domain<1>(f, S, o + n), Domain<1>(f + o * S, S, n));
  vp_assert(I(r.first()) == o && r.stride() == 1 && I(r.size()) == n, "position of the intersection within its parent");
}
VP_PROOF(subset_intr1) { subset_intr<1>();}
VP_PROOF(subset_intr3) { subset_intr<3>();}
// ---- traversal: next() visits every index of an extent exactly once, in the stated order
template <typename O> void next2()
{
  int const d0 = O::impl_dim0, d1 = O::impl_dim1;
  I n[2] = { vp_int("n0", 1, N), vp_int("n1", 1, N) };
  I i[2] = { vp_int("i0", 0, N), vp_int("i1", 0, N) };
  vp_assume(i[0] < n[0]); vp_assume(i[1] < n[1]);
  ovxx::Length<2> e(n[0], n[1]); Index<2> x(i[0], i[1]);
  vp_assert(ovxx::valid(e, x), "in range before");
  I pos = i[d0] * n[d1] + i[d1];
  ovxx::next<O>(e, x);
  bool last = pos == n[0] * n[1] - 1;
  vp_assert(ovxx::valid(e, x) == !last, "stays in the extent until the last index");
  if (!last) vp_assert(I(x[d0]) * n[d1] + I(x[d1]) == pos + 1, "advances by one position of the traversal order");
}
template <typename O> void next3()
{
  int const d0 = O::impl_dim0, d1 = O::impl_dim1, d2 = O::impl_dim2;
  I const K = 1 << 12;
  I n[3] = { vp_int("n0", 1, K), vp_int("n1", 1, K), vp_int("n2", 1, K) };
  I i[3] = { vp_int("i0", 0, K), vp_int("i1", 0, K), vp_int("i2", 0, K) };
  for (int k = 0; k != 3; ++k) vp_assume(i[k] < n[k]);
  ovxx::Length<3> e(n[0], n[1], n[2]); Index<3> x(i[0], i[1], i[2]);
  ovxx::next<O>(e, x);
  bool l2 = i[d2] == n[d2] - 1, l1 = i[d1] == n[d1] - 1, l0 = i[d0] == n[d0] - 1;
  if (l0 & l1 & l2) { vp_assert(!ovxx::valid(e, x), "leaves the extent after the last index"); return; }
  vp_assert(ovxx::valid(e, x), "stays in the extent");
  vp_assert(I(x[d2]) == (l2 ? 0 : i[d2] + 1), "fastest dimension");
  vp_assert(I(x[d1]) == (l2 ? (l1 ? 0 : i[d1] + 1) : i[d1]), "middle dimension");
  vp_assert(I(x[d0]) == ((l2 & l1) ? i[d0] + 1 : i[d0]), "slowest dimension");
}
VP_PROOF(next_2d_row) { next2<row2_type>();}
VP_PROOF(next_2d_col) { next2<col2_type>();}
VP_PROOF(next_3d_012) { next3<tuple<0,1,2> >();}
VP_PROOF(next_3d_021) { next3<tuple<0,2,1> >();}
VP_PROOF(next_3d_102) { next3<tuple<1,0,2> >();}
VP_PROOF(next_3d_120) { next3<tuple<1,2,0> >();}
VP_PROOF(next_3d_201) { next3<tuple<2,0,1> >();}
VP_PROOF(next_3d_210) { next3<tuple<2,1,0> >();}
VP_PROOF(next_1d)
{
  I n = vp_int("n", 1, N), i = vp_int("i", 0, N); vp_assume(i < n);
  ovxx::Length<1> e(n); Index<1> x(i);
  ovxx::next<row1_type>(e, x);
  vp_assert(I(x[0]) == i + 1 && ovxx::valid(e, x) == (i + 1 < n), "advances by one");
}
// ---- conversions
VP_PROOF(domain_conversions)
{
  I f[3], s[3], n[3], k[3]; Domain<1> p[3];
  for (int i = 0; i != 3; ++i)
  {
    f[i] = vp_int("f", 0, M); s[i] = vp_int("s", 0, N); n[i] = vp_int("n", 1, N); k[i] = vp_int("k", 0, N); vp_assume(k[i] < n[i]);
    p[i] = Domain<1>(f[i], s[i], n[i]);
  }
  Domain<3> d = mkd<3>(p); Index<3> x(k[0], k[1], k[2]);
  Index<3> y = ovxx::domain_nth(d, x); ovxx::Length<3> e = ovxx::extent(d); Index<3> z = ovxx::first(d);
  Domain<3> m = ovxx::normalize(d), g = ovxx::domain(z, e), h = ovxx::domain(e);
  Domain<2> pr = ovxx::project<2>(d); Domain<3> em = ovxx::empty_domain<3>();
  Domain<3> c = ovxx::construct_domain<3>(p);
  for (int i = 0; i != 3; ++i)
  {
    vp_assert(I(y[i]) == f[i] + k[i] * s[i], "domain_nth");
    vp_assert(I(e[i]) == n[i] && I(z[i]) == f[i], "extent and first");
    vp_assert(m[i].first() == 0 && m[i].stride() == 1 && I(m[i].size()) == n[i], "normalize");
    vp_assert(I(g[i].first()) == f[i] && g[i].stride() == 1 && I(g[i].size()) == n[i], "domain(first, extent)");
    vp_assert(h[i].first() == 0 && h[i].stride() == 1 && I(h[i].size()) == n[i], "domain(extent)");
    vp_assert(I(c[i].first()) == f[i] && c[i].stride() == s[i] && I(c[i].size()) == n[i], "construct_domain");
    vp_assert(em[i].size() == 0, "empty_domain");
    if (i < 2) vp_assert(I(pr[i].first()) == f[i] && pr[i].stride() == s[i] && I(pr[i].size()) == n[i], "project");
  }
  vp_assert(I(ovxx::total_size(e)) == n[0] * n[1] * n[2], "total size of an extent");
}
// the same in one and two dimensions (each has code of its own)
template <dimension_type D> ovxx::Length<D> len(I const *n);
template <> ovxx::Length<1> len<1>(I const *n) { return ovxx::Length<1>(n[0]);}
template <> ovxx::Length<2> len<2>(I const *n) { return ovxx::Length<2>(n[0], n[1]);}
template <> ovxx::Length<3> len<3>(I const *n) { return ovxx::Length<3>(n[0], n[1], n[2]);}
template <dimension_type D> Index<D> idx(I const *n);
template <> Index<1> idx<1>(I const *n) { return Index<1>(n[0]);}
template <> Index<2> idx<2>(I const *n) { return Index<2>(n[0], n[1]);}
template <> Index<3> idx<3>(I const *n) { return Index<3>(n[0], n[1], n[2]);}
// what has a size in every dimension
template <dimension_type D> struct Sized
{
  I const *n;
  std::size_t size(dimension_type dim, dimension_type d) const { vp_assert(dim == D && d < D, "asked for a size it has"); return n[d];}
};
template <> Domain<1> mkd<1>(Domain<1> const *p) { return p[0];}
template <dimension_type D> void conversions()
{
  I f[D], s[D], n[D], k[D]; Domain<1> p[D];
  I total = 1;
  for (unsigned i = 0; i != D; ++i)
  {
    f[i] = vp_int("f", 0, M); s[i] = vp_int("s", 0, N); n[i] = vp_int("n", 1, N); k[i] = vp_int("k", 0, N); vp_assume(k[i] < n[i]);
    p[i] = Domain<1>(f[i], s[i], n[i]);
    total *= n[i];
  }
  Domain<D> d = mkd<D>(p); Index<D> x = idx<D>(k);
  Index<D> y = ovxx::domain_nth(d, x); ovxx::Length<D> e = ovxx::extent(d); Index<D> z = ovxx::first(d);
  Domain<D> m = ovxx::normalize(d), g = ovxx::domain(z, e), h = ovxx::domain(e);
  Domain<1> p1 = ovxx::project<1>(d); Domain<D> em = ovxx::empty_domain<D>();
  Domain<D> c = ovxx::construct_domain<D>(p);
  Sized<D> blk = {n};
  Domain<D> bd = ovxx::block_domain<D>(blk);
  for (unsigned i = 0; i != D; ++i)
  {
    vp_assert(I(y[i]) == f[i] + k[i] * s[i], "domain_nth");
    vp_assert(I(e[i]) == n[i] && I(z[i]) == f[i], "extent and first");
    vp_assert(m[i].first() == 0 && m[i].stride() == 1 && I(m[i].size()) == n[i], "normalize");
    vp_assert(I(g[i].first()) == f[i] && g[i].stride() == 1 && I(g[i].size()) == n[i], "domain(first, extent)");
    vp_assert(h[i].first() == 0 && h[i].stride() == 1 && I(h[i].size()) == n[i], "domain(extent)");
    vp_assert(I(c[i].first()) == f[i] && c[i].stride() == s[i] && I(c[i].size()) == n[i], "construct_domain");
    vp_assert(em[i].size() == 0, "empty_domain");
    vp_assert(bd[i].first() == 0 && bd[i].stride() == 1 && I(bd[i].size()) == n[i], "block_domain");

  }
  vp_assert(I(p1.first()) == f[0] && p1.stride() == s[0] && I(p1.size()) == n[0], "project to one dimension");
  vp_assert(I(ovxx::total_size(e)) == total, "total size of an extent");
  vp_assert((I(d.size()) == total) & (I(ovxx::size(d)) == total), "size of a domain");
}
VP_PROOF(conversions_1) { conversions<1>();}
VP_PROOF(conversions_2) { conversions<2>();}
VP_PROOF(conversions_3) { conversions<3>();}
// indices are equal if all coordinates are; an index is valid if all its coordinates are inside
template <dimension_type D> void indices()
{
  I a[D], b[D], n[D];
  bool eq = true, in = true;
  for (unsigned i = 0; i != D; ++i)
  {
    a[i] = vp_int("a", 0, M); b[i] = vp_int("b", 0, M); n[i] = vp_int("n", 0, M);
#ifdef VP_NATIVE
    if (b[i] & 1) a[i] = b[i];
#endif
    eq = eq & (a[i] == b[i]); in = in & (a[i] < n[i]);
  }
  Index<D> x = idx<D>(a), y = idx<D>(b);
  vp_assert((x == y) == eq, "equal indices have equal coordinates");
  vp_assert((x != y) == !eq, "different indices differ in a coordinate");
  vp_assert(ovxx::valid(len<D>(n), x) == in, "a valid index is inside the extent in every dimension");
  vp_assert((len<D>(a) == len<D>(b)) == eq, "equal extents have equal lengths");
}
VP_PROOF(indices_1) { indices<1>();}
VP_PROOF(indices_2) { indices<2>();}
VP_PROOF(indices_3) { indices<3>();}
