// C06: reductions.  sumval, meanval, sumsqval, meansqval, alltrue, anytrue take every element of the view into
// account exactly once, whatever its layout (strided subviews, both storage orders, expressions); maxval & co
// return the value at the index they report, which no element exceeds.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/math.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
using namespace vp;
typedef std::complex<float> C;

#ifdef VP_NATIVE
#define VP_TMAX 5
#else
#define VP_TMAX M1
#endif
// the reference: single-precision summations of 4096 or more elements are summed in blocks of 4096
template <typename A, typename V, typename F> A ref_sum(V const &v, F f, bool blocked)
{
  I n = v.size();
  if (!blocked || n < 4096)
  {
    A s = A();
    for (I i = 0; i < n; ++i) s = s + f(v.get(i));
    return s;
  }
  I blocks = (n + 4095) / 4096, b = 0;
  A total = A();
  for (; b < blocks - 1; ++b)
  {
    A s = A();
    for (I i = 0; i < 4096; ++i) s += f(v.get(b * 4096 + i));
    total += s;
  }
  A s = A();
  for (I i = 0; i < n - b * 4096; ++i) s += f(v.get(b * 4096 + i));
  total += s;
  return total;
}
// the vector is a whole vector (K = 0) or any non-reversed / reversed strided subview of one (K = 1, 2)
static I pick(char const *n)   // any length; natively also lengths beyond the 4096-element blocks
{
#ifdef VP_NATIVE
  if (vp_int("long", 0, 7) == 0) return vp_int(n, 4090, 8300);
#endif
  return vp_len(n, 1, M1);
}
template <int K, typename T, typename F> void on(F f)
{
  I m = pick("m");
  if (K == 0) { S1<T> a(m, "a"); f(a.v); return;}
  I t = vp_int("t", 1, VP_TMAX), g = vp_int("g", 0, t - 1), n = m * t;
  vp_assume(n <= M1);
  S1<T> a(n, "a");
  if (K == 1) f(a.v(Domain<1>(g, t, m)));
  else f(a.v(Domain<1>(g + (m - 1) * t, -t, m)));
}
#define RED(name, K, T, CALL, REF) \
VP_PROOF(red_##name) { on<K, T>([](auto v) { auto r = CALL; auto w = REF; vp_assert(same(r, w), "the reduction covers every element once");});}
#define SUM_(A, F, BL) ref_sum<A>(v, [](auto x) { return F;}, BL)
RED(sum_f, 0, float, sumval(v), SUM_(float, x, true))
RED(sum_f_sub, 1, float, sumval(v), SUM_(float, x, true))
RED(sum_f_rev, 2, float, sumval(v), SUM_(float, x, true))
RED(sum_d, 0, double, sumval(v), SUM_(double, x, false))
RED(sum_d_sub, 1, double, sumval(v), SUM_(double, x, false))
RED(sum_c_sub, 1, C, sumval(v), SUM_(C, x, true))
RED(sumsq_f, 0, float, sumsqval(v), SUM_(float, x * x, true))
RED(sumsq_f_sub, 1, float, sumsqval(v), SUM_(float, x * x, true))
RED(mean_f, 0, float, meanval(v), SUM_(float, x, true) / float(v.size()))
RED(mean_f_sub, 1, float, meanval(v), SUM_(float, x, true) / float(v.size()))
RED(mean_d_sub, 1, double, meanval(v), SUM_(double, x, false) / double(v.size()))
RED(meansq_f_sub, 1, float, meansqval(v), SUM_(float, x * x, true) / float(v.size()))
RED(meansq_c, 0, C, meansqval(v), SUM_(float, x.real() * x.real() + x.imag() * x.imag(), true) / float(v.size()))
RED(meansq_d_sub, 1, double, meansqval(v), SUM_(double, x * x, false) / double(v.size()))
RED(sum_expr, 0, double, sumval(v * v + v), SUM_(double, x * x + x, false))

// integer and boolean reductions
template <typename T> void logical()
{
  I n = vp_len("n", 1, M1); S1<T> a(n, "a");
  T r = alltrue(a.v), s = anytrue(a.v);
  I i = 0;
  T all = ~T(), any = T();
  for (; i < n; ++i) { all = all & a.v.get(i); if (all == T()) break;}
  for (i = 0; i < n; ++i) { any = any | a.v.get(i); if (any == ~T()) break;}
  vp_assert(r == all, "alltrue is the bitwise and of all elements");
  vp_assert(s == any, "anytrue is the bitwise or of all elements");
}
VP_PROOF(logical_int) { logical<int>();}
// a boolean reduction agrees with a search for the first element that decides it
template <int K> void bools()
{
  on<K, bool>([](auto v) {
    I n = v.size(), i = 0, j = 0;
    bool r = alltrue(v), s = anytrue(v);
    while (i < n && v.get(i)) ++i;
    while (j < n && !v.get(j)) ++j;
    vp_assert(r == (i == n), "alltrue holds exactly when no element is false");
    vp_assert(s == (j < n), "anytrue holds exactly when some element is true");
  });
}
VP_PROOF(bool_all_any) { bools<0>();}
VP_PROOF(bool_all_any_sub) { bools<1>();}
VP_PROOF(bool_all_any_rev) { bools<2>();}
VP_PROOF(count_bool)
{
  U1<bool> a; unsigned s = 0;
  I r = sumval(a.v);
  for (I i = 0; i < a.n; ++i) s += a.v.get(i) ? 1 : 0;
  vp_assert(unsigned(r) == s, "sumval of a boolean view counts the true elements");
}

// matrices and tensors: the reference visits the elements in storage order
template <typename O, typename A, typename V, typename F> A ref2(V const &v, F f)
{
  I r = v.size(0), c = v.size(1); A s = A();
  if (std::is_same<O, row2_type>::value)
  { for (I i = 0; i < r; ++i) for (I j = 0; j < c; ++j) s = s + f(v.get(i, j));}
  else
  { for (I j = 0; j < c; ++j) for (I i = 0; i < r; ++i) s = s + f(v.get(i, j));}
  return s;
}

#define RED2(name, T, O, CALL, REF) \
VP_PROOF(red2_##name) { typedef O##2_type order; I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); S2<T, order> a(r, c, "a"); auto v = a.v; \
  auto got = CALL; auto want = REF; vp_assert(same(got, want), "the reduction covers every element once");}
#define SUM2_(A, F) (ref2<order, A>(v, [](auto x) { return F;}))
RED2(sum_r, float, row, sumval(v), SUM2_(float, x))
RED2(sum_c, float, col, sumval(v), SUM2_(float, x))
RED2(sumsq_r, float, row, sumsqval(v), SUM2_(float, x * x))
RED2(mean_r, double, row, meanval(v), SUM2_(double, x) / double(v.size()))
RED2(mean_c, double, col, meanval(v), SUM2_(double, x) / double(v.size()))
RED2(meansq_r, double, row, meansqval(v), SUM2_(double, x * x) / double(v.size()))
VP_PROOF(red2_sub)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2), f1 = vp_int("f1", 0, M2), f2 = vp_int("f2", 0, M2), e1 = vp_int("e1", 0, M2), e2 = vp_int("e2", 0, M2);
  vp_assume((r + f1 + e1 <= M2) & (c + f2 + e2 <= M2));
  S2<float> a(r + f1 + e1, c + f2 + e2, "a");
  auto v = a.v(Domain<2>(Domain<1>(f1, 1, r), Domain<1>(f2, 1, c)));
  float got = sumval(v), want = ref2<row2_type, float>(v, [](float x) { return x;});
  vp_assert(same(got, want), "the reduction covers every element of the block once");
}
VP_PROOF(red3_sum)
{
  I r = vp_len("d0", 1, M3), c = vp_len("d1", 1, M3), d = vp_len("d2", 1, M3); S3<float> a(r, c, d, "a");
  float got = sumval(a.v), want = 0;
  for (I i = 0; i < r; ++i) for (I j = 0; j < c; ++j) for (I k = 0; k < d; ++k) want = want + a.v.get(i, j, k);
  vp_assert(same(got, want), "the reduction covers every element once");
}

// index reductions
struct id_ { template <typename T> T operator()(T x) const { return x;}};
struct mg_ { float operator()(float x) const { return vsip::mag(x);} float operator()(C x) const { return vsip::mag(x);}};
struct mq_ { float operator()(C x) const { return x.real() * x.real() + x.imag() * x.imag();}};
template <typename T, int MAX, typename R, typename F> void idx1(R red, F f)
{
  I n = vp_len("n", 1, M1); S1<T> a(n, "a"); I k = vp_int("k", 0, n - 1);
  Index<1> x(12345); auto r = red(a.v, x); I w = x[0];
  vp_assert((w >= 0) & (w < n), "the index reported is a valid index");
  vp_assert(same(r, f(a.v.get(w))), "the value returned is the value at the index reported");
  auto y = f(a.v.get(k));
  // (comparisons with a NaN are false: a NaN that comes first is returned, others are skipped)
  if (MAX) vp_assert(!(r < y) & ((k >= w) | !(y >= r)), "no element is beyond the value returned, and the first such element is reported");
  else vp_assert(!(y < r) & ((k >= w) | !(y <= r)), "no element is beyond the value returned, and the first such element is reported");
}
#define IDX(name, T, MAX, CALL, F) VP_PROOF(idx_##name) { idx1<T, MAX>([](auto v, Index<1> &x) { return CALL(v, x);}, F());}
IDX(max_f, float, 1, maxval, id_)
IDX(min_f, float, 0, minval, id_)
IDX(max_i, int, 1, maxval, id_)
IDX(min_i, int, 0, minval, id_)
IDX(maxmg_f, float, 1, maxmgval, mg_)
IDX(minmg_f, float, 0, minmgval, mg_)
IDX(maxmgsq_c, C, 1, maxmgsqval, mq_)
IDX(minmgsq_c, C, 0, minmgsqval, mq_)
template <typename O, int MAX, typename R> void idx2(R red)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); S2<float, O> a(r, c, "a"); I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  Index<2> x(12345, 12345); float v = red(a.v, x); I w = x[0], z = x[1];
  vp_assert((w >= 0) & (w < r) & (z >= 0) & (z < c), "the index reported is a valid index");
  vp_assert(same(v, a.v.get(w, z)), "the value returned is the value at the index reported");
  float y = a.v.get(i, j);
  if (MAX) vp_assert(!(v < y), "no element is beyond the value returned"); else vp_assert(!(y < v), "no element is beyond the value returned");
}
#define IDX2(name, O, MAX, CALL) VP_PROOF(idx2_##name) { idx2<O##2_type, MAX>([](auto v, Index<2> &x) { return CALL(v, x);});}
IDX2(max_r, row, 1, maxval)
IDX2(max_c, col, 1, maxval)
IDX2(min_r, row, 0, minval)
template <typename O, int MAX, typename R> void idx3(R red)
{
  I n0 = vp_len("n0", 1, M3), n1 = vp_len("n1", 1, M3), n2 = vp_len("n2", 1, M3); S3<float, O> a(n0, n1, n2, "a");
  I i = vp_int("i", 0, n0 - 1), j = vp_int("j", 0, n1 - 1), k = vp_int("k", 0, n2 - 1);
  Index<3> x(12345, 12345, 12345); float v = red(a.v, x); I u = x[0], w = x[1], z = x[2];
  vp_assert((u >= 0) & (u < n0) & (w >= 0) & (w < n1) & (z >= 0) & (z < n2), "the index reported is a valid index");
  vp_assert(same(v, a.v.get(u, w, z)), "the value returned is the value at the index reported");
  float y = a.v.get(i, j, k);
  if (MAX) vp_assert(!(v < y), "no element is beyond the value returned"); else vp_assert(!(y < v), "no element is beyond the value returned");
}
#define IDX3(name, A, B, CC, MAX, CALL) VP_PROOF(idx3_##name) { idx3<tuple<A, B, CC>, MAX>([](auto v, Index<3> &x) { return CALL(v, x);});}
IDX3(max_012, 0, 1, 2, 1, maxval)
IDX3(max_021, 0, 2, 1, 1, maxval)
IDX3(max_102, 1, 0, 2, 1, maxval)
IDX3(min_120, 1, 2, 0, 0, minval)
IDX3(min_201, 2, 0, 1, 0, minval)
IDX3(max_210, 2, 1, 0, 1, maxval)
