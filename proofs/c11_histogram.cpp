// C11: Histogram counts every element in exactly one bin, the defined one, and accumulates on request.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/impl/signal/histo.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
// the inner bins 1 .. num-2 divide [min,max) evenly, bin 0 takes what is below, bin num-1 what is not
template <typename T> typename std::enable_if<std::is_integral<T>::value, bool>::type
in_bin(T min, T max, I num, T x, I b)
{
  typedef unsigned long long U;
  if (b == 0) return x < min;
  if (b == num - 1) return x >= max;
  // (b-1)/(num-2) <= (x-min)/(max-min) < b/(num-2)
  U o = (U)x - (U)min, w = (U)max - (U)min, k = num - 2;
  return (x >= min) & (x < max) & (w * (b - 1) <= o * k) & (o * k < w * b);
}
template <typename T> typename std::enable_if<!std::is_integral<T>::value, bool>::type
in_bin(T min, T max, I num, T x, I b)
{
  if (x < min) return b == 0;
  if (x >= max) return b == num - 1;
  index_type k = (index_type)((x - min) / ((max - min) / (num - 2)));
  if (k > index_type(num - 3)) k = num - 3;
  return I(k) == b - 1;
}
#ifdef VP_NATIVE
template <typename T> T low() { return T(3);}
#endif
template <typename T> void range(T &lo, T &hi)
{
  lo = any<T>("min"); hi = any<T>("max");
  vp_assume(lo < hi);
}
enum { once, twice, added };
template <typename T, int H, int mode> void hist1()
{
  I n = vp_len("n", 1, M1), num = vp_int("num", 3, 1 << 20), b = vp_int("b", 0, num - 1);
  T lo, hi; range(lo, hi);
  vec<T>(how<H>(), n, "x", [=](auto const &x) {
    Histogram<const_Vector, T> h(lo, hi, num);
    int want = 0;
    if (mode != once) h(x);
    const_Vector<scalar_i> q = h(x, mode == added);
    vp_assert(I(q.size()) == num, "one count per bin");
    if (mode == added) for (I i = 0; i < n; ++i) want += in_bin(lo, hi, num, x.get(i), b);
    for (I i = 0; i < n; ++i) want += in_bin(lo, hi, num, x.get(i), b);
    vp_assert(q.get(b) == want, "bin b counts exactly the elements that belong to it");
  });
}
VP_PROOF(vec_float) { hist1<float, W, once>();}
VP_PROOF(vec_int) { hist1<int, W, once>();}
VP_PROOF(vec_float_again) { hist1<float, W, twice>();}
VP_PROOF(vec_float_added) { hist1<float, W, added>();}
VP_PROOF(vec_int_added) { hist1<int, W, added>();}
VP_PROOF(vec_double_strided) { hist1<double, R, once>();}
VP_PROOF(vec_int_reversed) { hist1<int, r, once>();}
template <typename T, typename O, int H, int mode> void hist2()
{
  I m = vp_len("m", 1, 1 << 12), n = vp_len("n", 1, 1 << 12), num = vp_int("num", 3, 1 << 20), b = vp_int("b", 0, num - 1);
  T lo, hi; range(lo, hi);
  mat<T, O>(how<H>(), m, n, "x", [=](auto const &x) {
    Histogram<const_Matrix, T> h(lo, hi, num);
    unsigned want = 0;
    if (mode != once) h(x);
    const_Vector<scalar_i> q = h(x, mode == added);
    vp_assert(I(q.size()) == num, "one count per bin");
    for (int k = 0; k < (mode == added ? 2 : 1); ++k)
      if (std::is_same<O, col2_type>::value)
        for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) want += in_bin(lo, hi, num, x.get(i, j), b);
      else
        for (I i = 0; i < m; ++i) for (I j = 0; j < n; ++j) want += in_bin(lo, hi, num, x.get(i, j), b);
    vp_assert(unsigned(q.get(b)) == want, "bin b counts exactly the elements that belong to it");
  });
}
VP_PROOF(mat_float_row) { hist2<float, row2_type, W, once>();}
VP_PROOF(mat_int_row_sub) { hist2<int, row2_type, K, once>();}
VP_PROOF(mat_int_row_added) { hist2<int, row2_type, W, added>();}
VP_PROOF(mat_double_row_again) { hist2<double, row2_type, W, twice>();}
template <typename T, int H> void hist_const()
{
  I n = vp_len("n", 1, M1), num = vp_int("num", 3, 1 << 20), b = vp_int("b", 0, num - 1), lo = vp_int("lo", -1000, 1000), w = vp_int("w", 1, 2000);
  vec<T>(how<H>(), n, "x", [=](auto const &x) {
    Histogram<const_Vector, T> h(T(lo), T(lo + w), num);
    const_Vector<scalar_i> q = h(x);
    unsigned want = 0;
    for (I i = 0; i < n; ++i) want += in_bin(T(lo), T(lo + w), num, x.get(i), b);
    vp_assert(unsigned(q.get(b)) == want, "bin b counts exactly the elements that belong to it");
  });
}
VP_PROOF(vec_short_range) { hist_const<short, W>();}
VP_PROOF(vec_int_range) { hist_const<int, R>();}
VP_PROOF(vec_unsigned_range)
{
  I n = vp_len("n", 1, M1), num = vp_int("num", 3, 1 << 20), b = vp_int("b", 0, num - 1);
  unsigned lo, hi; range(lo, hi);
  vec<unsigned>(how<W>(), n, "x", [=](auto const &x) {
    Histogram<const_Vector, unsigned> h(lo, hi, num);
    const_Vector<scalar_i> q = h(x);
    unsigned want = 0;
    for (I i = 0; i < n; ++i) want += in_bin(lo, hi, num, x.get(i), b);
    vp_assert(unsigned(q.get(b)) == want, "bin b counts exactly the elements that belong to it");
  });
}
