// C08: convolution and correlation.  Every output element is the defining sum over the region of support, for every
// kernel, input length, decimation, support region, symmetry, bias, stride and storage order.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/impl/signal/conv.hpp>
#include <vsip/impl/signal/corr.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
typedef std::complex<double> Z;

// ---- the kernel of a convolution, from its coefficients
inline I klen(symmetry_type s, I c) { return s == nonsym ? c : s == sym_even_len_odd ? 2 * c - 1 : 2 * c;}
inline I kidx(symmetry_type s, I c, I k) { return k < c ? k : s == sym_even_len_odd ? 2 * c - 2 - k : 2 * c - 1 - k;}
inline I first(support_region_type r, I M) { return r == support_full ? 0 : r == support_same ? M / 2 : M - 1;}
inline I olen(support_region_type r, I M, I N, I D)
{ return r == support_full ? (N + M - 2) / D + 1 : r == support_same ? (N - 1) / D + 1 : (N - M) / D + 1;}

template <typename T, symmetry_type S, support_region_type R, int HC = W, int HI = W, int HO = W> void conv1(I Dfix = 0)
{
  I c = vp_len("c", 1, M1), N = vp_len("N", 1, M1), D = Dfix ? Dfix : vp_int("D", 1, M1);
  I M = klen(S, c);
  vp_assume(R == support_min || S == nonsym ? M <= N : c <= 2 * N);
  I P = olen(R, M, N, D);
  vec<T>(how<HC>(), c, "c", [=](auto const &cv) { vec<T>(how<HI>(), N, "x", [=](auto const &in) { vec<T>(how<HO>(), P, "y", [=](auto const &out) {
    Convolution<const_Vector, S, R, T> conv(cv, Domain<1>(N), D);
    vp_assert((I(conv.kernel_size().size()) == M) & (I(conv.filter_order().size()) == M) & (I(conv.input_size().size()) == N)
      & (conv.symmetry() == S) & (conv.support() == R) & (I(conv.decimation()) == D), "the object reports its parameters");
    vp_assert(I(conv.output_size().size()) == P, "output size");
    I n = vp_int("n", 0, P - 1);
    I o = n * D + first(R, M);
    T want = T();
    for (I k = 0; k < M; ++k) if ((k <= o) & (o - k < N)) want += cv.get(kidx(S, c, k)) * in.get(o - k);
    conv(in, out);
    vp_assert(same(out.get(n), want), "y(n) = sum over k of h(k) x(n*D + offset - k), x zero outside its support");
  });});});
}
#define CV(name, ...) VP_PROOF(conv_##name) { conv1<__VA_ARGS__>();}
CV(full, float, nonsym, support_full)
CV(same, float, nonsym, support_same)
CV(min, float, nonsym, support_min)
CV(odd_full, float, sym_even_len_odd, support_full)
CV(odd_same, float, sym_even_len_odd, support_same)
CV(odd_min, float, sym_even_len_odd, support_min)
CV(even_full, float, sym_even_len_even, support_full)
CV(even_same, float, sym_even_len_even, support_same)
CV(even_min, float, sym_even_len_even, support_min)
CV(c_full, C, nonsym, support_full)
CV(c_same, C, nonsym, support_same)
CV(c_min, C, nonsym, support_min)
CV(c_odd_same, C, sym_even_len_odd, support_same)
CV(i_full, unsigned, nonsym, support_full)
CV(d_min, double, sym_even_len_even, support_min)
CV(full_s, float, nonsym, support_full, R, R, R)
CV(same_s, float, nonsym, support_same, W, R, r)
CV(min_s, float, nonsym, support_min, r, r, R)
CV(even_full_s, float, sym_even_len_even, support_full, R, r, W)

template <typename T, symmetry_type S, support_region_type R, typename OC = row2_type, typename OI = row2_type, typename OO = row2_type> void conv2(I D)
{
  I c0 = vp_len("c0", 1, M2), c1 = vp_len("c1", 1, M2), N0 = vp_len("N0", 1, M2), N1 = vp_len("N1", 1, M2);
  I m0 = klen(S, c0), m1 = klen(S, c1);
  if (R == support_min || S == nonsym) vp_assume((m0 <= N0) & (m1 <= N1));
  else vp_assume((c0 <= N0) & (c1 <= N1));
  I P0 = olen(R, m0, N0, D), P1 = olen(R, m1, N1, D);
  S2<T, OC> cm(c0, c1, "c"); S2<T, OI> in(N0, N1, "x"); S2<T, OO> out(P0, P1, "y");
  Convolution<const_Matrix, S, R, T> conv(cm.v, Domain<2>(N0, N1), D);
  vp_assert((I(conv.output_size()[0].size()) == P0) & (I(conv.output_size()[1].size()) == P1), "output size");
  vp_assert((I(conv.kernel_size()[0].size()) == m0) & (I(conv.kernel_size()[1].size()) == m1), "kernel size");
  I r = vp_int("r", 0, P0 - 1), c = vp_int("cc", 0, P1 - 1);
  I o0 = r * D + first(R, m0), o1 = c * D + first(R, m1);
  T want = T();
  for (I i = 0; i < m0; ++i)
    for (I j = 0; j < m1; ++j)
      if ((i <= o0) & (o0 - i < N0) & (j <= o1) & (o1 - j < N1))
        want += cm.v.get(kidx(S, c0, i), kidx(S, c1, j)) * in.v.get(o0 - i, o1 - j);
  conv(in.v, out.v);
  vp_assert(same(out.v.get(r, c), want), "y(r,c) = sum over the kernel of h x");
}
#define CM(name, D, ...) VP_PROOF(conv2_##name) { conv2<__VA_ARGS__>(D);}
CM(full, 1, float, nonsym, support_full)
CM(same, 1, float, nonsym, support_same)
CM(min, 1, float, nonsym, support_min)
CM(full_d2, 2, float, nonsym, support_full)
CM(same_d3, 3, float, nonsym, support_same)
CM(min_d2, 2, float, nonsym, support_min)
CM(odd_full, 1, float, sym_even_len_odd, support_full)
CM(odd_min, 1, float, sym_even_len_odd, support_min)
CM(even_same, 1, float, sym_even_len_even, support_same)
CM(even_min, 2, float, sym_even_len_even, support_min)
CM(full_col, 1, float, nonsym, support_full, col2_type, row2_type, col2_type)
CM(same_col, 1, float, nonsym, support_same, row2_type, col2_type, row2_type)
CM(c_same, 1, C, nonsym, support_same)
CM(c_min, 2, C, nonsym, support_min)

// ---- correlation
template <typename T> T cj(T x) { return x;}
template <typename T> std::complex<T> cj(std::complex<T> x) { return std::conj(x);}
inline I cfirst(support_region_type r, I M) { return r == support_full ? M - 1 : r == support_same ? M / 2 : 0;}
template <typename T, support_region_type R, int HR = W, int HI = W, int HO = W> void corr1(bias_type b)
{
  I M = vp_len("M", 1, M1), N = vp_len("N", 1, M1);
  vp_assume(M <= N);
  I P = olen(R, M, N, 1);
  vec<T>(how<HR>(), M, "r", [=](auto const &ref) { vec<T>(how<HI>(), N, "x", [=](auto const &in) { vec<T>(how<HO>(), P, "y", [=](auto const &out) {
    Correlation<const_Vector, R, T> corr((Domain<1>(M)), Domain<1>(N));
    vp_assert((I(corr.reference_size().size()) == M) & (I(corr.input_size().size()) == N) & (corr.support() == R), "the object reports its parameters");
    vp_assert(I(corr.output_size().size()) == P, "output size");
    I n = vp_int("n", 0, P - 1);
    I o = n - cfirst(R, M);
    T want = T();
    for (I k = 0; k < M; ++k) if ((o + k >= 0) & (o + k < N)) want += ref.get(k) * cj(in.get(o + k));
    corr(b, ref, in, out);
    if (b == unbiased)
    {
      I s = M;
      if (R == support_full) s = n < M - 1 ? n + 1 : n >= N ? N + M - 1 - n : M;
      if (R == support_same) s = n < M / 2 ? n + (M + 1) / 2 : n >= N - M / 2 ? N - 1 + (M + 1) / 2 - n : M;
      want /= T(length_type(s));
    }
    vp_assert(same(out.get(n), want), "y(n) = sum over k of ref(k) conj(x(n + k - offset)), x zero outside its support");
  });});});
}
#define CR(name, b, ...) VP_PROOF(corr_##name) { corr1<__VA_ARGS__>(b);}
CR(full, biased, float, support_full)
CR(same, biased, float, support_same)
CR(min, biased, float, support_min)
CR(full_u, unbiased, float, support_full)
CR(same_u, unbiased, float, support_same)
CR(min_u, unbiased, float, support_min)
CR(c_full, biased, C, support_full)
CR(c_same, biased, C, support_same)
CR(c_min, biased, C, support_min)
CR(c_full_u, unbiased, C, support_full)
CR(d_same_u, unbiased, double, support_same)
CR(full_s, biased, float, support_full, R, r, R)
CR(same_s, unbiased, float, support_same, r, R, W)
CR(min_s, biased, float, support_min, R, R, r)

template <typename T, support_region_type R, typename OC = row2_type, typename OI = row2_type, typename OO = row2_type> void corr2(bias_type b)
{
  I m0 = vp_len("m0", 1, M2), m1 = vp_len("m1", 1, M2), N0 = vp_len("N0", 1, M2), N1 = vp_len("N1", 1, M2);
  vp_assume((m0 <= N0) & (m1 <= N1));
  I P0 = olen(R, m0, N0, 1), P1 = olen(R, m1, N1, 1);
  S2<T, OC> ref(m0, m1, "r"); S2<T, OI> in(N0, N1, "x"); S2<T, OO> out(P0, P1, "y");
  Correlation<const_Matrix, R, T> corr(Domain<2>(m0, m1), Domain<2>(N0, N1));
  vp_assert((I(corr.output_size()[0].size()) == P0) & (I(corr.output_size()[1].size()) == P1), "output size");
  I r = vp_int("r", 0, P0 - 1), c = vp_int("c", 0, P1 - 1);
  I o0 = r - cfirst(R, m0), o1 = c - cfirst(R, m1);
  T want = T();
  for (I i = 0; i < m0; ++i)
    for (I j = 0; j < m1; ++j)
      if ((o0 + i >= 0) & (o0 + i < N0) & (o1 + j >= 0) & (o1 + j < N1))
        want += ref.v.get(i, j) * cj(in.v.get(o0 + i, o1 + j));
  corr(b, ref.v, in.v, out.v);
  if (b == unbiased)
  {
    // the number of rows and of columns of the reference over the support of x
    auto terms = [](I n, I M, I N) -> I
    {
      if (R == support_full) return n < M - 1 ? n + 1 : n >= N ? N + M - 1 - n : M;
      if (R == support_same) return n < M / 2 ? n + M - M / 2 : n >= N - M / 2 ? N + M / 2 - n : M;
      return M;
    };
    T scale = T(1);
    scale *= T(length_type(terms(r, m0, N0)));
    scale *= T(length_type(terms(c, m1, N1)));
    want /= scale;
  }
  vp_assert(same(out.v.get(r, c), want), "y(r,c) = sum over the reference of ref conj(x)");
}
#define CN(name, b, ...) VP_PROOF(corr2_##name) { corr2<__VA_ARGS__>(b);}
CN(full, biased, float, support_full)
CN(same, biased, float, support_same)
CN(min, biased, float, support_min)
CN(full_u, unbiased, float, support_full)
CN(same_u, unbiased, float, support_same)
CN(min_u, unbiased, float, support_min)
CN(c_full, biased, C, support_full)
CN(c_same, biased, C, support_same)
CN(full_col, biased, float, support_full, col2_type, row2_type, col2_type)
CN(same_col, unbiased, float, support_same, row2_type, col2_type, row2_type)
