// C09: FIR filters.  The filter's state stands for the input seen so far: y(n) = sum over k of h(k) x(n*D - k) over the
// concatenation of all inputs since construction or reset, for every kernel, decimation and history.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/math.hpp>
#include <vsip/impl/signal/types.hpp>
#include <ovxx/aligned_array.hpp>
#include <ovxx/dispatch.hpp>
// (the contracts state the filter's invariant over its private members; nothing of the class is changed)
#define private public
#define protected public
#include <ovxx/signal/fir.hpp>
#include <vsip/impl/signal/fir.hpp>
#undef private
#undef protected
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_blas.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;

inline I klen(symmetry_type s, I c) { return s == nonsym ? c : s == sym_even_len_odd ? 2 * c - 1 : 2 * c;}
// (in place: the branch belongs to the loop that sums)
#define KIDX(s, c, k) ((s) == nonsym || (k) < (c) ? (k) : (s) == sym_even_len_odd ? 2 * (c) - 2 - (k) : 2 * (c) - 1 - (k))

template <typename T, symmetry_type S, obj_state C> ovxx::signal::Fir<T, S, C> &backend(vsip::Fir<T, S, C> &fir)
{ return *static_cast<ovxx::signal::Fir<T, S, C> *>(fir.backend_.get());}

// one step of the filter from an arbitrary state (s inputs to skip; hist: the m-s inputs before)
// D: decimation, 0: any
template <typename T, symmetry_type S, obj_state C, int HK = W, int HI = W, int HO = W, bool pub = false> void step(I Dfix)
{
  I c = vp_len("c", 1, M1), N = vp_len("N", 1, M1), D = Dfix ? Dfix : vp_int("D", 1, M1);
  I M = klen(S, c), m = M - 1;
  vp_assume((M > D) & (N >= m) & (c > I(S == nonsym)));
  I P = (N + D - 1) / D;
  // the state
  I s = C == state_save ? vp_int("skip", 0, D - 1) : 0;
  bool used = C == state_save && vp_int("used", 0, 1);
#ifdef VP_NATIVE
  if (N % D == 0 || !used) s = 0;
#endif
  I saved = used ? m - s : 0;
  vp_assume(used | (s == 0));
  if (N % D == 0) vp_assume(s == 0);
  vec<T>(how<HK>(), c, "h", [=](auto const &h) { vec<T>(how<HI>(), N, "x", [=](auto const &x) { vec<T>(how<HO>(), P, "y", [=](auto const &y) {
    vsip::Fir<T, S, C> fir(h, N, D);
    vp_assert((I(fir.kernel_size()) == M) & (I(fir.filter_order()) == M) & (I(fir.input_size()) == N) & (I(fir.output_size()) == P)
      & (I(fir.decimation()) == D) & (fir.continuous_filtering() == C), "the object reports its parameters");
    auto &f = backend<T, S, C>(fir);
    S1<T> hist_(m + 1, "hist"); auto &hist = hist_.v;
    if (C == state_save && saved)
    {
      f.skip_ = s; f.state_saved_ = saved;
      for (I i = 0; i < saved; ++i) f.state_.put(i, hist.get(i));
    }
    I got = fir(x, y);
    // outputs
    I want = (N - s + D - 1) / D;
    vp_assert(got == want, "one output for every D-th input");
    I n = vp_int("n", 0, want - 1), p = s + n * D;
    T sum = T();
    if (p < m)
    {
      for (I t = 0; t <= p; ++t) sum += h.get(KIDX(S, c, p - t)) * x.get(t);
      if (saved) { T o = T(); for (I t = 0; t < m - p; ++t) o += h.get(KIDX(S, c, m - t)) * hist.get(n * D + t); sum += o;}
    }
    else for (I t = 0; t <= m; ++t) sum += h.get(KIDX(S, c, m - t)) * x.get(p - m + t);
    vp_assert(same(y.get(n), sum), "y(n) = sum over k of h(k) x(n*D - k) over the inputs seen so far");
    if (C == state_save)
    {
      I s1 = s + want * D - N, k = vp_int("k", 0, M1);
      vp_assert(I(f.skip_) == s1 & I(f.state_saved_) == m - s1, "the state accounts for every input");
      vp_assume(k < m - s1);
      vp_assert(same(f.state_.get(k), x.get(N - (m - s1) + k)), "the state holds the last inputs");
      fir.reset();
      vp_assert(f.skip_ == 0 & f.state_saved_ == 0, "reset forgets the inputs seen so far");
    }
    else vp_assert(f.skip_ == 0 & f.state_saved_ == 0, "no state is kept");
  });});});
}
// two inputs in a row through the public interface (a copy of the filter goes its own way)
template <typename T, symmetry_type S, bool cp> void twice(I Dfix)
{
  I c = vp_len("c", 1, M1), N = vp_len("N", 1, M1), D = Dfix ? Dfix : vp_int("D", 1, M1);
  I M = klen(S, c), m = M - 1;
  vp_assume((M > D) & (N >= m) & (c > I(S == nonsym)));
  I P = (N + D - 1) / D, s = P * D - N;
  S1<T> h_(c, "h"), x0_(N, "x0"), x_(N, "x"), z_(N, "z"), y0_(P, "y0"), y_(P, "y");
  auto &h = h_.v; auto &x0 = x0_.v; auto &x = x_.v; auto &y = y_.v;
  vsip::Fir<T, S, state_save> fir(h, N, D);
  vp_assert(I(fir(x0, y0_.v)) == P, "the first input gives one output for every D-th element");
  I got;
  if (cp)
  {
    vsip::Fir<T, S, state_save> other(fir);
    fir(z_.v, y0_.v);
    got = other(x, y);
  }
  else got = fir(x, y);
  I want = (N - s + D - 1) / D;
  vp_assert(got == want, "one output for every D-th input");
  I n = vp_int("n", 0, want - 1), p = s + n * D;
  T sum = T();
  if (p < m)
  {
    for (I t = 0; t <= p; ++t) sum += h.get(KIDX(S, c, p - t)) * x.get(t);
    T o = T(); for (I t = 0; t < m - p; ++t) o += h.get(KIDX(S, c, m - t)) * x0.get(N - (m - s) + n * D + t); sum += o;
  }
  else for (I t = 0; t <= m; ++t) sum += h.get(KIDX(S, c, m - t)) * x.get(p - m + t);
  vp_assert(same(y.get(n), sum), "y(n) = sum over k of h(k) x(n*D - k) across two inputs");
}
#define F(name, D, ...) VP_PROOF(fir_##name) { step<__VA_ARGS__>(D);}
F(save, 1, float, nonsym, state_save)
F(nosave, 1, float, nonsym, state_no_save)
F(save_d2, 2, float, nonsym, state_save)
F(nosave_d3, 3, float, nonsym, state_no_save)
F(save_d, 0, float, nonsym, state_save)
F(nosave_d, 0, float, nonsym, state_no_save)
F(odd_save, 1, float, sym_even_len_odd, state_save)
F(odd_nosave_d2, 2, float, sym_even_len_odd, state_no_save)
F(even_save_d3, 3, double, sym_even_len_even, state_save)
F(even_nosave, 1, float, sym_even_len_even, state_no_save)
F(c_save_d2, 2, C, nonsym, state_save)
F(c_odd_save, 1, C, sym_even_len_odd, state_save)
F(i_save_d2, 2, unsigned, nonsym, state_save)
F(save_s, 1, float, nonsym, state_save, R, R, R)
F(save_r, 2, float, nonsym, state_save, r, r, r)
F(nosave_s, 1, float, nonsym, state_no_save, W, r, R)

#define G(name, D, ...) VP_PROOF(fir2_##name) { twice<__VA_ARGS__>(D);}
G(plain, 1, float, nonsym, false)
G(d2, 2, float, nonsym, false)
G(d, 0, float, nonsym, false)
G(odd_d3, 3, float, sym_even_len_odd, false)
G(copy, 1, float, nonsym, true)
G(copy_d2, 2, float, sym_even_len_even, true)
