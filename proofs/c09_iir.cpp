// C09: IIR filters.  A cascade of second-order sections in direct form II; the state w carries over from call to call.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/math.hpp>
#include <vsip/impl/signal/types.hpp>
// (the contracts quantify over the filter's state; nothing of the class is changed)
#define private public
#include <vsip/impl/signal/iir.hpp>
#undef private
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_blas.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;

template <typename T> struct coef
{
  T b0, b1, b2, a1, a2, w1, w2;
  T operator()(T x)
  {
    T w0 = x - a1 * w1 - a2 * w2;
    T y = b0 * w0 + b1 * w1 + b2 * w2;
    w2 = w1; w1 = w0;
    return y;
  }
};
// K sections, any number of samples, any state
template <typename T, obj_state C, int K, typename O = row2_type, int HI = W, int HO = W> void samples()
{
  I N = vp_len("N", 1, M1);
  S2<T, O> b(K, 3, "b"), a(K, 2, "a"), w(K, 2, "w");
  vec<T>(how<HI>(), N, "x", [&](auto const &x) { vec<T>(how<HO>(), N, "y", [&](auto const &y) {
    Iir<T, C> iir(b.v, a.v, N);
    vp_assert((I(iir.kernel_size()) == 2 * K) & (I(iir.filter_order()) == 2 * K) & (I(iir.input_size()) == N) & (I(iir.output_size()) == N)
      & (Iir<T, C>::continuous_filtering == C), "the object reports its parameters");
    coef<T> s[K];
    bool used = C == state_save && vp_int("used", 0, 1);
    for (int k = 0; k < K; ++k)
    {
      s[k].b0 = b.v.get(k, 0); s[k].b1 = b.v.get(k, 1); s[k].b2 = b.v.get(k, 2); s[k].a1 = a.v.get(k, 0); s[k].a2 = a.v.get(k, 1);
      s[k].w1 = s[k].w2 = T();
      if (used)
      {
        iir.w_.put(k, 0, s[k].w1 = w.v.get(k, 0)); iir.w_.put(k, 1, s[k].w2 = w.v.get(k, 1));
      }
    }
    I n = vp_int("n", 0, N - 1);
    iir(x, y);
    T v = T();
    for (I i = 0; i < n; ++i) { v = x.get(i); for (int k = 0; k < K; ++k) v = s[k](v);}
    v = x.get(n); for (int k = 0; k < K; ++k) v = s[k](v);
    vp_assert(same(y.get(n), v), "y(n) is the output of the last section for the n-th sample");
    if (n == N - 1)
      for (int k = 0; k < K; ++k)
        vp_assert(same(iir.w_.get(k, 0), C == state_save ? s[k].w1 : T()) & same(iir.w_.get(k, 1), C == state_save ? s[k].w2 : T()),
                  "the state afterwards is that of the last sample, or zero if no state is kept");
  });});
}
#define P(name, ...) VP_PROOF(iir_##name) { samples<__VA_ARGS__>();}
P(save1, float, state_save, 1)
P(nosave1, float, state_no_save, 1)
P(save2, float, state_save, 2)
P(nosave2, float, state_no_save, 2)
P(d_save2, double, state_save, 2)
P(col2, float, state_save, 2, col2_type)
P(save1_s, float, state_save, 1, row2_type, R, r)
P(nosave2_s, double, state_no_save, 2, row2_type, r, R)
// any number of sections, one sample, any state
template <typename T, obj_state C> void sections()
{
  I K = vp_len("K", 1, 1 << 16), q = vp_int("q", 0, K - 1);
  S2<T> b(K, 3, "b"), a(K, 2, "a"), w(K, 2, "w");
  S1<T> x(1, "x"), y(1, "y");
  Iir<T, C> iir(b.v, a.v, 1);
  if (C == state_save) iir.w_ = w.v;
  iir(x.v, y.v);
  T v = x.v.get(0), w0 = T(), wq = T();
  for (I k = 0; k < K; ++k)
  {
    T w1 = C == state_save ? w.v.get(k, 0) : T(), w2 = C == state_save ? w.v.get(k, 1) : T();
    w0 = v - a.v.get(k, 0) * w1 - a.v.get(k, 1) * w2;
    v = b.v.get(k, 0) * w0 + b.v.get(k, 1) * w1 + b.v.get(k, 2) * w2;
  }
  vp_assert(same(y.v.get(0), v), "y(n) is the output of the last section");
  vp_assert(same(iir.w_.get(q, 1), C == state_save ? w.v.get(q, 0) : T()), "the state of every section moves on by one sample");
}
VP_BOUNDED(iir_c_save1) { samples<C, state_save, 1>();}
#define Q(name, ...) VP_PROOF(iir_sections_##name) { sections<__VA_ARGS__>();}
Q(save, float, state_save)
Q(nosave, float, state_no_save)
Q(d_save, double, state_save)
// copies and assignments of a filter go their own way
template <bool assign> void own()
{
  I N = vp_len("N", 1, M1), N2 = vp_len("N2", 1, M1), n = vp_int("n", 0, N - 1);
  typedef float T;
  S2<T> b(1, 3, "b"), a(1, 2, "a"), w(1, 2, "w"), b2(1, 3, "b2"), a2(1, 2, "a2");
  S1<T> x(N, "x"), y(N, "y"), z(N, "z");
  Iir<T, state_save> one(b.v, a.v, N);
  one.w_ = w.v;
  Iir<T, state_save> two(assign ? Iir<T, state_save>(b2.v, a2.v, N2) : one);
  if (assign) two = one;
  vp_assert((I(two.input_size()) == N) & (I(two.output_size()) == N) & (I(two.kernel_size()) == 2), "the copy takes input of the same length");
  one(z.v, y.v);
  two(x.v, y.v);
  coef<T> s = { b.v.get(0, 0), b.v.get(0, 1), b.v.get(0, 2), a.v.get(0, 0), a.v.get(0, 1), w.v.get(0, 0), w.v.get(0, 1)};
  T v = T();
  for (I i = 0; i < n; ++i) s(x.v.get(i));
  v = s(x.v.get(n));
  vp_assert(same(y.v.get(n), v), "the copy continues from the state at the time of copying");
}
VP_PROOF(iir_copy) { own<false>();}
VP_PROOF(iir_assign) { own<true>();}
VP_PROOF(iir_reset)
{
  I N = vp_len("N", 1, M1), n = vp_int("n", 0, N - 1);
  typedef float T;
  S2<T> b(1, 3, "b"), a(1, 2, "a");
  S1<T> x(N, "x"), y(N, "y"), z(N, "z");
  Iir<T, state_save> f(b.v, a.v, N);
  f(z.v, y.v);
  f.reset();
  f(x.v, y.v);
  coef<T> s = { b.v.get(0, 0), b.v.get(0, 1), b.v.get(0, 2), a.v.get(0, 0), a.v.get(0, 1), 0, 0};
  T v = T();
  for (I i = 0; i < n; ++i) s(x.v.get(i));
  v = s(x.v.get(n));
  vp_assert(same(y.v.get(n), v), "after reset the filter starts afresh");
}
