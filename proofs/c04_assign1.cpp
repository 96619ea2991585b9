// C04: assignment evaluates the right-hand side element by element, writes exactly the elements the left-hand side
// selects, and changes nothing else (one-dimensional part)
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
using namespace vp;
typedef std::complex<float> C;

// whole vector <- expression
template <typename T, typename E, typename S> void entire(E e, S spec)
{
  I n = vp_len("n", 1, M1); S1<T> a(n, "a"), b(n, "b"), c(n, "c"); T s = any<T>("s");
  I k = vp_int("k", 0, n - 1);
  T old = a.v.get(k), want = spec(a.v.get(k), b.v.get(k), c.v.get(k), s), bo = b.v.get(k);
  e(a.v, b.v, c.v, s);
  vp_assert(same(a.v.get(k), want), "every element gets the value of the expression");
  vp_assert(same(b.v.get(k), bo), "operands are unchanged");
}
#define WHOLE(name, T, EXPR, SPEC) \
VP_PROOF(whole_##name) { entire<T>([](auto A, auto B, auto Cc, T s) { EXPR;}, [](T a, T b, T c, T s) { return T(SPEC);});}
WHOLE(copy_f, float, A = B, b)
WHOLE(copy_c, C, A = B, b)
WHOLE(scalar_f, float, A = s, s)
WHOLE(scalar_c, C, A = s, s)
WHOLE(add_f, float, A = B + Cc, b + c)
WHOLE(sub_f, float, A = B - Cc, b - c)
WHOLE(mul_f, float, A = B * Cc, b * c)
WHOLE(div_f, float, A = B / Cc, b / c)
WHOLE(add_c, C, A = B + Cc, b + c)
WHOLE(mul_c, C, A = B * Cc, b * c)
WHOLE(neg_f, float, A = -B, -b)
WHOLE(scal_l, float, A = s * B, s * b)
WHOLE(scal_r, float, A = B - s, b - s)
WHOLE(fused, float, A = (B + Cc) * (B - s), (b + c) * (b - s))
WHOLE(deep, float, A = B * Cc + B / Cc - s * B, b * c + b / c - s * b)
WHOLE(self, float, A = A + B, a + b)
WHOLE(addeq, float, A += B, a + b)
WHOLE(subeq, float, A -= B, a - b)
WHOLE(muleq, float, A *= B, a * b)
WHOLE(diveq, float, A /= B, a / b)
WHOLE(addeq_s, float, A += s, a + s)
WHOLE(muleq_s, float, A *= s, a * s)
WHOLE(ma, float, A = ma(B, Cc, A), b * c + a)
WHOLE(am, float, A = am(B, Cc, A), (b + c) * a)
WHOLE(msb, float, A = msb(B, Cc, A), b * c - a)
WHOLE(sbm, float, A = sbm(B, Cc, A), (b - c) * a)
WHOLE(sq, float, A = sq(B), b * b)
WHOLE(recip, float, A = recip(B), 1.f / b)
WHOLE(int_mod, int, A = B & Cc, b & c)
WHOLE(conj, C, A = conj(B), C(b.real(), -b.imag()))

// max / min: one of the operands, and no operand is on the other side of it
template <int MAX> void extremum()
{
  I n = vp_len("n", 1, M1); S1<float> a(n, "a"), b(n, "b"), c(n, "c");
  I k = vp_int("k", 0, n - 1); float x = b.v.get(k), y = c.v.get(k);
  if (MAX) a.v = max(b.v, c.v); else a.v = min(b.v, c.v);
  float r = a.v.get(k);
  vp_assert(same(r, x) | same(r, y), "max/min yields one of its operands");
  if ((x == x) & (y == y))
    vp_assert(MAX ? !(r < x) & !(r < y) : !(x < r) & !(y < r), "max/min bounds both operands");
}
VP_PROOF(whole_max) { extremum<1>();}
VP_PROOF(whole_min) { extremum<0>();}

// subview <- subview expression, with any domains on both sides
template <typename T, typename E, typename S> void sub(E e, S spec)
{
  I n = vp_len("n", 1, M1), r = vp_len("r", 1, M1); S1<T> a(n, "a"), b(r, "b"); T s = any<T>("s");
  I f, t, m, g, u, l;
  Domain<1> d = some_domain(n, M1, f, t, m); vp_assume(t != 0);
#ifdef VP_NATIVE
  g = vp_int("src.first", 0, r - 1); l = m; u = m == 1 ? 1 : vp_int("src.stride", -(g / (m - 1)), (r - 1 - g) / (m - 1));
#else
  g = vp_int("src.first", 0, r - 1); u = vp_int("src.stride", -M1, M1); l = m;
#endif
  vp_assume((g + (m - 1) * u >= 0) & (g + (m - 1) * u < r));
  I k = vp_int("k", 0, m - 1), q = outside(n, f, t, m);
  T want = spec(a.v.get(f + k * t), b.v.get(g + k * u), s), old = a.v.get(q);
  e(a.v(d), b.v(Domain<1>(g, u, l)), s);
  vp_assert(same(a.v.get(f + k * t), want), "every selected element gets its value");
  vp_assert(same(a.v.get(q), old), "no other element changes");
}
#define SUB(name, T, EXPR, SPEC) \
VP_PROOF(sub_##name) { sub<T>([](auto A, auto B, T s) { EXPR;}, [](T a, T b, T s) { return T(SPEC);});}
SUB(copy_f, float, A = B, b)
SUB(copy_c, C, A = B, b)
SUB(scalar_f, float, A = s, s)
SUB(add_f, float, A = B + s, b + s)
SUB(addeq_f, float, A += B, a + b)
SUB(fused, float, A = A * B - s, a * b - s)
