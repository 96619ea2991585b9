// vp_views.hpp -- contract helpers over the public view interface of /repo
#ifndef VP_VIEWS_HPP
#define VP_VIEWS_HPP
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/dense.hpp>
#ifndef VP_LIBRARY
#define VP_LIBRARY
#endif
#include "vp.hpp"
namespace vp
{
using namespace vsip;
typedef std::int64_t I;
static I const M1 = I(1) << 24, M2 = I(1) << 20, M3 = I(1) << 16;

// multi-indices
template <int D> struct Ix;
template <> struct Ix<1> { I i; Ix(I a) : i(a) {} };
template <> struct Ix<2> { I i, j; Ix(I a, I b) : i(a), j(b) {} };
template <> struct Ix<3> { I i, j, k; Ix(I a, I b, I c) : i(a), j(b), k(c) {} };
inline bool eq(Ix<1> a, Ix<1> b) { return a.i == b.i;}
inline bool eq(Ix<2> a, Ix<2> b) { return (a.i == b.i) & (a.j == b.j);}
inline bool eq(Ix<3> a, Ix<3> b) { return (a.i == b.i) & (a.j == b.j) & (a.k == b.k);}
template <typename V> auto get(V const &v, Ix<1> x) { return v.get(x.i);}
template <typename V> auto get(V const &v, Ix<2> x) { return v.get(x.i, x.j);}
template <typename V> auto get(V const &v, Ix<3> x) { return v.get(x.i, x.j, x.k);}
template <typename V, typename T> void put(V &v, Ix<1> x, T t) { v.put(x.i, t);}
template <typename V, typename T> void put(V &v, Ix<2> x, T t) { v.put(x.i, x.j, t);}
template <typename V, typename T> void put(V &v, Ix<3> x, T t) { v.put(x.i, x.j, x.k, t);}
// an arbitrary valid index of a view of the given sizes (assumes it is not empty)
inline Ix<1> some(char const *n, Ix<1> s) { return Ix<1>(vp_int(n, 0, s.i - 1));}
inline Ix<2> some(char const *n, Ix<2> s)
{ I i = vp_int(n, 0, s.i - 1), j = vp_int(n, 0, s.j - 1); return Ix<2>(i, j);}
inline Ix<3> some(char const *n, Ix<3> s)
{ I i = vp_int(n, 0, s.i - 1), j = vp_int(n, 0, s.j - 1), k = vp_int(n, 0, s.k - 1); return Ix<3>(i, j, k);}
template <typename V> bool has_size(V const &v, Ix<1> s) { return (I(v.size()) == s.i) & (I(v.length()) == s.i) & (I(v.size(0)) == s.i);}
template <typename V> bool has_size(V const &v, Ix<2> s) { return (I(v.size(0)) == s.i) & (I(v.size(1)) == s.j) & (I(v.size()) == s.i * s.j);}
template <typename V> bool has_size(V const &v, Ix<3> s)
{ return (I(v.size(0)) == s.i) & (I(v.size(1)) == s.j) & (I(v.size(2)) == s.k);}
// an arbitrary domain inside {0..n-1}: every first / stride (including negative and zero strides) / length
inline Domain<1> some_domain(I n, I bound, I &f, I &s, I &m)
{
  f = vp_int("dom.first", 0, n - 1);
#ifdef VP_NATIVE   // same set of domains, generated rather than filtered
  m = vp_int("dom.length", 1, n + 1); s = m == 1 ? vp_int("dom.stride", -n, n) : vp_int("dom.stride", -(f / (m - 1)), (n - 1 - f) / (m - 1));
#else
  s = vp_int("dom.stride", -bound, bound); m = vp_int("dom.length", 1, bound);
#endif
  I l = f + (m - 1) * s;
  vp_assume((f < n) & (l >= 0) & (l < n));
  return Domain<1>(f, s, m);
}
// views over user storage: every initial content
template <typename T> struct U1
{
  I n; T *p; Dense<1, T> b; Vector<T> v;
  U1(char const *name = "n") : n(vp_len(name, 1, M1)), p(array<T>("a", n)), b(Domain<1>(n), p), v(b) { b.admit(true);}
};
template <typename T, typename O = row2_type> struct U2
{
  I r, c; T *p; Dense<2, T, O> b; Matrix<T, Dense<2, T, O> > v;
  U2() : r(vp_len("rows", 1, M2)), c(vp_len("cols", 1, M2)), p(array<T>("a", r * c)), b(Domain<2>(r, c), p), v(b) { b.admit(true);}
  U2(I r_, I c_) : r(r_), c(c_), p(array<T>("a", r * c)), b(Domain<2>(r, c), p), v(b) { b.admit(true);}
};
template <typename T, typename O = row3_type> struct U3
{
  I d0, d1, d2; T *p; Dense<3, T, O> b; Tensor<T, Dense<3, T, O> > v;
  U3() : d0(vp_len("d0", 1, M3)), d1(vp_len("d1", 1, M3)), d2(vp_len("d2", 1, M3)), p(array<T>("a", d0 * d1 * d2)), b(Domain<3>(d0, d1, d2), p), v(b) { b.admit(true);}
};
}
#endif
