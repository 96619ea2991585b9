// vp_how.hpp -- operands of every kind of placement in memory (include after vp_views.hpp, vp_assign.hpp)
#ifndef VP_HOW_HPP
#define VP_HOW_HPP
using namespace vp;
// ---- strided operands.  A matrix operand of m x n elements is
//  B: a rectangular block of a larger matrix, R: every t-th row, r: the rows in reverse, K: every t-th column,
//  k: the columns in reverse, T: the transpose of an n x m matrix, W: whole
#ifdef VP_NATIVE
static I const TM = 4;
#else
static I const TM = M2;
#endif
enum { W, B, R, r, K, k, T, Zs };   // Zs: a vector of stride zero
template <int S> struct how {};
template <typename E, typename O, typename F> void mat(how<W>, I m, I n, char const *nm, F f) { S2<E, O> a(m, n, nm); f(a.v);}
template <typename E, typename O, typename F> void mat(how<B>, I m, I n, char const *nm, F f)
{
  I x = vp_int("block.x", 0, TM), y = vp_int("block.y", 0, TM), p = vp_int("block.p", 0, TM), q = vp_int("block.q", 0, TM);
  S2<E, O> a(m + x + p, n + y + q, nm);
  f(a.v(Domain<2>(Domain<1>(x, 1, m), Domain<1>(y, 1, n))));
}
template <typename E, typename O, typename F> void mat(how<R>, I m, I n, char const *nm, F f)
{
  I t = vp_int("row.t", 2, TM), g = vp_int("row.g", 0, t - 1);
  S2<E, O> a(m * t, n, nm);
  f(a.v(Domain<2>(Domain<1>(g, t, m), n)));
}
template <typename E, typename O, typename F> void mat(how<r>, I m, I n, char const *nm, F f)
{ S2<E, O> a(m, n, nm); f(a.v(Domain<2>(Domain<1>(m - 1, -1, m), n)));}
template <typename E, typename O, typename F> void mat(how<K>, I m, I n, char const *nm, F f)
{
  I t = vp_int("col.t", 2, TM), g = vp_int("col.g", 0, t - 1);
  S2<E, O> a(m, n * t, nm);
  f(a.v(Domain<2>(m, Domain<1>(g, t, n))));
}
template <typename E, typename O, typename F> void mat(how<k>, I m, I n, char const *nm, F f)
{ S2<E, O> a(m, n, nm); f(a.v(Domain<2>(m, Domain<1>(n - 1, -1, n))));}
template <typename E, typename O, typename F> void mat(how<T>, I m, I n, char const *nm, F f) { S2<E, O> a(n, m, nm); f(a.v.transpose());}
// a vector operand of n elements: whole, every t-th element, or reversed
template <typename E, typename F> void vec(how<W>, I n, char const *nm, F f) { S1<E> a(n, nm); f(a.v);}
template <typename E, typename F> void vec(how<R>, I n, char const *nm, F f)
{
  I t = vp_int("vec.t", 2, TM), g = vp_int("vec.g", 0, t - 1);
  S1<E> a(n * t, nm); f(a.v(Domain<1>(g, t, n)));
}
template <typename E, typename F> void vec(how<r>, I n, char const *nm, F f) { S1<E> a(n, nm); f(a.v(Domain<1>(n - 1, -1, n)));}

template <typename E, typename F> void vec(how<Zs>, I n, char const *nm, F f) { S1<E> a(1, nm); f(a.v(Domain<1>(0, 0, n)));}
#endif
