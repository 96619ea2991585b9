// C03: a subview is an exact alias of the elements it selects
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include "vp_views.hpp"
using namespace vp;

#include "vp_alias.hpp"
template <typename T> void vec_domain()
{
  U1<T> u; I f, s, m; Domain<1> d = some_domain(u.n, M1, f, s, m);
  alias(u.v, u.v(d), Ix<1>(m), Ix<1>(u.n), [=](Ix<1> k) { return Ix<1>(f + k.i * s);});
}
VP_PROOF(vec_domain_float) { vec_domain<float>();}
VP_PROOF(vec_domain_complex) { vec_domain<std::complex<float> >();}
VP_PROOF(vec_domain_const)
{
  U1<float> u; I f, s, m; Domain<1> d = some_domain(u.n, M1, f, s, m);
  Vector<float>::const_subview_type c = u.v.get(d);
  Ix<1> k = some("k", Ix<1>(m));
  vp_assert(has_size(c, Ix<1>(m)) & same(c.get(k.i), u.v.get(f + k.i * s)), "const subview reads the selected element");
  float x = any<float>("x"); u.v.put(f + k.i * s, x);
  vp_assert(same(c.get(k.i), x), "const subview follows the parent");
}
VP_PROOF(vec_domain_nested)
{
  U1<float> u; I f, s, m, g, t, l; Domain<1> d = some_domain(u.n, M1, f, s, m);
  Domain<1> e = some_domain(m, M1, g, t, l);
  alias(u.v, u.v(d)(e), Ix<1>(l), Ix<1>(u.n), [=](Ix<1> k) { return Ix<1>(f + (g + k.i * t) * s);});
}
// real / imaginary subviews of a complex vector, optionally of a domain of it
VP_PROOF(vec_real_imag)
{
  typedef std::complex<float> C;
  U1<C> u; I f, s, m; Domain<1> d = some_domain(u.n, M1, f, s, m);
  Vector<C>::subview_type w = u.v(d);
  typename Vector<C>::subview_type::realview_type re = w.real();
  typename Vector<C>::subview_type::imagview_type im = w.imag();
  Ix<1> k = some("k", Ix<1>(m)), q = some("q", Ix<1>(u.n));
  I h = f + k.i * s;
  vp_assert(has_size(re, Ix<1>(m)) & has_size(im, Ix<1>(m)), "size");
  vp_assert(same(re.get(k.i), u.v.get(h).real()) & same(im.get(k.i), u.v.get(h).imag()), "real and imag read the components");
  float x = any<float>("x"), y = any<float>("y"); C old = u.v.get(q.i);
  re.put(k.i, x);
  vp_assert(same(u.v.get(q.i), q.i == h ? C(x, old.imag()) : old), "put through real() changes only the real part of the element");
  old = u.v.get(q.i);
  im.put(k.i, y);
  vp_assert(same(u.v.get(q.i), q.i == h ? C(old.real(), y) : old), "put through imag() changes only the imaginary part of the element");
}
// element access through operator(): reference proxies
template <typename T> void vec_lvalue()
{
  U1<T> u; I f, s, m; Domain<1> d = some_domain(u.n, M1, f, s, m);
  auto w = u.v(d);
  Ix<1> k = some("k", Ix<1>(m)), q = some("q", Ix<1>(u.n)); I h = f + k.i * s;
  T x = any<T>("x"), y = any<T>("y"), old = u.v.get(q.i);
  w(k.i) = x;
  vp_assert(same(u.v.get(q.i), q.i == h ? x : old), "v(k) = x");
  vp_assert(same(T(w(k.i)), x), "v(k) reads");
  w(k.i) += y;
  vp_assert(same(u.v.get(q.i), q.i == h ? x + y : old), "v(k) += y");
  w(k.i) = x; w(k.i) -= y;
  vp_assert(same(u.v.get(q.i), q.i == h ? x - y : old), "v(k) -= y");
  w(k.i) = x; w(k.i) *= y;
  vp_assert(same(u.v.get(q.i), q.i == h ? x * y : old), "v(k) *= y");
}
VP_PROOF(vec_lvalue_float) { vec_lvalue<float>();}

template <typename T, typename O> void mat_row()
{
  U2<T, O> u; I i = vp_int("row", 0, M2); vp_assume(i < u.r);
  alias(u.v, u.v.row(i), Ix<1>(u.c), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(i, k.i);});
  alias(u.v, u.v(i, whole_domain), Ix<1>(u.c), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(i, k.i);});
}
template <typename T, typename O> void mat_col()
{
  U2<T, O> u; I i = vp_int("col", 0, M2); vp_assume(i < u.c);
  alias(u.v, u.v.col(i), Ix<1>(u.r), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(k.i, i);});
  alias(u.v, u.v(whole_domain, i), Ix<1>(u.r), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(k.i, i);});
}
template <typename T, typename O> void mat_diag()
{
  U2<T, O> u; I o = vp_int("offset", -M2, M2);
  vp_assume((o < u.c) & (-o < u.r));
  I n = o >= 0 ? (u.r < u.c - o ? u.r : u.c - o) : (u.r + o < u.c ? u.r + o : u.c);
  alias(u.v, u.v.diag(o), Ix<1>(n), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(k.i + (o < 0 ? -o : 0), k.i + (o > 0 ? o : 0));});
}
template <typename T, typename O> void mat_trans()
{
  U2<T, O> u;
  alias(u.v, u.v.transpose(), Ix<2>(u.c, u.r), Ix<2>(u.r, u.c), [=](Ix<2> k) { return Ix<2>(k.j, k.i);});
}
template <typename T, typename O> void mat_domain()
{
  U2<T, O> u; I f, s, m, g, t, l; Domain<1> d = some_domain(u.r, M2, f, s, m), e = some_domain(u.c, M2, g, t, l);
  alias(u.v, u.v(Domain<2>(d, e)), Ix<2>(m, l), Ix<2>(u.r, u.c), [=](Ix<2> k) { return Ix<2>(f + k.i * s, g + k.j * t);});
}
typedef std::complex<float> C;
VP_PROOF(mat_row_float_rm) { mat_row<float, row2_type>();}
VP_PROOF(mat_row_float_cm) { mat_row<float, col2_type>();}
VP_PROOF(mat_row_complex_rm) { mat_row<C, row2_type>();}
VP_PROOF(mat_col_float_rm) { mat_col<float, row2_type>();}
VP_PROOF(mat_col_float_cm) { mat_col<float, col2_type>();}
VP_PROOF(mat_diag_float_rm) { mat_diag<float, row2_type>();}
VP_PROOF(mat_diag_float_cm) { mat_diag<float, col2_type>();}
VP_PROOF(mat_trans_float_rm) { mat_trans<float, row2_type>();}
VP_PROOF(mat_trans_float_cm) { mat_trans<float, col2_type>();}
VP_PROOF(mat_domain_float_rm) { mat_domain<float, row2_type>();}
VP_PROOF(mat_domain_float_cm) { mat_domain<float, col2_type>();}
VP_PROOF(mat_domain_complex_rm) { mat_domain<C, row2_type>();}
// compositions of subviews
VP_PROOF(mat_row_of_trans)
{
  U2<float> u; I i = vp_int("row", 0, u.c - 1);
  alias(u.v, u.v.transpose().row(i), Ix<1>(u.r), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(k.i, i);});
}
VP_PROOF(mat_col_of_domain)
{
  U2<float> u; I f, s, m, g, t, l; Domain<1> d = some_domain(u.r, M2, f, s, m), e = some_domain(u.c, M2, g, t, l);
  I i = vp_int("col", 0, l - 1);
  alias(u.v, u.v(Domain<2>(d, e)).col(i), Ix<1>(m), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(f + k.i * s, g + i * t);});
}
VP_PROOF(mat_domain_of_row)
{
  U2<float> u; I f, s, m; Domain<1> e = some_domain(u.c, M2, f, s, m);
  I i = vp_int("row", 0, u.r - 1);
  alias(u.v, u.v.row(i)(e), Ix<1>(m), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(i, f + k.i * s);});
}
VP_PROOF(mat_diag_of_trans)
{
  U2<float> u; I o = vp_int("offset", -u.c + 1, u.r - 1);
  I n = o >= 0 ? (u.c < u.r - o ? u.c : u.r - o) : (u.c + o < u.r ? u.c + o : u.r);
  alias(u.v, u.v.transpose().diag(o), Ix<1>(n), Ix<2>(u.r, u.c), [=](Ix<1> k) { return Ix<2>(k.i + (o > 0 ? o : 0), k.i + (o < 0 ? -o : 0));});
}
VP_PROOF(mat_row_real_imag)
{
  U2<C> u; I i = vp_int("row", 0, u.r - 1);
  auto re = u.v.row(i).real(); auto im = u.v.row(i).imag();
  Ix<1> k = some("k", Ix<1>(u.c)); Ix<2> q = some("q", Ix<2>(u.r, u.c));
  float x = any<float>("x"), y = any<float>("y"); C old = get(u.v, q); C at = u.v.get(i, k.i);
  vp_assert(same(re.get(k.i), at.real()) & same(im.get(k.i), at.imag()), "components");
  bool e = eq(q, Ix<2>(i, k.i));
  re.put(k.i, x);
  vp_assert(same(get(u.v, q), e ? C(x, old.imag()) : old), "put through real()");
  im.put(k.i, y);
  vp_assert(same(get(u.v, q), e ? C(x, y) : old), "put through imag()");
}
VP_PROOF(mat_real_imag)
{
  U2<C> u; auto re = u.v.real(); auto im = u.v.imag();
  Ix<2> k = some("k", Ix<2>(u.r, u.c)), q = some("q", Ix<2>(u.r, u.c));
  float x = any<float>("x"), y = any<float>("y"); C old = get(u.v, q); C at = get(u.v, k);
  vp_assert(has_size(re, Ix<2>(u.r, u.c)) & has_size(im, Ix<2>(u.r, u.c)), "size");
  vp_assert(same(get(re, k), at.real()) & same(get(im, k), at.imag()), "components");
  put(re, k, x);
  vp_assert(same(get(u.v, q), eq(q, k) ? C(x, old.imag()) : old), "put through real()");
  put(im, k, y);
  vp_assert(same(get(u.v, q), eq(q, k) ? C(x, y) : old), "put through imag()");
}
