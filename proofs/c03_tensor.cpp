// C03: subviews of tensors are exact aliases
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include "vp_views.hpp"
using namespace vp;
#include "vp_alias.hpp"

template <typename T, typename O> void ten_vec()
{
  U3<T, O> u; Ix<3> z(u.d0, u.d1, u.d2), a = some("a", z);
  alias(u.v, u.v(a.i, a.j, whole_domain), Ix<1>(u.d2), z, [=](Ix<1> k) { return Ix<3>(a.i, a.j, k.i);});
  alias(u.v, u.v(a.i, whole_domain, a.k), Ix<1>(u.d1), z, [=](Ix<1> k) { return Ix<3>(a.i, k.i, a.k);});
  alias(u.v, u.v(whole_domain, a.j, a.k), Ix<1>(u.d0), z, [=](Ix<1> k) { return Ix<3>(k.i, a.j, a.k);});
}
template <typename T, typename O> void ten_mat()
{
  U3<T, O> u; Ix<3> z(u.d0, u.d1, u.d2), a = some("a", z);
  alias(u.v, u.v(a.i, whole_domain, whole_domain), Ix<2>(u.d1, u.d2), z, [=](Ix<2> k) { return Ix<3>(a.i, k.i, k.j);});
  alias(u.v, u.v(whole_domain, a.j, whole_domain), Ix<2>(u.d0, u.d2), z, [=](Ix<2> k) { return Ix<3>(k.i, a.j, k.j);});
  alias(u.v, u.v(whole_domain, whole_domain, a.k), Ix<2>(u.d0, u.d1), z, [=](Ix<2> k) { return Ix<3>(k.i, k.j, a.k);});
}
template <typename T, typename O> void ten_domain()
{
  U3<T, O> u; Ix<3> z(u.d0, u.d1, u.d2);
  I f, s, m, g, t, l, h, r, w;
  Domain<1> d = some_domain(u.d0, M3, f, s, m), e = some_domain(u.d1, M3, g, t, l), c = some_domain(u.d2, M3, h, r, w);
  alias(u.v, u.v(Domain<3>(d, e, c)), Ix<3>(m, l, w), z, [=](Ix<3> k) { return Ix<3>(f + k.i * s, g + k.j * t, h + k.k * r);});
}
template <typename T, typename O, dimension_type A, dimension_type B, dimension_type G> void ten_trans()
{
  U3<T, O> u; Ix<3> z(u.d0, u.d1, u.d2);
  I d[3] = {u.d0, u.d1, u.d2};
  // dimension i of the transpose is dimension (A,B,G)[i] of the parent
  alias(u.v, u.v.template transpose<A, B, G>(), Ix<3>(d[A], d[B], d[G]), z, [=](Ix<3> k)
  { I q[3]; q[A] = k.i; q[B] = k.j; q[G] = k.k; return Ix<3>(q[0], q[1], q[2]);});
}
VP_PROOF(ten_vec_012) { ten_vec<float, tuple<0,1,2> >();}
VP_PROOF(ten_vec_021) { ten_vec<float, tuple<0,2,1> >();}
VP_PROOF(ten_vec_102) { ten_vec<float, tuple<1,0,2> >();}
VP_PROOF(ten_vec_120) { ten_vec<float, tuple<1,2,0> >();}
VP_PROOF(ten_vec_201) { ten_vec<float, tuple<2,0,1> >();}
VP_PROOF(ten_vec_210) { ten_vec<float, tuple<2,1,0> >();}
VP_PROOF(ten_mat_012) { ten_mat<float, tuple<0,1,2> >();}
VP_PROOF(ten_mat_120) { ten_mat<float, tuple<1,2,0> >();}
VP_PROOF(ten_mat_210) { ten_mat<float, tuple<2,1,0> >();}
VP_PROOF(ten_mat_complex) { ten_mat<std::complex<float>, tuple<0,1,2> >();}
VP_PROOF(ten_domain_012) { ten_domain<float, tuple<0,1,2> >();}
VP_PROOF(ten_domain_210) { ten_domain<float, tuple<2,1,0> >();}
VP_PROOF(ten_trans_012) { ten_trans<float, tuple<0,1,2>, 0, 1, 2>();}
VP_PROOF(ten_trans_021) { ten_trans<float, tuple<0,1,2>, 0, 2, 1>();}
VP_PROOF(ten_trans_102) { ten_trans<float, tuple<0,1,2>, 1, 0, 2>();}
VP_PROOF(ten_trans_120) { ten_trans<float, tuple<0,1,2>, 1, 2, 0>();}
VP_PROOF(ten_trans_201) { ten_trans<float, tuple<0,1,2>, 2, 0, 1>();}
VP_PROOF(ten_trans_210) { ten_trans<float, tuple<0,1,2>, 2, 1, 0>();}
VP_PROOF(ten_trans_201_210) { ten_trans<float, tuple<2,1,0>, 2, 0, 1>();}
// compositions
VP_PROOF(ten_row_of_slice)
{
  U3<float> u; Ix<3> z(u.d0, u.d1, u.d2), a = some("a", z);
  alias(u.v, u.v(whole_domain, a.j, whole_domain).col(a.k), Ix<1>(u.d0), z, [=](Ix<1> k) { return Ix<3>(k.i, a.j, a.k);});
  alias(u.v, u.v(a.i, whole_domain, whole_domain).transpose(), Ix<2>(u.d2, u.d1), z, [=](Ix<2> k) { return Ix<3>(a.i, k.j, k.i);});
}
VP_PROOF(ten_slice_of_trans)
{
  U3<float> u; Ix<3> z(u.d0, u.d1, u.d2); I i = vp_int("i", 0, u.d1 - 1);
  auto t = u.v.transpose<1, 2, 0>();
  alias(u.v, t(i, whole_domain, whole_domain), Ix<2>(u.d2, u.d0), z, [=](Ix<2> k) { return Ix<3>(k.j, i, k.i);});
}
VP_PROOF(ten_real_imag)
{
  typedef std::complex<float> C;
//@ ten_mat_complex: pr_to=60 limit=300 first=5
  U3<C> u; auto re = u.v.real(); auto im = u.v.imag(); Ix<3> z(u.d0, u.d1, u.d2);
  Ix<3> k = some("k", z), q = some("q", z);
  float x = any<float>("x"), y = any<float>("y"); C old = get(u.v, q); C at = get(u.v, k);
  vp_assert(has_size(re, z) & has_size(im, z), "size");
  vp_assert(same(get(re, k), at.real()) & same(get(im, k), at.imag()), "components");
  put(re, k, x);
  vp_assert(same(get(u.v, q), eq(q, k) ? C(x, old.imag()) : old), "put through real()");
  put(im, k, y);
  vp_assert(same(get(u.v, q), eq(q, k) ? C(x, y) : old), "put through imag()");
}
