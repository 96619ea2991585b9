// C02: element (i,j,k) of a block lives at the documented memory position, distinct from every other element's,
// inside the block's storage; put changes that element only
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <ovxx/strided.hpp>
#include "vp_views.hpp"
using namespace vp;
typedef std::complex<float> C;

// ---- Dense over user storage: position is the documented one
template <typename T> void dense1()
{
  I n = vp_len("n", 1, M1); T *p = vp::array<T>("a", n);
  Dense<1, T> b(Domain<1>(n), p); b.admit(true);
  vp_assert(I(b.size()) == n && I(b.size(1, 0)) == n, "size");
  I k = vp_int("k", 0, n - 1), q = vp_int("q", 0, n - 1);
  vp_assert(same(b.get(k), p[k]), "get(k) reads position k");
  T x = any<T>("x"), old = p[q]; b.put(k, x);
  vp_assert(same(p[q], q == k ? x : old), "put(k) writes position k only");
}
template <typename T, typename O> void dense2(bool row)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); T *p = vp::array<T>("a", r * c);
  Dense<2, T, O> b(Domain<2>(r, c), p); b.admit(true);
  vp_assert(I(b.size(2, 0)) == r && I(b.size(2, 1)) == c && I(b.size()) == r * c && I(b.size(1, 0)) == r * c, "size");
  I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1), q = vp_int("q", 0, r * c - 1);
  I at = row ? i * c + j : j * r + i;
  vp_assert(same(b.get(i, j), p[at]), "get(i,j) reads the documented position");
  T x = any<T>("x"), old = p[q]; b.put(i, j, x);
  vp_assert(same(p[q], q == at ? x : old), "put(i,j) writes the documented position only");
  vp_assert(same(b.get(q), p[q]), "one-dimensional access follows storage order");
  T y = any<T>("y"); b.put(q, y);
  vp_assert(same(b.get(i, j), q == at ? y : x), "one-dimensional put");
}
template <typename T, typename O> void dense3(int D0, int D1, int D2)
{
  I d[3]; d[0] = vp_len("d0", 1, M3); d[1] = vp_len("d1", 1, M3); d[2] = vp_len("d2", 1, M3); I n = d[0] * d[1] * d[2];
  T *p = vp::array<T>("a", n);
  Dense<3, T, O> b(Domain<3>(d[0], d[1], d[2]), p); b.admit(true);
  vp_assert(I(b.size(3, 0)) == d[0] && I(b.size(3, 1)) == d[1] && I(b.size(3, 2)) == d[2] && I(b.size()) == n, "size");
  I i[3]; i[0] = vp_int("i0", 0, d[0] - 1); i[1] = vp_int("i1", 0, d[1] - 1); i[2] = vp_int("i2", 0, d[2] - 1);
  I q = vp_int("q", 0, n - 1);
  I at = (i[D0] * d[D1] + i[D1]) * d[D2] + i[D2];
  vp_assert(same(b.get(i[0], i[1], i[2]), p[at]), "get(i,j,k) reads the documented position");
  T x = any<T>("x"), old = p[q]; b.put(i[0], i[1], i[2], x);
  vp_assert(same(p[q], q == at ? x : old), "put(i,j,k) writes the documented position only");
}
VP_PROOF(dense1_float) { dense1<float>();}
VP_PROOF(dense1_double) { dense1<double>();}
VP_PROOF(dense1_int) { dense1<int>();}
VP_PROOF(dense1_complex) { dense1<C>();}
VP_PROOF(dense2_float_row) { dense2<float, row2_type>(true);}
VP_PROOF(dense2_float_col) { dense2<float, col2_type>(false);}
VP_PROOF(dense2_complex_row) { dense2<C, row2_type>(true);}
VP_PROOF(dense3_012) { dense3<float, tuple<0,1,2> >(0,1,2);}
VP_PROOF(dense3_021) { dense3<float, tuple<0,2,1> >(0,2,1);}
VP_PROOF(dense3_102) { dense3<float, tuple<1,0,2> >(1,0,2);}
VP_PROOF(dense3_120) { dense3<float, tuple<1,2,0> >(1,2,0);}
VP_PROOF(dense3_201) { dense3<float, tuple<2,0,1> >(2,0,1);}
VP_PROOF(dense3_210) { dense3<float, tuple<2,1,0> >(2,1,0);}

// ---- any layout: distinct elements do not share storage, all storage is in bounds, initial value is everywhere
template <typename B> void put_get(B &b, Ix<1> k, typename B::value_type x) { b.put(k.i, x);}
template <typename B> void put_get(B &b, Ix<2> k, typename B::value_type x) { b.put(k.i, k.j, x);}
template <typename B> void put_get(B &b, Ix<3> k, typename B::value_type x) { b.put(k.i, k.j, k.k, x);}
template <typename B> typename B::value_type getb(B &b, Ix<1> k) { return b.get(k.i);}
template <typename B> typename B::value_type getb(B &b, Ix<2> k) { return b.get(k.i, k.j);}
template <typename B> typename B::value_type getb(B &b, Ix<3> k) { return b.get(k.i, k.j, k.k);}
inline Domain<1> dom(Ix<1> s) { return Domain<1>(s.i);}
inline Domain<2> dom(Ix<2> s) { return Domain<2>(s.i, s.j);}
inline Domain<3> dom(Ix<3> s) { return Domain<3>(s.i, s.j, s.k);}
template <typename B> bool sized(B &b, Ix<1> s) { return I(b.size()) == s.i;}
template <typename B> bool sized(B &b, Ix<2> s) { return (I(b.size(2, 0)) == s.i) & (I(b.size(2, 1)) == s.j) & (I(b.size()) == s.i * s.j);}
template <typename B> bool sized(B &b, Ix<3> s) { return (I(b.size(3, 0)) == s.i) & (I(b.size(3, 1)) == s.j) & (I(b.size(3, 2)) == s.k);}
inline Ix<1> dims(Ix<1> *) { return Ix<1>(vp_len("n", 1, M1));}
inline Ix<2> dims(Ix<2> *) { I a = vp_len("d0", 1, M2), b = vp_len("d1", 1, M2); return Ix<2>(a, b);}
inline Ix<3> dims(Ix<3> *) { I a = vp_len("d0", 1, 1 << 14), b = vp_len("d1", 1, 1 << 14), c = vp_len("d2", 1, 1 << 14); return Ix<3>(a, b, c);}

template <typename T, typename L> void cells()
{
  typedef ovxx::Strided<L::dim, T, L> B;
  Ix<L::dim> s = dims((Ix<L::dim>*)0);
  B b(dom(s));
  vp_assert(sized(b, s), "size");
  Ix<L::dim> k = some("k", s), q = some("q", s), r = some("r", s);
  T x = any<T>("x"), y = any<T>("y");
  put_get(b, q, y);
  put_get(b, r, T(y));
  put_get(b, k, x);
  vp_assert(same(getb(b, k), x), "get returns what was put");
  vp_assert(same(getb(b, q), eq(q, k) ? x : y), "other elements keep their value");
  vp_assert(same(getb(b, r), eq(r, k) ? x : y), "other elements keep their value");
}
template <typename T, typename L> void filled()
{
  typedef ovxx::Strided<L::dim, T, L> B;
  Ix<L::dim> s = dims((Ix<L::dim>*)0);
  T v = any<T>("v");
  B b(dom(s), v);
  Ix<L::dim> k = some("k", s);
  vp_assert(same(getb(b, k), v), "the initial value is in every element");
}
typedef tuple<0,1,2> R; typedef tuple<1,0,2> K;
VP_PROOF(cells_1_dense) { cells<float, Layout<1, R, dense, vsip::array> >();}
VP_PROOF(cells_1_unit) { cells<float, Layout<1, R, unit_stride, vsip::array> >();}
VP_PROOF(cells_1_al32) { cells<float, Layout<1, R, aligned_32, vsip::array> >();}
VP_PROOF(cells_1_inter) { cells<C, Layout<1, R, dense, interleaved_complex> >();}
VP_PROOF(cells_1_split) { cells<C, Layout<1, R, dense, split_complex> >();}
VP_PROOF(cells_2_dense_row) { cells<float, Layout<2, R, dense, vsip::array> >();}
VP_PROOF(cells_2_dense_col) { cells<float, Layout<2, K, dense, vsip::array> >();}
VP_PROOF(cells_2_split) { cells<C, Layout<2, R, dense, split_complex> >();}
VP_PROOF(cells_2_inter_col) { cells<C, Layout<2, K, dense, interleaved_complex> >();}
VP_PROOF(cells_2_al8_row) { cells<float, Layout<2, R, aligned_8, vsip::array> >();}
VP_PROOF(cells_2_al16_row) { cells<float, Layout<2, R, aligned_16, vsip::array> >();}
VP_PROOF(cells_2_al32_row) { cells<float, Layout<2, R, aligned_32, vsip::array> >();}
VP_PROOF(cells_2_al128_row) { cells<float, Layout<2, R, aligned_128, vsip::array> >();}
VP_PROOF(cells_2_al512_row) { cells<float, Layout<2, R, aligned_512, vsip::array> >();}
VP_PROOF(cells_2_al1024_row) { cells<float, Layout<2, R, aligned_1024, vsip::array> >();}
VP_PROOF(cells_2_al16_col) { cells<float, Layout<2, K, aligned_16, vsip::array> >();}
VP_PROOF(cells_2_al64_col) { cells<float, Layout<2, K, aligned_64, vsip::array> >();}
VP_PROOF(cells_2_al16_split) { cells<C, Layout<2, R, aligned_16, split_complex> >();}
VP_PROOF(cells_3_dense_012) { cells<float, Layout<3, tuple<0,1,2>, dense, vsip::array> >();}
VP_PROOF(cells_3_dense_120) { cells<float, Layout<3, tuple<1,2,0>, dense, vsip::array> >();}
VP_PROOF(cells_3_dense_210) { cells<float, Layout<3, tuple<2,1,0>, dense, vsip::array> >();}
VP_PROOF(cells_3_al16_012) { cells<float, Layout<3, tuple<0,1,2>, aligned_16, vsip::array> >();}
VP_PROOF(cells_3_al32_201) { cells<float, Layout<3, tuple<2,0,1>, aligned_32, vsip::array> >();}
VP_PROOF(filled_1_dense) { filled<float, Layout<1, R, dense, vsip::array> >();}
VP_PROOF(filled_1_split) { filled<C, Layout<1, R, dense, split_complex> >();}
VP_PROOF(filled_1_inter) { filled<C, Layout<1, R, dense, interleaved_complex> >();}
VP_PROOF(filled_2_dense) { filled<float, Layout<2, R, dense, vsip::array> >();}
VP_PROOF(filled_2_col) { filled<float, Layout<2, K, dense, vsip::array> >();}
VP_PROOF(filled_2_al16) { filled<float, Layout<2, R, aligned_16, vsip::array> >();}
VP_PROOF(filled_2_al16_col) { filled<float, Layout<2, K, aligned_16, vsip::array> >();}
VP_PROOF(filled_3_al16) { filled<float, Layout<3, tuple<1,0,2>, aligned_16, vsip::array> >();}
// views that own their storage
VP_PROOF(view_filled_vector)
{
  I n = vp_len("n", 1, M1); float v = any<float>("v"); Vector<float> w(n, v); I k = vp_int("k", 0, n - 1), q = vp_int("q", 0, n - 1);
  vp_assert(same(w.get(k), v), "initial value");
  float x = any<float>("x"); w.put(k, x);
  vp_assert(same(w.get(q), q == k ? x : v), "put changes one element");
}
VP_PROOF(view_filled_matrix)
{
  Ix<2> s = dims((Ix<2>*)0); C v = any<C>("v"); Matrix<C> w(s.i, s.j, v); Ix<2> k = some("k", s), q = some("q", s);
  vp_assert(same(get(w, k), v), "initial value");
  C x = any<C>("x"); put(w, k, x);
  vp_assert(same(get(w, q), eq(q, k) ? x : v), "put changes one element");
}
VP_PROOF(view_filled_tensor)
{
  Ix<3> s = dims((Ix<3>*)0); float v = any<float>("v"); Tensor<float> w(s.i, s.j, s.k, v); Ix<3> k = some("k", s), q = some("q", s);
  vp_assert(same(get(w, k), v), "initial value");
  float x = any<float>("x"); put(w, k, x);
  vp_assert(same(get(w, q), eq(q, k) ? x : v), "put changes one element");
}
