// C14: direct data access.  An access to a block's data shows every element at the position its strides state, in the
//@ inout_aligned_b: deduct=thorough
//@ inout_ten_order: deduct=thorough
//@ inout_ten_col: deduct=thorough
//@ in_aligned_b: limit=240
// requested layout; what is written through it is in the block afterwards, and nothing else is.
#define VP_MPI
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/dda.hpp>
#include <ovxx/dda.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
namespace dda = vsip::dda;
template <typename T> T at(T const *p, I i) { return p[i];}
template <typename T> std::complex<T> at(std::pair<T *, T *> const &p, I i) { return std::complex<T>(p.first[i], p.second[i]);}
template <typename T> std::complex<T> at(std::pair<T const *, T const *> const &p, I i) { return std::complex<T>(p.first[i], p.second[i]);}
template <typename T> void to(T *p, I i, T v) { p[i] = v;}
template <typename T> void to(std::pair<T *, T *> const &p, I i, std::complex<T> v) { p.first[i] = v.real(); p.second[i] = v.imag();}
template <typename D> I off(D &d, Ix<1> k) { return k.i * d.stride(0);}
template <typename D> I off(D &d, Ix<2> k) { return k.i * d.stride(0) + k.j * d.stride(1);}
template <typename D> I off(D &d, Ix<3> k) { return k.i * d.stride(0) + k.j * d.stride(1) + k.k * d.stride(2);}
template <typename D> bool fits(D &d, Ix<1> s) { return (I(d.size(0)) == s.i) & (I(d.size()) == s.i);}
template <typename D> bool fits(D &d, Ix<2> s) { return (I(d.size(0)) == s.i) & (I(d.size(1)) == s.j) & (I(d.size()) == s.i * s.j);}
template <typename D> bool fits(D &d, Ix<3> s) { return (I(d.size(0)) == s.i) & (I(d.size(1)) == s.j) & (I(d.size(2)) == s.k) & (I(d.size()) == s.i * s.j * s.k);}
// the layout asked for
template <typename L, typename D> bool obeys(D &, Ix<1>, std::false_type) { return true;}
template <typename L, typename D> bool obeys(D &d, Ix<1>, std::true_type) { return d.stride(0) == 1;}
template <typename L, typename D> bool obeys(D &, Ix<2>, std::false_type) { return true;}
template <typename L, typename D> bool obeys(D &d, Ix<2> s, std::true_type)
{
  dimension_type const a = L::order_type::impl_dim0, b = L::order_type::impl_dim1;
  I inner = b == 0 ? s.i : s.j, outer = a == 0 ? s.i : s.j;
  return (d.stride(b) == 1) & ((L::packing != vsip::dense) | (I(d.stride(a)) == inner) | (outer == 1))
    & ((I(d.stride(a)) >= inner) | (outer == 1));
}
template <typename L, typename D> bool obeys(D &, Ix<3>, std::false_type) { return true;}
template <typename L, typename D> bool obeys(D &d, Ix<3>, std::true_type) { return d.stride(L::order_type::impl_dim2) == 1;}
template <typename V, typename L> struct lay { typedef L type;};
template <typename V> struct lay<V, void> { typedef typename vsip::dda::dda_block_layout<typename V::block_type>::layout_type type;};
// reading
template <typename L_, int D, typename V> void reads(V v, Ix<D> s)
{
  typedef typename V::block_type B; typedef typename lay<V, L_>::type L;
  typedef std::integral_constant<bool, !std::is_same<L_, void>::value && L::packing != any_packing> asked;
  Ix<D> k = some("k", s);
  dda::Data<B, dda::in, L> d(v.block());
  vp_assert(fits(d, s), "the access has the size of the block");
  vp_assert(obeys<L>(d, s, asked()), "the data has the requested layout");
  vp_assert(same(at(d.ptr(), off(d, k)), get(v, k)), "the access shows every element");
}
// changing one element
template <typename L_, int D, typename V> void changes(V v, Ix<D> s)
{
  typedef typename V::block_type B; typedef typename lay<V, L_>::type L; typedef typename V::value_type T;
  Ix<D> k = some("k", s), q = some("q", s);
  T x = any<T>("x"), e = get(v, k), old = get(v, q);
  {
    dda::Data<B, dda::inout, L> d(v.block());
    vp_assert(fits(d, s), "the access has the size of the block");
    vp_assert(same(at(d.ptr(), off(d, k)), e), "the access shows every element");
    to(d.ptr(), off(d, k), x);
  }
  vp_assert(same(get(v, q), eq(k, q) ? x : old), "what is written through the access is in the block afterwards, and nothing else");
}
#define VEC(name, T, H, L) \
VP_PROOF(in_##name) { I n = vp_len("n", 1, M1); vec<T>(how<H>(), n, "x", [=](auto x) { reads<L>(x, Ix<1>(n));});} \
VP_PROOF(inout_##name) { I n = vp_len("n", 1, M1); vec<T>(how<H>(), n, "x", [=](auto x) { changes<L>(x, Ix<1>(n));});}
#define MAT(name, T, O, H, L) \
VP_PROOF(in_##name) { I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2); mat<T, O>(how<H>(), m, n, "x", [=](auto x) { reads<L>(x, Ix<2>(m, n));});} \
VP_PROOF(inout_##name) { I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2); mat<T, O>(how<H>(), m, n, "x", [=](auto x) { changes<L>(x, Ix<2>(m, n));});}
typedef Layout<1, row1_type, vsip::dense, vsip::array> L1d;
typedef Layout<1, row1_type, vsip::dense, interleaved_complex> L1i;
typedef Layout<1, row1_type, vsip::dense, split_complex> L1s;
typedef Layout<1, row1_type, aligned_64, vsip::array> L1a;
typedef Layout<2, row2_type, vsip::dense, vsip::array> L2d;
typedef Layout<2, col2_type, vsip::dense, vsip::array> L2c;
typedef Layout<2, row2_type, unit_stride, vsip::array> L2u;
typedef Layout<2, row2_type, aligned_32, vsip::array> L2a;
typedef Layout<2, row2_type, vsip::dense, split_complex> L2s;
VEC(vec, float, W, void)
VEC(vec_s, double, R, void)
VEC(vec_r, float, r, void)
VEC(vec_c, C, W, void)
VEC(vec_dense, float, W, L1d)
VEC(vec_dense_s, float, R, L1d)
VEC(vec_dense_r, double, r, L1d)
VEC(vec_aligned, float, W, L1a)
VEC(vec_aligned_s, float, R, L1a)
VEC(vec_split, C, W, L1s)
VEC(vec_split_s, C, R, L1s)
VEC(vec_array, C, W, L1d)
VEC(vec_array_s, C, r, L1d)
MAT(mat, float, row2_type, W, void)
MAT(mat_c, float, col2_type, B, void)
MAT(mat_s, float, row2_type, R, void)
MAT(mat_t, double, row2_type, T, void)
MAT(mat_r, float, row2_type, k, void)
MAT(dense, float, row2_type, W, L2d)
MAT(dense_b, float, row2_type, B, L2d)
MAT(dense_s, double, row2_type, K, L2d)
MAT(dense_t, float, row2_type, T, L2d)
MAT(dense_c, float, col2_type, W, L2d)
MAT(col, float, row2_type, W, L2c)
MAT(col_b, float, col2_type, B, L2c)
MAT(unit, float, row2_type, B, L2u)
MAT(unit_k, float, row2_type, k, L2u)
MAT(aligned, float, row2_type, W, L2a)
MAT(aligned_b, float, row2_type, B, L2a)
MAT(split, C, row2_type, W, L2s)
// rows, columns, diagonals, components
#define SUB(name, T, O, V, N, ...) \
VP_PROOF(in_##name) { I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2); S2<T, O> a(m, n, "a"); __VA_ARGS__ I N_ = N; auto v = V; reads<void>(v, Ix<1>(N_));} \
VP_PROOF(inout_##name) { I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2); S2<T, O> a(m, n, "a"); __VA_ARGS__ I N_ = N; auto v = V; changes<void>(v, Ix<1>(N_));}
#define DIAG I o = vp_int("o", -M2, M2); vp_assume((o < n) & (-o < m));
#define DLEN o >= 0 ? (m < n - o ? m : n - o) : (m + o < n ? m + o : n)
SUB(row, float, row2_type, a.v.row(i), n, I i = vp_int("i", 0, m - 1);)
SUB(row_c, float, col2_type, a.v.row(i), n, I i = vp_int("i", 0, m - 1);)
SUB(col_, C, row2_type, a.v.col(i), m, I i = vp_int("i", 0, n - 1);)
SUB(col_c, float, col2_type, a.v.col(i), m, I i = vp_int("i", 0, n - 1);)
SUB(diag, float, row2_type, a.v.diag(o), DLEN, DIAG)
SUB(diag_c, double, col2_type, a.v.diag(o), DLEN, DIAG)
SUB(diag_t, float, row2_type, a.v.transpose().diag(-o), DLEN, DIAG)
SUB(trow, float, row2_type, a.v.transpose().row(i), m, I i = vp_int("i", 0, n - 1);)
SUB(row_re, C, row2_type, a.v.row(i).real(), n, I i = vp_int("i", 0, m - 1);)
SUB(col_im, C, row2_type, a.v.col(i).imag(), m, I i = vp_int("i", 0, n - 1);)
// the const forms of diagonals
#define CSUB(name, O) VP_PROOF(in_const_##name) { \
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2); S2<float, O> a(m, n, "a"); DIAG I N_ = DLEN; \
  const_Matrix<float, Dense<2, float, O>> c(a.v); reads<void>(c.diag(o), Ix<1>(N_));}
CSUB(diag, row2_type)
CSUB(diag_c, col2_type)
I len(Ix<1> s) { return s.i;}
I len(Ix<2> s) { return s.i * s.j;}
// a buffer of the caller: as many elements as the library asks for are enough, and the data is there
#define BUF(name, T, O, V, S, L, ...) VP_PROOF(buffer_##name) { __VA_ARGS__ auto v = V; \
  typedef typename decltype(v)::block_type B; auto s = S; auto k = some("k", s); \
  I need = I(dda::required_buffer_size<L>(v.block())); vp_assert((need == 0) | (need >= len(s)), "the buffer asked for holds every element"); \
  T *u = vp::array<T>("u", need); T x = any<T>("x"), e = get(v, k); auto q = some("q", s); T old = get(v, q); \
  { dda::Data<B, dda::inout, L> d(v.block(), u); vp_assert((need == 0) | (d.ptr() == u), "the data is in the buffer"); \
    vp_assert(same(at(d.ptr(), off(d, k)), e), "the buffer holds every element"); d.ptr()[off(d, k)] = x; } \
  vp_assert(same(get(v, q), eq(k, q) ? x : old), "what is written to the buffer is in the block afterwards");}
#define VSUB I n = vp_len("n", 1, M1); I st = vp_int("st", 2, 1 << 6); S1<float> a(n * st, "a");
#define MMN I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2);
BUF(vec, float, , a.v(Domain<1>(0, st, n)), Ix<1>(n), L1d, VSUB)
BUF(dense_c, float, , a.v, Ix<2>(m, n), L2d, MMN S2<float, col2_type> a(m, n, "a");)
BUF(aligned, float, , a.v, Ix<2>(m, n), L2a, MMN S2<float> a(m, n, "a");)
BUF(col, float, , a.v, Ix<2>(m, n), L2c, MMN S2<float> a(m, n, "a");)
// writing only: every element written is in the block afterwards
template <typename L_, typename V> void fills(V v, Ix<1> s)
{
  typedef typename V::block_type B; typedef typename lay<V, L_>::type L; typedef typename V::value_type T;
  Ix<1> q = some("q", s); T *x = vp::array<T>("z", s.i);
  { dda::Data<B, dda::out, L> d(v.block()); I t = d.stride(0); auto p = d.ptr(); for (I i = 0; i < s.i; ++i) to(p, i * t, x[i]);}
  vp_assert(same(get(v, q), x[q.i]), "what is written through the access is in the block afterwards");
}
template <typename L_, typename V> void fills(V v, Ix<2> s)
{
  typedef typename V::block_type B; typedef typename lay<V, L_>::type L; typedef typename V::value_type T;
  Ix<2> q = some("q", s); T *x = vp::array<T>("z", s.i * s.j);
  { dda::Data<B, dda::out, L> d(v.block()); I t = d.stride(0), u = d.stride(1); auto p = d.ptr();
    for (I i = 0; i < s.i; ++i) for (I j = 0; j < s.j; ++j) to(p, i * t + j * u, x[i * s.j + j]);}
  vp_assert(same(get(v, q), x[q.i * s.j + q.j]), "what is written through the access is in the block afterwards");
}
#define OUT1(name, T, H, L) VP_PROOF(out_##name) { I n = vp_len("n", 1, M1); vec<T>(how<H>(), n, "x", [=](auto x) { fills<L>(x, Ix<1>(n));});}
#define OUT2(name, T, O, H, L) VP_PROOF(out_##name) { MMN mat<T, O>(how<H>(), m, n, "x", [=](auto x) { fills<L>(x, Ix<2>(m, n));});}
OUT1(vec, float, W, void)
OUT1(vec_s, float, R, void)
OUT1(vec_dense_s, float, R, L1d)
OUT1(vec_split, C, W, L1s)
OUT2(mat, float, row2_type, W, void)
OUT2(mat_k, double, row2_type, K, void)
OUT2(dense_c, float, col2_type, W, L2d)
OUT2(col, float, row2_type, W, L2c)
OUT2(split, C, row2_type, W, L2s)
// synchronising in the middle of the access
template <typename L_, int D, typename V> void syncs(V v, Ix<D> s)
{
  typedef typename V::block_type B; typedef typename lay<V, L_>::type L; typedef typename V::value_type T;
  Ix<D> k = some("k", s), q = some("q", s);
  T x = any<T>("x"), y = any<T>("y");
  dda::Data<B, dda::inout, L> d(v.block());
  put(v, k, x); d.sync_in();
  vp_assert(same(at(d.ptr(), off(d, k)), x), "after sync_in the access shows what the block holds");
  to(d.ptr(), off(d, q), y); d.sync_out();
  vp_assert(same(get(v, q), y), "after sync_out the block holds what was written through the access");
}
#define SYN1(name, T, H, L) VP_PROOF(sync_##name) { I n = vp_len("n", 1, M1); vec<T>(how<H>(), n, "x", [=](auto x) { syncs<L>(x, Ix<1>(n));});}
#define SYN2(name, T, O, H, L) VP_PROOF(sync_##name) { MMN mat<T, O>(how<H>(), m, n, "x", [=](auto x) { syncs<L>(x, Ix<2>(m, n));});}
SYN1(vec, float, W, void)
SYN1(vec_dense_s, float, R, L1d)
SYN1(vec_split, C, W, L1s)
SYN2(dense_c, float, col2_type, W, L2d)
SYN2(col, float, row2_type, W, L2c)
// a layout chosen at run time
template <typename V> ovxx::Rt_layout<1> rt(V const &, Ix<1>, pack_type p, storage_format_type f, unsigned a) { return ovxx::Rt_layout<1>(p, ovxx::Rt_tuple(0, 1, 2), f, a);}
template <typename V> ovxx::Rt_layout<2> rt(V const &, Ix<2>, pack_type p, storage_format_type f, unsigned a)
{ return vp_int("col", 0, 1) != 0 ? ovxx::Rt_layout<2>(p, ovxx::Rt_tuple(1, 0, 2), f, a) : ovxx::Rt_layout<2>(p, ovxx::Rt_tuple(0, 1, 2), f, a);}
template <int D, typename V, typename A> void rtrun(V v, Ix<D> s, pack_type p, storage_format_type f, unsigned al, A elem)
{
  typedef typename V::block_type B; typedef typename V::value_type T;
  Ix<D> k = some("k", s), q = some("q", s);
  T x = any<T>("x"), e = get(v, k), old = get(v, q);
  ovxx::Rt_layout<D> l = rt(v, s, p, f, al);
  {
    ovxx::dda::Rt_data<B, dda::inout> d(v.block(), l);
    vp_assert(fits(d, s), "the access has the size of the block");
    vp_assert(same(elem(d, off(d, k)), e), "the access shows every element");
    elem(d, off(d, k), x);
  }
  vp_assert(same(get(v, q), eq(k, q) ? x : old), "what is written through the access is in the block afterwards, and nothing else");
}
struct real_elem { 
  template <typename D> float operator()(D &d, I i) const { return d.ptr()[i];}
  template <typename D> void operator()(D &d, I i, float x) const { d.ptr()[i] = x;}};
struct inter_elem { 
  template <typename D> C operator()(D &d, I i) const { auto p = d.ptr().template as<interleaved_complex>(); return C(p[2 * i], p[2 * i + 1]);}
  template <typename D> void operator()(D &d, I i, C x) const { auto p = d.ptr().template as<interleaved_complex>(); p[2 * i] = x.real(); p[2 * i + 1] = x.imag();}};
struct split_elem { 
  template <typename D> C operator()(D &d, I i) const { return at(d.ptr().template as<split_complex>(), i);}
  template <typename D> void operator()(D &d, I i, C x) const { to(d.ptr().template as<split_complex>(), i, x);}};
#define RT1(name, T, H, P, F, E) VP_PROOF(rt_##name) { I n = vp_len("n", 1, M1); vec<T>(how<H>(), n, "x", [=](auto x) { rtrun(x, Ix<1>(n), P, F, 32, E());});}
#define RT2(name, T, O, H, P, F, E) VP_PROOF(rt_##name) { MMN mat<T, O>(how<H>(), m, n, "x", [=](auto x) { rtrun(x, Ix<2>(m, n), P, F, 32, E());});}
RT1(vec, float, W, vsip::dense, vsip::array, real_elem)
RT1(vec_s, float, R, vsip::dense, vsip::array, real_elem)
RT1(vec_split, C, W, vsip::dense, split_complex, split_elem)
RT1(vec_inter, C, R, unit_stride, interleaved_complex, inter_elem)
RT2(mat, float, row2_type, W, vsip::dense, vsip::array, real_elem)
RT2(mat_c, float, col2_type, B, unit_stride, vsip::array, real_elem)
RT2(mat_a, float, row2_type, W, aligned_32, vsip::array, real_elem)
RT2(mat_split, C, row2_type, W, vsip::dense, split_complex, split_elem)
// three dimensions
typedef Layout<3, row3_type, vsip::dense, vsip::array> L3d;
typedef Layout<3, vsip::tuple<2, 0, 1>, vsip::dense, vsip::array> L3p;
#define TEN(name, T, O, V, L, ...) \
VP_PROOF(in_##name) { I m = vp_len("m", 1, M3), n = vp_len("n", 1, M3), o = vp_len("o", 1, M3); S3<T, O> a(m, n, o, "a"); __VA_ARGS__ reads<L>(V, Ix<3>(m, n, o));} \
VP_PROOF(inout_##name) { I m = vp_len("m", 1, M3), n = vp_len("n", 1, M3), o = vp_len("o", 1, M3); S3<T, O> a(m, n, o, "a"); __VA_ARGS__ changes<L>(V, Ix<3>(m, n, o));}
TEN(ten, float, row3_type, a.v, void)
TEN(ten_c, double, col3_type, a.v, void)
TEN(ten_dense, float, row3_type, a.v, L3d)
TEN(ten_order, float, row3_type, a.v, L3p)
TEN(ten_col, float, col3_type, a.v, L3d)
