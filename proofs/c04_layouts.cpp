// C04: assignment between blocks of different memory layouts: split and interleaved complex storage, padded rows,
// either storage order
#define VP_MPI
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/math.hpp>
#include <ovxx/strided.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
using namespace vp;
typedef std::complex<float> C;
// arbitrary content for the storage of n elements
template <typename T> void load(T *p, char const *nm, I n, I w) { vp::fill(p, nm, n * w);}
template <typename T> void load(std::pair<T *, T *> const &p, char const *nm, I n, I) { vp::fill(p.first, nm, n); vp::fill(p.second, nm, n);}
template <typename T, typename L> struct G1
{
  typedef ovxx::Strided<1, T, L> B; B b; Vector<T, B> v;
  G1(I n, char const *nm) : b(Domain<1>(n)), v(b) { load(b.ptr(), nm, n, L::storage_format == interleaved_complex ? 2 : 1);}
};
template <typename T, typename L> struct G2
{
  typedef ovxx::Strided<2, T, L> B; B b; Matrix<T, B> v;
  G2(I r, I c, char const *nm) : b(Domain<2>(r, c)), v(b)
  { load(b.ptr(), nm, L::order_type::impl_dim0 == 0 ? (r - 1) * b.stride(2, 0) + c : (c - 1) * b.stride(2, 1) + r, L::storage_format == interleaved_complex ? 2 : 1);}
};
typedef Layout<1, row1_type, vsip::dense, vsip::array> A1;
typedef Layout<1, row1_type, vsip::dense, split_complex> P1;
typedef Layout<1, row1_type, vsip::dense, interleaved_complex> N1;
typedef Layout<2, row2_type, vsip::dense, vsip::array> A2;
typedef Layout<2, col2_type, vsip::dense, vsip::array> A2c;
typedef Layout<2, row2_type, vsip::dense, split_complex> P2;
typedef Layout<2, col2_type, vsip::dense, split_complex> P2c;
typedef Layout<2, row2_type, aligned_32, split_complex> P2a;
typedef Layout<2, row2_type, aligned_32, vsip::array> A2a;
typedef Layout<2, col2_type, aligned_64, vsip::array> A2ac;
typedef Layout<2, row2_type, vsip::dense, interleaved_complex> N2;
typedef Layout<2, col2_type, vsip::dense, interleaved_complex> N2c;
template <typename T, typename LA, typename LB, typename E, typename S> void run1(E e, S spec)
{
  I n = vp_len("n", 1, M1); G1<T, LA> a(n, "a"); G1<T, LB> b(n, "b"); T s = any<T>("s");
  I i = vp_int("i", 0, n - 1);
  T want = spec(a.v.get(i), b.v.get(i), s), bo = b.v.get(i);
  e(a.v, b.v, s);
  vp_assert(same(a.v.get(i), want), "every element gets the value of the expression");
  vp_assert(same(b.v.get(i), bo), "operands are unchanged");
}
template <typename T, typename LA, typename LB, typename E, typename S> void run2(E e, S spec)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); G2<T, LA> a(r, c, "a"); G2<T, LB> b(r, c, "b"); T s = any<T>("s");
  I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  T want = spec(a.v.get(i, j), b.v.get(i, j), s), bo = b.v.get(i, j);
  e(a.v, b.v, s);
  vp_assert(same(a.v.get(i, j), want), "every element gets the value of the expression");
  vp_assert(same(b.v.get(i, j), bo), "operands are unchanged");
}
#define ONE(name, T, LA, LB, EXPR, SPEC) VP_PROOF(lay1_##name) { run1<T, LA, LB>([](auto A, auto B, T s) { EXPR;}, [](T a, T b, T s) { return T(SPEC);});}
#define TWOB(name, T, LA, LB, EXPR, SPEC) VP_BOUNDED(lay2_##name) { run2<T, LA, LB>([](auto A, auto B, T s) { EXPR;}, [](T a, T b, T s) { return T(SPEC);});}
#define TWO(name, T, LA, LB, EXPR, SPEC) VP_PROOF(lay2_##name) { run2<T, LA, LB>([](auto A, auto B, T s) { EXPR;}, [](T a, T b, T s) { return T(SPEC);});}
ONE(split, C, P1, P1, A = B, b)
ONE(split_array, C, P1, A1, A = B, b)
ONE(array_split, C, A1, P1, A = B, b)
ONE(inter_split, C, N1, P1, A = B, b)
ONE(inter_array, C, N1, A1, A = B, b)
ONE(split_fill, C, P1, P1, A = s, s)
ONE(split_mul, C, P1, A1, A = A * B, a * b)
ONE(split_addeq, C, P1, P1, A += B, a + b)
ONE(split_conj, C, P1, P1, A = conj(B), std::conj(b))
ONE(split_re, C, P1, P1, A.real() = B.real(), C(b.real(), a.imag()))
ONE(split_im, C, P1, A1, A.imag() = B.real(), C(a.real(), b.real()))
ONE(split_mix, C, A1, P1, A.real() = B.imag() + A.imag(), C(b.imag() + a.imag(), a.imag()))
TWO(split, C, P2, P2, A = B, b)
TWO(split_rc, C, P2, P2c, A = B, b)
TWO(split_cr, C, P2c, P2, A = B, b)
TWO(split_cc, C, P2c, P2c, A = B, b)
TWO(split_pad, C, P2a, P2, A = B, b)
TWO(split_unpad, C, P2c, P2a, A = B, b)
TWO(split_array, C, P2, A2, A = B, b)
TWO(array_split, C, A2c, P2, A = B, b)
TWO(inter_inter, C, N2, N2, A = B, b)
TWO(inter_rc, C, N2c, N2, A = B, b)
TWO(array_inter, C, A2, N2c, A = B, b)
TWO(inter, C, N2, A2, A = B, b)
TWO(inter_split, C, N2, P2c, A = B, b)
TWO(split_fill, C, P2, P2, A = s, s)
TWO(split_mul, C, P2c, P2, A = A * B, a * b)
TWO(split_im, C, P2, P2c, A.imag() = B.imag(), C(a.real(), b.imag()))
TWO(pad, float, A2a, A2, A = B, b)
TWO(pad_pad, float, A2a, A2a, A = B, b)
TWO(pad_unpad, float, A2, A2a, A = B, b)
TWOB(pad_rc, float, A2a, A2ac, A = B, b)
TWOB(pad_cr, float, A2ac, A2a, A = B, b)
TWO(pad_fill, float, A2a, A2, A = s, s)
TWO(pad_addeq, float, A2a, A2c, A += B, a + b)
// transposing: split storage, in place and between blocks
template <typename LA, typename LB> void trans_split()
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); G2<C, LA> a(r, c, "a"); G2<C, LB> b(c, r, "b");
  I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  C want = b.v.get(j, i);
  a.v = b.v.transpose();
  vp_assert(same(a.v.get(i, j), want), "the transpose's element (i,j) is the matrix's element (j,i)");
}
VP_PROOF(trans_split_rr) { trans_split<P2, P2>();}
VP_PROOF(trans_split_rc) { trans_split<P2, P2c>();}
VP_PROOF(trans_split_ca) { trans_split<P2c, A2>();}
VP_PROOF(trans_split_pad) { trans_split<P2, P2a>();}
template <typename T, typename L> void inplace()
{
  I n = vp_len("n", 1, M2); G2<T, L> a(n, n, "a");
  I i = vp_int("i", 0, n - 1), j = vp_int("j", 0, n - 1);
  T want = a.v.get(j, i);
  a.v = a.v.transpose();
  vp_assert(same(a.v.get(i, j), want), "in-place transposition");
}
VP_PROOF(inplace_split) { inplace<C, P2>();}
VP_PROOF(inplace_split_c) { inplace<C, P2c>();}
VP_BOUNDED(inplace_pad) { inplace<float, A2a>();}
