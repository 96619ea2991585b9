// C16: freqswap exchanges the halves of a vector and the quadrants of a matrix: out(i) = in((i + ceil(n/2)) mod n).
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/impl/signal/freqswap.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
// the element of the operand that belongs at position i
#define FROM(i, n) ((i) + (n) - (n) / 2 < (n) ? (i) + (n) - (n) / 2 : (i) - (n) / 2)
template <typename E, typename F, int HI, int HO> void v2v()
{
  I n = vp_len("n", 1, M1);
  vec<E>(how<HI>(), n, "x", [&](auto x) { vec<F>(how<HO>(), n, "y", [&](auto y) {
    I i = vp_int("i", 0, n - 1);
    E e = x.get(FROM(i, n));
    vp_assert(I(freqswap(x).size()) == n, "the swapped vector has as many elements as the operand");
    y = freqswap(x);
    vp_assert(same(y.get(i), F(e)), "out(i) = in((i + ceil(n/2)) mod n)");
    I j = vp_int("j", 0, n - 1);
    vp_assert(same(F(x.get(FROM(j, n))), y.get(j)), "the operand is unchanged");
  });});
}
template <typename E, int H> void vin()
{
  I n = vp_len("n", 1, M1);
  vec<E>(how<H>(), n, "x", [&](auto x) {
    I i = vp_int("i", 0, n - 1);
    E e = x.get(FROM(i, n));
    x = freqswap(x);
    vp_assert(same(x.get(i), e), "in place: out(i) = in((i + ceil(n/2)) mod n)");
  });
}
template <typename E, typename F, typename O1, typename O2, int HI, int HO> void m2m(I m, I n)
{
  mat<E, O1>(how<HI>(), m, n, "x", [&](auto x) { mat<F, O2>(how<HO>(), m, n, "y", [&](auto y) {
    I i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
    E e = x.get(FROM(i, m), FROM(j, n));
    vp_assert((I(freqswap(x).size(0)) == m) & (I(freqswap(x).size(1)) == n), "the swapped matrix has the shape of the operand");
    y = freqswap(x);
    vp_assert(same(y.get(i, j), F(e)), "out(i, j) = in((i + ceil(m/2)) mod m, (j + ceil(n/2)) mod n)");
  });});
}
template <typename E, typename O, int H> void min_(I m, I n)
{
  mat<E, O>(how<H>(), m, n, "x", [&](auto x) {
    I i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
    E e = x.get(FROM(i, m), FROM(j, n));
    x = freqswap(x);
    vp_assert(same(x.get(i, j), e), "in place: out(i, j) = in((i + ceil(m/2)) mod m, (j + ceil(n/2)) mod n)");
  });
}
// along one axis only
template <typename E, typename O, dimension_type D> void axis(I m, I n)
{
  S2<E, O> x(m, n, "x"), y(m, n, "y");
  I i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
  E e = D == row ? x.v.get(i, FROM(j, n)) : x.v.get(FROM(i, m), j);
  ovxx::signal::freqswap<D>(x.v, y.v);
  vp_assert(same(y.v.get(i, j), e), "the halves of every row (every column) are exchanged");
}
// at least two rows and columns; a single row or column
#define SHAPES(...) I m = vp_len("m", 2, M2), n = vp_len("n", 2, M2); __VA_ARGS__(m, n);
#define LINE(...) I n = vp_len("n", 1, M2); if (n == 1) __VA_ARGS__(1, n); else { __VA_ARGS__(1, n); __VA_ARGS__(n, 1);}
#define V(name, ...) VP_PROOF(vec_##name) { v2v<__VA_ARGS__>();}
V(dense, float, float, W, W)
V(strided, float, float, R, R)
V(rev, float, float, W, r)
V(rev2, double, double, r, W)
V(conv, float, double, W, R)
V(complex, C, C, W, W)
V(int, int, int, r, r)
#define X(name, ...) VP_PROOF(vec_in_place_##name) { vin<__VA_ARGS__>();}
X(dense, float, W)
X(strided, float, R)
X(rev, double, r)
X(complex, C, W)
#define MM(name, ...) VP_PROOF(mat_##name) { SHAPES(m2m<__VA_ARGS__>)}
#define MB(name, ...) VP_BOUNDED(mat_##name) { SHAPES(m2m<__VA_ARGS__>)}
MM(dense, float, float, row2_type, row2_type, W, W)
MB(col, float, float, col2_type, col2_type, W, W)
MB(mixed, float, double, row2_type, col2_type, W, W)
MB(block, float, float, row2_type, row2_type, B, B)
MB(rows, float, float, row2_type, row2_type, R, r)
MB(cols, float, float, row2_type, row2_type, k, K)
MB(trans, float, float, row2_type, row2_type, T, W)
MM(complex, C, C, row2_type, row2_type, W, W)
#define MX(name, ...) VP_PROOF(mat_in_place_##name) { SHAPES(min_<__VA_ARGS__>)}
//@ mat_in_place_dense: deduct=thorough
//@ mat_in_place_complex: deduct=thorough
//@ mat_complex: deduct=thorough
#define MXB(name, ...) VP_BOUNDED(mat_in_place_##name) { SHAPES(min_<__VA_ARGS__>)}
MX(dense, float, row2_type, W)
MXB(col, double, col2_type, W)
MXB(block, float, row2_type, B)
MXB(trans, float, row2_type, T)
MX(complex, C, row2_type, W)
#define A(name, ...) VP_PROOF(axis_##name) { SHAPES(axis<__VA_ARGS__>)}
A(row, float, row2_type, row)
A(col, float, row2_type, col)
A(row_c, float, col2_type, row)
A(col_c, float, col2_type, col)
#define ML(name, ...) VP_PROOF(line_##name) { LINE(m2m<__VA_ARGS__>)}
ML(dense, float, float, row2_type, row2_type, W, W)
ML(mixed, float, double, col2_type, row2_type, W, W)
#define MY(name, ...) VP_PROOF(line_in_place_##name) { LINE(min_<__VA_ARGS__>)}
MY(dense, float, row2_type, W)
MY(col, double, col2_type, W)
#define AL(name, ...) VP_PROOF(line_axis_##name) { LINE(axis<__VA_ARGS__>)}
AL(row, float, row2_type, row)
AL(col, float, row2_type, col)
// the evaluator itself, in place
template <typename E, typename O> void direct(I m, I n)
{
  S2<E, O> x(m, n, "x");
  I i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
  E e = x.v.get(FROM(i, m), FROM(j, n));
  ovxx::signal::detail::Freqswap<2>::apply(x.v.block(), x.v.block());
  vp_assert(same(x.v.get(i, j), e), "in place: out(i, j) = in((i + ceil(m/2)) mod m, (j + ceil(n/2)) mod n)");
}
#define DI(name, ...) VP_PROOF(apply_in_place_##name) { SHAPES(direct<__VA_ARGS__>)}
DI(row, float, row2_type)

#define DB(name, ...) VP_BOUNDED(apply_in_place_##name) { SHAPES(direct<__VA_ARGS__>)}
DB(col, float, col2_type)
DB(complex, C, row2_type)
VP_PROOF(apply_in_place_line) { LINE(direct<float, row2_type>)}
VP_PROOF(apply_in_place_vector)
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1);
  S1<float> x(n, "x");
  float e = x.v.get(FROM(i, n));
  ovxx::signal::detail::Freqswap<1>::apply(x.v.block(), x.v.block());
  vp_assert(same(x.v.get(i), e), "in place: out(i) = in((i + ceil(n/2)) mod n)");
}
