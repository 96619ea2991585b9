// C04: assignment, two- and three-dimensional part: row/column-major storage on either side, transposition,
// subviews, operators between matrices and vectors
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/math.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
using namespace vp;
typedef std::complex<float> C;

template <typename T, typename OA, typename OB, typename OC, typename E, typename S> void entire2(E e, S spec)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2);
  S2<T, OA> a(r, c, "a"); S2<T, OB> b(r, c, "b"); S2<T, OC> d(r, c, "c"); T s = any<T>("s");
  I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  T want = spec(a.v.get(i, j), b.v.get(i, j), d.v.get(i, j), s), bo = b.v.get(i, j);
  e(a.v, b.v, d.v, s);
  vp_assert(same(a.v.get(i, j), want), "every element gets the value of the expression");
  vp_assert(same(b.v.get(i, j), bo), "operands are unchanged");
}
#define WHOLE(name, T, OA, OB, OC, EXPR, SPEC) \
VP_PROOF(whole2_##name) { entire2<T, OA##2_type, OB##2_type, OC##2_type>([](auto A, auto B, auto Cc, T s) { EXPR;}, [](T a, T b, T c, T s) { return T(SPEC);});}
WHOLE(copy_rr, float, row, row, row, A = B, b)
WHOLE(copy_cc, float, col, col, row, A = B, b)
WHOLE(copy_rc, float, row, col, row, A = B, b)
WHOLE(copy_cr, float, col, row, row, A = B, b)
WHOLE(copy_c_rr, C, row, row, row, A = B, b)
WHOLE(copy_c_rc, C, row, col, row, A = B, b)
WHOLE(scalar_r, float, row, row, row, A = s, s)
WHOLE(scalar_c, float, col, row, row, A = s, s)
WHOLE(add_rrr, float, row, row, row, A = B + Cc, b + c)
WHOLE(add_rrc, float, row, row, col, A = B + Cc, b + c)
WHOLE(add_crr, float, col, row, row, A = B + Cc, b + c)
WHOLE(add_ccc, float, col, col, col, A = B + Cc, b + c)
WHOLE(mul_c, C, row, row, row, A = B * Cc, b * c)
WHOLE(fused, float, row, row, row, A = (B + s) * (B - Cc), (b + s) * (b - c))
WHOLE(addeq, float, row, row, row, A += B, a + b)
WHOLE(muleq_rc, float, row, col, row, A *= B, a * b)
WHOLE(ma, float, row, row, row, A = ma(B, Cc, A), b * c + a)

// transposition:  A (c x r) = B^T
template <typename T, typename OA, typename OB> void trans()
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2);
  S2<T, OA> a(r, c, "a"); S2<T, OB> b(c, r, "b");
  I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  T want = b.v.get(j, i);
  a.v = b.v.transpose();
  vp_assert(same(a.v.get(i, j), want), "the transpose's element (i,j) is the matrix's element (j,i)");
}
#define TRANS(name, T, OA, OB) VP_PROOF(trans_##name) { trans<T, OA##2_type, OB##2_type>();}
TRANS(rr, float, row, row)
TRANS(rc, float, row, col)
TRANS(cr, float, col, row)
TRANS(cc, float, col, col)
TRANS(complex, C, row, row)
// in-place transposition of a square matrix
template <typename T, typename O> void inplace()
{
  I n = vp_len("n", 1, M2); S2<T, O> a(n, n, "a");
  I i = vp_int("i", 0, n - 1), j = vp_int("j", 0, n - 1);
  T want = a.v.get(j, i);
  a.v = a.v.transpose();
  vp_assert(same(a.v.get(i, j), want), "in-place transposition");
}
#define INPLACE(name, T, O) VP_PROOF(inplace_##name) { inplace<T, O##2_type>();}
INPLACE(r, float, row)
INPLACE(c, float, col)

// rectangular block <- matrix, and the frame
template <typename T, typename OA, typename OB, typename E, typename S> void blk2(E e, S spec)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2), f1 = vp_int("f1", 0, r - 1), f2 = vp_int("f2", 0, c - 1);
  I m1 = vp_len("m1", 1, r - f1), m2 = vp_len("m2", 1, c - f2);
  S2<T, OA> a(r, c, "a"); S2<T, OB> b(m1, m2, "b"); T s = any<T>("s");
  I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  bool in = (i >= f1) & (i < f1 + m1) & (j >= f2) & (j < f2 + m2);
  T old = a.v.get(i, j), want = in ? spec(old, b.v.get(i - f1, j - f2), s) : old;
  e(a.v(Domain<2>(Domain<1>(f1, 1, m1), Domain<1>(f2, 1, m2))), b.v, s);
  vp_assert(same(a.v.get(i, j), want), "exactly the selected elements get their values");
}
#define BLOCK(name, T, OA, OB, EXPR, SPEC) \
VP_PROOF(block2_##name) { blk2<T, OA##2_type, OB##2_type>([](auto A, auto B, T s) { EXPR;}, [](T a, T b, T s) { return T(SPEC);});}
BLOCK(copy_rr, float, row, row, A = B, b)
BLOCK(copy_rc, float, row, col, A = B, b)
BLOCK(copy_cr, float, col, row, A = B, b)
BLOCK(copy_cc, float, col, col, A = B, b)
BLOCK(scalar, float, row, row, A = s, s)
BLOCK(add, float, row, row, A = B + s, b + s)
BLOCK(addeq_rc, float, row, col, A += B, a + b)

// strided rectangular subview <- matrix
template <typename T, typename OA, typename OB, int F, typename E, typename S> void sub2(E e, S spec)
{
  I t1 = vp_int("t1", 1, M2), t2 = vp_int("t2", 1, M2), m1 = vp_len("m1", 1, M2), m2 = vp_len("m2", 1, M2);
  I f1 = vp_int("f1", 0, t1 - 1), f2 = vp_int("f2", 0, t2 - 1), r = m1 * t1, c = m2 * t2;
  vp_assume((r <= M2) & (c <= M2));
  S2<T, OA> a(r, c, "a"); S2<T, OB> b(m1, m2, "b"); T s = any<T>("s");
  I i = vp_int("i", 0, m1 - 1), j = vp_int("j", 0, m2 - 1);
  if (F)
  {
    I g1 = vp_int("g1", 0, t1 - 1), g2 = vp_int("g2", 0, t2 - 1); vp_assume((g1 != f1) | (g2 != f2));
    T old = a.v.get(i * t1 + g1, j * t2 + g2);
    e(a.v(Domain<2>(Domain<1>(f1, t1, m1), Domain<1>(f2, t2, m2))), b.v, s);
    vp_assert(same(a.v.get(i * t1 + g1, j * t2 + g2), old), "no other element changes");
    return;
  }
  T want = spec(a.v.get(f1 + i * t1, f2 + j * t2), b.v.get(i, j), s);
  e(a.v(Domain<2>(Domain<1>(f1, t1, m1), Domain<1>(f2, t2, m2))), b.v, s);
  vp_assert(same(a.v.get(f1 + i * t1, f2 + j * t2), want), "every selected element gets its value");
}
#define SUB(name, T, OA, OB, F, EXPR, SPEC) \
VP_PROOF(sub2_##name) { sub2<T, OA##2_type, OB##2_type, F>([](auto A, auto B, T s) { EXPR;}, [](T a, T b, T s) { return T(SPEC);});}
SUB(copy_rr, float, row, row, 0, A = B, b)
SUB(copy_rr_frame, float, row, row, 1, A = B, b)
SUB(copy_rc, float, row, col, 0, A = B, b)
SUB(copy_rc_frame, float, row, col, 1, A = B, b)
SUB(copy_cr, float, col, row, 0, A = B, b)
SUB(copy_cc, float, col, col, 0, A = B, b)
SUB(scalar, float, row, row, 0, A = s, s)
SUB(scalar_frame, float, row, row, 1, A = s, s)
SUB(add, float, row, row, 0, A = B + s, b + s)
SUB(addeq_rc, float, row, col, 0, A += B, a + b)

// row / column / diagonal assignment and its frame
template <typename O, int W> void line()
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); S2<float, O> a(r, c, "a");
  I w = vp_int("w", 0, (W == 0 ? r : c) - 1), n = W == 0 ? c : r, i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  S1<float> b(n, "b");
  bool in = W == 0 ? i == w : j == w;
  float want = in ? b.v.get(W == 0 ? j : i) : a.v.get(i, j);
  if (W == 0) a.v.row(w) = b.v; else a.v.col(w) = b.v;
  vp_assert(same(a.v.get(i, j), want), "exactly the line is replaced");
}
#define LINE(name, O, W) VP_PROOF(line_##name) { line<O##2_type, W>();}
LINE(row_r, row, 0)
LINE(row_c, col, 0)
LINE(col_r, row, 1)
LINE(col_c, col, 1)

// vmmul: every row (dimension 0) or column (1) of the matrix scaled element by element by the vector
template <typename O, int D> void vmm()
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); S2<float, O> a(r, c, "a"), b(r, c, "b"); S1<float> v(D == 0 ? c : r, "v");
  I i = vp_int("i", 0, r - 1), j = vp_int("j", 0, c - 1);
  float want = v.v.get(D == 0 ? j : i) * b.v.get(i, j);
  a.v = vmmul<D>(v.v, b.v);
  vp_assert(same(a.v.get(i, j), want), "vmmul");
}
#define VMM(name, O, D) VP_PROOF(vmmul_##name) { vmm<O##2_type, D>();}
VMM(row_r, row, 0)
VMM(row_c, col, 0)
VMM(col_r, row, 1)
VMM(col_c, col, 1)

// three dimensions
template <typename T, typename OA, typename OB, typename E, typename S> void entire3(E e, S spec)
{
  I r = vp_len("d0", 1, M3), c = vp_len("d1", 1, M3), d = vp_len("d2", 1, M3);
  S3<T, OA> a(r, c, d, "a"); S3<T, OB> b(r, c, d, "b"); T s = any<T>("s");
  Ix<3> x = some("x", Ix<3>(r, c, d));
  T want = spec(get(a.v, x), get(b.v, x), s), bo = get(b.v, x);
  e(a.v, b.v, s);
  vp_assert(same(get(a.v, x), want), "every element gets the value of the expression");
  vp_assert(same(get(b.v, x), bo), "operands are unchanged");
}
#define WHOLE3(name, T, OA, OB, EXPR, SPEC) \
VP_PROOF(whole3_##name) { entire3<T, OA, OB>([](auto A, auto B, T s) { EXPR;}, [](T a, T b, T s) { return T(SPEC);});}
typedef vsip::tuple<0, 1, 2> o012; typedef vsip::tuple<2, 1, 0> o210; typedef vsip::tuple<1, 2, 0> o120; typedef vsip::tuple<2, 0, 1> o201; typedef vsip::tuple<1, 0, 2> o102; typedef vsip::tuple<0, 2, 1> o021;
WHOLE3(copy_012, float, o012, o012, A = B, b)
WHOLE3(copy_012_210, float, o012, o210, A = B, b)
WHOLE3(copy_120_201, float, o120, o201, A = B, b)
WHOLE3(scalar_012, float, o012, o012, A = s, s)
WHOLE3(add_012, float, o012, o012, A = B + s, b + s)
WHOLE3(add_210_012, float, o210, o012, A = B + s, b + s)
WHOLE3(add_102_102, float, o102, o102, A = B + s, b + s)
WHOLE3(add_021_120, float, o021, o120, A = B + s, b + s)
WHOLE3(addeq_201, float, o201, o201, A += B, a + b)
