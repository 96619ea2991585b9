// C07: matrix and vector products.  prod, prodh, prodj, prodt, gemp, gems, outer, dot, cvjdot, kron, trans, herm,
// cumsum and modulate compute their defining formulas for every shape, storage order, stride and backend choice.
// The BLAS library itself is an assumed contract (vp_blas.hpp).
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/math.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_blas.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
typedef std::complex<double> Z;

// ---- the formulas
template <typename A, typename B> auto mm(A const &a, B const &b, I i, I j)
{
  typedef decltype(a.get(0, 0) * b.get(0, 0)) T;
  T s = T();
  for (I k = 0; k < I(a.size(1)); ++k) s += a.get(i, k) * b.get(k, j);
  return s;
}
template <typename A, typename B> auto mv(A const &a, B const &b, I i)
{
  typedef decltype(a.get(0, 0) * b.get(0)) T;
  T s = T();
  for (I k = 0; k < I(a.size(1)); ++k) s += a.get(i, k) * b.get(k);
  return s;
}
template <typename A, typename B> auto vm(A const &a, B const &b, I j)
{
  typedef decltype(a.get(0) * b.get(0, 0)) T;
  T s = T();
  for (I k = 0; k < I(b.size(0)); ++k) s += a.get(k) * b.get(k, j);
  return s;
}
// ---- whole operands, every combination of storage orders
template <typename T, typename OA, typename OB, typename OR> void whole_mm()
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), k = vp_len("k", 1, M2);
  S2<T, OA> a(m, k, "a"); S2<T, OB> b(k, n, "b"); S2<T, OR> r(m, n, "r");
  I i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
  T want = mm(a.v, b.v, i, j);
  r.v = prod(a.v, b.v);
  vp_assert(same(r.v.get(i, j), want), "prod(A,B)(i,j) is the sum over k of A(i,k)*B(k,j)");
}
#define MM(name, T, OA, OB, OR) VP_PROOF(mm_##name) { whole_mm<T, OA##2_type, OB##2_type, OR##2_type>();}
MM(rrr, float, row, row, row)
MM(rcr, float, row, col, row)
MM(crc, float, col, row, col)
MM(ccc, float, col, col, col)
MM(ccr, float, col, col, row)
MM(c_rrr, C, row, row, row)
MM(c_crc, C, col, row, col)
MM(i_rcr, unsigned, row, col, row)

template <typename T, typename OA> void whole_mv()
{
  I m = vp_len("m", 1, M2), k = vp_len("k", 1, M2);
  S2<T, OA> a(m, k, "a"); S1<T> b(k, "b"); S1<T> r(m, "r");
  I i = vp_int("i", 0, m - 1);
  T want = mv(a.v, b.v, i);
  r.v = prod(a.v, b.v);
  vp_assert(same(r.v.get(i), want), "prod(A,b)(i) is the sum over k of A(i,k)*b(k)");
}
#define MV(name, T, OA) VP_PROOF(mv_##name) { whole_mv<T, OA##2_type>();}
MV(r, float, row)
MV(c, float, col)
MV(c_r, C, row)
MV(c_c, C, col)
MV(i_r, unsigned, row)
template <typename T, typename OA> void whole_vm()
{
  I n = vp_len("n", 1, M2), k = vp_len("k", 1, M2);
  S2<T, OA> b(k, n, "b"); S1<T> a(k, "a"); S1<T> r(n, "r");
  I i = vp_int("i", 0, n - 1);
  T want = vm(a.v, b.v, i);
  r.v = prod(a.v, b.v);
  vp_assert(same(r.v.get(i), want), "prod(a,B)(i) is the sum over k of a(k)*B(k,i)");
}
#define VM(name, T, OA) VP_PROOF(vm_##name) { whole_vm<T, OA##2_type>();}
VM(r, float, row)
VM(c, float, col)
VM(c_r, C, row)
VM(c_c, C, col)
VM(i_c, unsigned, col)


#define MMS(name, E, SA, OA, SB, OB, SR, OR) VP_PROOF(mms_##name) { \
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), kk = vp_len("k", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1); \
  mat<E, OA##2_type>(how<SA>(), m, kk, "a", [=](auto a) { mat<E, OB##2_type>(how<SB>(), kk, n, "b", [=](auto b) { \
  mat<E, OR##2_type>(how<SR>(), m, n, "r", [=](auto r) { \
    E want = mm(a, b, i, j); r = prod(a, b); \
    vp_assert(same(r.get(i, j), want), "prod(A,B)(i,j) is the sum over k of A(i,k)*B(k,j)");});});});}
#define MVS(name, E, SA, OA, SB, SR) VP_PROOF(mvs_##name) { \
  I m = vp_len("m", 1, M2), kk = vp_len("k", 1, M2), i = vp_int("i", 0, m - 1); \
  mat<E, OA##2_type>(how<SA>(), m, kk, "a", [=](auto a) { vec<E>(how<SB>(), kk, "b", [=](auto b) { vec<E>(how<SR>(), m, "r", [=](auto r) { \
    E want = mv(a, b, i); r = prod(a, b); \
    vp_assert(same(r.get(i), want), "prod(A,b)(i) is the sum over k of A(i,k)*b(k)");});});});}
#define VMS(name, E, SA, SB, OB, SR) VP_PROOF(vms_##name) { \
  I n = vp_len("n", 1, M2), kk = vp_len("k", 1, M2), i = vp_int("i", 0, n - 1); \
  vec<E>(how<SA>(), kk, "a", [=](auto a) { mat<E, OB##2_type>(how<SB>(), kk, n, "b", [=](auto b) { vec<E>(how<SR>(), n, "r", [=](auto r) { \
    E want = vm(a, b, i); r = prod(a, b); \
    vp_assert(same(r.get(i), want), "prod(a,B)(i) is the sum over k of a(k)*B(k,i)");});});});}
MMS(aB, float, B, row, W, row, W, row)
MMS(aBc, float, B, col, W, row, W, row)
MMS(bB, float, W, row, B, row, W, row)
MMS(bBc, float, W, row, B, col, W, col)
MMS(rB, float, W, row, W, row, B, row)
MMS(aR, float, R, row, W, row, W, row)
MMS(aRc, float, R, col, W, row, W, row)
MMS(ar, float, r, row, W, row, W, row)
MMS(bR, float, W, row, R, row, W, row)
MMS(br, float, W, row, r, row, W, row)
MMS(bK, float, W, row, K, row, W, row)
MMS(bk, float, W, row, k, col, W, row)
MMS(aT, float, T, row, W, row, W, row)
MMS(bT, float, W, row, T, row, W, row)
MMS(aTbT, float, T, row, T, col, W, row)
MMS(rT, float, W, row, W, col, T, row)
MMS(rR, float, W, row, W, col, R, row)
MMS(rr, float, W, row, W, col, r, row)
MMS(rK, float, W, row, W, col, K, row)
MMS(c_aB, C, B, row, W, row, W, row)
MMS(c_bT, C, W, row, T, row, W, row)
MVS(aB, float, B, row, W, W)
MVS(aBc, float, B, col, W, W)
MVS(aR, float, R, row, W, W)
MVS(ar, float, r, row, W, W)
MVS(arc, float, r, col, W, W)
MVS(aK, float, K, row, W, W)
MVS(aKc, float, K, col, W, W)
MVS(ak, float, k, row, W, W)
MVS(akc, float, k, col, W, W)
MVS(aT, float, T, row, W, W)
MVS(bR, float, W, row, R, W)
MVS(bRc, float, W, col, R, W)
MVS(br, float, W, row, r, W)
MVS(brc, float, W, col, r, W)
MVS(b0, float, W, row, Zs, W)
MVS(b0c, float, W, col, Zs, W)
VMS(a0, float, Zs, W, row, W)
VMS(a0c, float, Zs, W, col, W)
MVS(rR, float, W, row, W, R)
MVS(rr, float, W, row, W, r)
MVS(rrc, float, W, col, W, r)
MVS(c_aB, C, B, row, W, W)
MVS(c_brc, C, W, col, r, W)
VMS(bB, float, W, B, row, W)
VMS(bBc, float, W, B, col, W)
VMS(bR, float, W, R, row, W)
VMS(bRc, float, W, R, col, W)
VMS(br, float, W, r, row, W)
VMS(brc, float, W, r, col, W)
VMS(bK, float, W, K, row, W)
VMS(bk, float, W, k, row, W)
VMS(bkc, float, W, k, col, W)
VMS(bT, float, W, T, row, W)
VMS(aR, float, R, W, row, W)
VMS(aRc, float, R, W, col, W)
VMS(ar, float, r, W, row, W)
VMS(arc, float, r, W, col, W)
VMS(rR, float, W, W, row, R)
VMS(rr, float, W, W, row, r)
VMS(c_bB, C, W, B, col, W)

// ---- conjugated / transposed products
#define PJ(name, E, OA, OB, CALL, BM, BN, TERM) VP_PROOF(p_##name) { \
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), l = vp_len("k", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1); \
  S2<E, OA##2_type> a(m, l, "a"); S2<E, OB##2_type> b(BM, BN, "b"); S2<E> r(m, n, "r"); \
  E want = E(); \
  for (I k = 0; k < l; ++k) { E x = a.v.get(i, k); want += TERM;} \
  r.v = CALL(a.v, b.v); \
  vp_assert(same(r.v.get(i, j), want), #CALL " computes its sum of products");}
PJ(h_rr, C, row, row, prodh, n, l, x * std::conj(b.v.get(j, k)))
PJ(h_cr, C, col, row, prodh, n, l, x * std::conj(b.v.get(j, k)))
PJ(h_rc, C, row, col, prodh, n, l, x * std::conj(b.v.get(j, k)))
PJ(j_rr, C, row, row, prodj, l, n, x * std::conj(b.v.get(k, j)))
PJ(j_cc, C, col, col, prodj, l, n, x * std::conj(b.v.get(k, j)))
PJ(t_rr, float, row, row, prodt, n, l, x * b.v.get(j, k))
PJ(t_rc, float, row, col, prodt, n, l, x * b.v.get(j, k))
PJ(t_cr, float, col, row, prodt, n, l, x * b.v.get(j, k))
PJ(t_c, C, row, row, prodt, n, l, x * b.v.get(j, k))
PJ(t_u, unsigned, row, row, prodt, n, l, x * b.v.get(j, k))
template <int N, typename T, typename O> void small()
{
  I n = vp_len("n", 1, M2), i = vp_int("i", 0, N - 1), j = vp_int("j", 0, n - 1);
  S2<T, O> a(N, N, "a"), b(N, n, "b"), r(N, n, "r"); S1<T> v(N, "v"), w(N, "w");
  T wm = mm(a.v, b.v, i, j), wv = mv(a.v, v.v, i);
  if (N == 3) { r.v = prod3(a.v, b.v); w.v = prod3(a.v, v.v);}
  else { r.v = prod4(a.v, b.v); w.v = prod4(a.v, v.v);}
  vp_assert(same(r.v.get(i, j), wm), "prod3 / prod4 of a matrix");
  vp_assert(same(w.v.get(i), wv), "prod3 / prod4 of a vector");
}
VP_PROOF(p3) { small<3, float, row2_type>();}
VP_PROOF(p3c) { small<3, float, col2_type>();}
VP_PROOF(p4) { small<4, float, row2_type>();}
VP_PROOF(p4_u) { small<4, unsigned, row2_type>();}

// ---- dot products
#define DOT(name, E, SA, SB, CALL, TERM) VP_PROOF(dot_##name) { \
  I n = vp_len("n", 1, M1); \
  vec<E>(how<SA>(), n, "a", [=](auto a) { vec<E>(how<SB>(), n, "b", [=](auto b) { \
    E want = E(); for (I i = 0; i < n; ++i) { E x = a.get(i), y = b.get(i); want += TERM;} \
    E got = CALL(a, b); vp_assert(same(got, want), #CALL " is the sum of the products");});});}
DOT(ff, float, W, W, dot, x * y)
DOT(fs, float, R, W, dot, x * y)
DOT(sf, float, W, R, dot, x * y)
DOT(rf, float, r, W, dot, x * y)
DOT(fr, float, W, r, dot, x * y)
DOT(zf, float, Zs, W, dot, x * y)
DOT(dd, double, W, r, dot, x * y)
DOT(uu, unsigned, W, R, dot, x * y)
DOT(cc, C, W, W, dot, x * y)
DOT(cr, C, r, R, dot, x * y)
DOT(zz, Z, W, W, dot, x * y)
DOT(jcc, C, W, W, cvjdot, x * std::conj(y))
DOT(jcr, C, W, r, cvjdot, x * std::conj(y))
DOT(jzz, Z, W, W, cvjdot, x * std::conj(y))

// ---- outer products:  alpha * v(i) * w(j), conjugating w if complex
template <typename T> T oconj(T x) { return x;}
template <typename T> std::complex<T> oconj(std::complex<T> x) { return std::conj(x);}
template <typename T> bool near_(T got, T al, T x, T y) { return same(got, al * (x * y)) | same(got, al * x * y);}
#define OUTER(name, E, SA, SB) VP_PROOF(outer_##name) { \
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1); E al = any<E>("alpha"); \
  vec<E>(how<SA>(), m, "a", [=](auto a) { vec<E>(how<SB>(), n, "b", [=](auto b) { \
    auto r = outer(al, a, b); \
    vp_assert(has_size(r, Ix<2>(m, n)), "the outer product has a row per element of v, a column per element of w"); \
    vp_assert(near_(E(r.get(i, j)), al, a.get(i), oconj(b.get(j))), "outer(alpha,v,w)(i,j)");});});}
OUTER(f, float, W, W)
OUTER(fs, float, R, W)
OUTER(fr, float, W, r)
OUTER(u, unsigned, W, W)
OUTER(c, C, W, W)
OUTER(cr, C, W, r)

// ---- general products and sums
template <mat_op_type O> struct mop;
template <> struct mop<mat_ntrans> { static I r(I m, I n) { return m;} static I c(I m, I n) { return n;} template <typename V> static auto at(V const &v, I i, I j) { return v.get(i, j);} };
template <> struct mop<mat_trans> { static I r(I m, I n) { return n;} static I c(I m, I n) { return m;} template <typename V> static auto at(V const &v, I i, I j) { return v.get(j, i);} };
template <> struct mop<mat_herm> { static I r(I m, I n) { return n;} static I c(I m, I n) { return m;} template <typename V> static auto at(V const &v, I i, I j) { return oconj(v.get(j, i));} };
template <> struct mop<mat_conj> { static I r(I m, I n) { return m;} static I c(I m, I n) { return n;} template <typename V> static auto at(V const &v, I i, I j) { return oconj(v.get(i, j));} };
#define GEMP(name, E, OPA, OPB, SA, OA, SB, OB, SC, OC) VP_PROOF(gemp_##name) { \
  typedef mop<mat_##OPA> oa; typedef mop<mat_##OPB> ob; \
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), l = vp_len("k", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1); \
  E al = any<E>("alpha"), be = any<E>("beta"); \
  mat<E, OA##2_type>(how<SA>(), oa::r(m, l), oa::c(m, l), "a", [=](auto a) { mat<E, OB##2_type>(how<SB>(), ob::r(l, n), ob::c(l, n), "b", [=](auto b) { \
  mat<E, OC##2_type>(how<SC>(), m, n, "c", [=](auto c) { \
    E s = E(), c0 = c.get(i, j); for (I k = 0; k < l; ++k) s += oa::at(a, i, k) * ob::at(b, k, j); \
    gemp<mat_##OPA, mat_##OPB>(al, a, b, be, c); \
    E g = c.get(i, j); bool z = be == E(0), o = al == E(1); \
    vp_assert(same(g, al * s + be * c0) | (o & same(g, s + be * c0)) | (z & same(g, al * s)) | (z & o & same(g, s)), "gemp: C(i,j) = alpha * sum of products + beta * C(i,j)");});});});}
GEMP(nn, float, ntrans, ntrans, W, row, W, row, W, row)
GEMP(nnc, float, ntrans, ntrans, W, col, W, row, W, col)
GEMP(nt, float, ntrans, trans, W, row, W, row, W, row)
GEMP(tn, float, trans, ntrans, W, row, W, col, W, row)
GEMP(tt, float, trans, trans, W, row, W, row, W, col)
GEMP(hn, float, herm, conj, W, row, W, row, W, row)
GEMP(nn_c, C, ntrans, trans, W, row, W, row, W, row)
GEMP(nh_c, C, ntrans, herm, W, row, W, row, W, row)
GEMP(hn_c, C, herm, ntrans, W, row, W, row, W, row)
GEMP(jt_c, C, conj, trans, W, row, W, row, W, row)
GEMP(nn_u, unsigned, ntrans, ntrans, W, row, W, row, W, row)
GEMP(aB, float, ntrans, ntrans, B, row, W, row, W, row)
GEMP(bB, float, ntrans, trans, W, row, B, row, W, row)
GEMP(cB, float, ntrans, ntrans, W, row, W, row, B, row)
GEMP(cBc, float, ntrans, ntrans, W, row, W, row, B, col)
GEMP(ar, float, ntrans, ntrans, r, row, W, row, W, row)
GEMP(cr, float, ntrans, ntrans, W, row, W, row, r, row)
GEMP(cR, float, ntrans, ntrans, W, row, W, row, R, row)
GEMP(cK, float, ntrans, ntrans, W, row, W, row, K, row)
GEMP(ck, float, ntrans, ntrans, W, row, W, row, k, row)
GEMP(cT, float, ntrans, ntrans, W, row, W, row, T, row)
#define GEMS(name, E, OPA, OA, OC) VP_PROOF(gems_##name) { \
  typedef mop<mat_##OPA> oa; \
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1); \
  E al = any<E>("alpha"), be = any<E>("beta"); \
  S2<E, OA##2_type> a(oa::r(m, n), oa::c(m, n), "a"); S2<E, OC##2_type> c(m, n, "c"); \
  E want = al * oa::at(a.v, i, j) + be * c.v.get(i, j); \
  gems<mat_##OPA>(al, a.v, be, c.v); \
  vp_assert(same(c.v.get(i, j), want), "gems: C = alpha * op(A) + beta * C");}
GEMS(n, float, ntrans, row, row)
GEMS(t, float, trans, row, row)
GEMS(tc, float, trans, col, row)
GEMS(h, C, herm, row, row)
GEMS(j, C, conj, row, col)
GEMS(n_u, unsigned, ntrans, row, row)
VP_PROOF(trans_herm)
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
  S2<C> a(m, n, "a"); S2<float> b(m, n, "b");
  auto h = herm(a.v); auto t = trans(b.v);
  vp_assert((I(h.size(0)) == n) & (I(h.size(1)) == m) & same(C(h.get(j, i)), std::conj(C(a.v.get(i, j)))), "herm");
  vp_assert((I(t.size(0)) == n) & (I(t.size(1)) == m) & same(t.get(j, i), b.v.get(i, j)), "trans");
}
// ---- Kronecker products
template <typename A, typename T> void kron_v()
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1); A al = any<A>("alpha");
  S1<T> v(m, "v"), w(n, "w");
  auto r = kron(al, v.v, w.v);
  vp_assert(has_size(r, Ix<2>(n, m)), "kron of vectors: a row per element of w, a column per element of v");
  vp_assert(same(r.get(j, i), al * w.v.get(j) * v.v.get(i)), "kron of vectors");
}
VP_PROOF(kron_v) { kron_v<float, float>();}
VP_PROOF(kron_v_u) { kron_v<unsigned, unsigned>();}
template <typename A, typename T, typename OV, typename OW> void kron_m()
{
  I a = vp_len("a", 1, 1 << 10), b = vp_len("b", 1, 1 << 10), c = vp_len("c", 1, 1 << 10), d = vp_len("d", 1, 1 << 10);
  I i = vp_int("i", 0, a - 1), k = vp_int("k", 0, b - 1), j = vp_int("j", 0, c - 1), l = vp_int("l", 0, d - 1); A al = any<A>("alpha");
  S2<T, OV> v(a, b, "v"); S2<T, OW> w(c, d, "w");
  auto r = kron(al, v.v, w.v);
  vp_assert((I(r.size(0)) == a * c) & (I(r.size(1)) == b * d), "kron of matrices: sizes multiply");
  vp_assert(same(r.get(j + i * c, l + k * d), al * v.v.get(i, k) * w.v.get(j, l)), "kron of matrices: block (i,k) is alpha * V(i,k) * W");
}
VP_PROOF(kron_m) { kron_m<float, float, row2_type, row2_type>();}
VP_PROOF(kron_m_c) { kron_m<float, float, col2_type, row2_type>();}
VP_PROOF(kron_m_fd) { kron_m<float, double, row2_type, row2_type>();}
// ---- cumulative sums, in place and not
template <typename E, int SA, int SW> void cumsum_v()
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1);
  vec<E>(how<SA>(), n, "v", [=](auto v) { vec<E>(how<SW>(), n, "w", [=](auto w) {
    E want = E(); for (I j = 0; j <= i; ++j) want += v.get(j);
    cumsum<0>(v, w); vp_assert(same(w.get(i), want), "w(i) is the sum of v(0..i)");});});
}
VP_PROOF(cumsum_v) { cumsum_v<float, W, W>();}
VP_PROOF(cumsum_v_rs) { cumsum_v<float, r, R>();}
VP_PROOF(cumsum_v_u) { cumsum_v<unsigned, R, r>();}
VP_PROOF(cumsum_v_c) { cumsum_v<C, W, W>();}
VP_PROOF(cumsum_inplace)
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); S1<float> v(n, "v");
  float want = 0; for (I j = 0; j <= i; ++j) want += v.v.get(j);
  cumsum<0>(v.v, v.v); vp_assert(same(v.v.get(i), want), "in place: v(i) becomes the sum of v(0..i)");
}
template <int D, typename E, typename OV, typename OW> void cumsum_m()
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
  S2<E, OV> v(m, n, "v"); S2<E, OW> w(m, n, "w"); E want = E();
  if (D == 0) { for (I k = 0; k <= j; ++k) want += v.v.get(i, k);} else { for (I k = 0; k <= i; ++k) want += v.v.get(k, j);}
  cumsum<D>(v.v, w.v); vp_assert(same(w.v.get(i, j), want), "cumulative sum along the dimension");
}
VP_PROOF(cumsum_m0) { cumsum_m<0, float, row2_type, row2_type>();}
VP_PROOF(cumsum_m1) { cumsum_m<1, float, row2_type, row2_type>();}
VP_PROOF(cumsum_m1_rc) { cumsum_m<1, float, row2_type, col2_type>();}
VP_PROOF(cumsum_m0_cr) { cumsum_m<0, float, col2_type, row2_type>();}
// ---- modulation
template <typename T, typename OW> void modulate_()
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); float nu = any<float>("nu"), phi = any<float>("phi");
#ifdef VP_NATIVE
  nu = float(int(nu * 8) % 64) / 8; phi = float(int(phi * 8) % 64) / 8;
#endif
  S1<T> v(n, "v"); S1<C> w(n, "w");
  T vi = v.v.get(i);
  float r = modulate(v.v, nu, phi, w.v);
  vp_assert(same(w.v.get(i), C(vi * std::exp(C(0, vsip::index_type(i) * nu + phi)))) & same(r, vsip::length_type(n) * nu + phi), "w(i) = v(i) exp(j (i nu + phi)), returns the next phase");
}
VP_PROOF(modulate_f) { modulate_<float, row2_type>();}
VP_PROOF(modulate_c) { modulate_<C, row2_type>();}
