// C04: matrix assignment between operands of every kind of placement in memory (whole, blocks, strided, reversed and
// transposed views, either storage order): the copy, transpose and loop backends chosen from the run-time strides.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
template <typename E, typename OA, typename OB, int A, int BB> void place()
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2);
  mat<E, OA>(how<A>(), m, n, "a", [=](auto const &a) { mat<E, OB>(how<BB>(), m, n, "b", [=](auto const &b) {
    I i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
    E want = b.get(i, j);
    auto l = a;
    l = b;
    vp_assert(same(l.get(i, j), want), "A = B assigns element by element");
  });});
}
#define PL(name, E, OA, OB, A, BB) VP_PROOF(place_##name) { place<E, OA##2_type, OB##2_type, A, BB>();}
PL(rr_W_B, float, row, row, W, B)
PL(rr_W_R, float, row, row, W, R)
PL(rr_W_rev, float, row, row, W, r)
PL(rr_W_K, float, row, row, W, K)
PL(rr_W_kev, float, row, row, W, k)
PL(rr_W_T, float, row, row, W, T)
PL(rr_B_W, float, row, row, B, W)
PL(rr_R_W, float, row, row, R, W)
PL(rr_rev_W, float, row, row, r, W)
PL(rr_K_W, float, row, row, K, W)
PL(rr_kev_W, float, row, row, k, W)
PL(rr_T_W, float, row, row, T, W)
PL(rr_B_B, float, row, row, B, B)
PL(rr_R_K, float, row, row, R, K)
PL(rr_K_R, float, row, row, K, R)
PL(rr_kev_rev, float, row, row, k, r)
PL(rr_T_B, float, row, row, T, B)
PL(rr_T_R, float, row, row, T, R)
PL(rc_W_B, float, row, col, W, B)
PL(rc_W_R, float, row, col, W, R)
PL(rc_W_rev, float, row, col, W, r)
PL(rc_W_K, float, row, col, W, K)
PL(rc_W_kev, float, row, col, W, k)
PL(rc_W_T, float, row, col, W, T)
PL(rc_B_W, float, row, col, B, W)
PL(rc_R_W, float, row, col, R, W)
PL(rc_rev_W, float, row, col, r, W)
PL(rc_K_W, float, row, col, K, W)
PL(rc_kev_W, float, row, col, k, W)
PL(rc_T_W, float, row, col, T, W)
PL(rc_B_B, float, row, col, B, B)
PL(rc_R_K, float, row, col, R, K)
PL(rc_K_R, float, row, col, K, R)
PL(rc_kev_rev, float, row, col, k, r)
PL(rc_T_B, float, row, col, T, B)
PL(rc_T_R, float, row, col, T, R)
PL(cr_W_B, float, col, row, W, B)
PL(cr_W_R, float, col, row, W, R)
PL(cr_W_rev, float, col, row, W, r)
PL(cr_W_K, float, col, row, W, K)
PL(cr_W_kev, float, col, row, W, k)
PL(cr_W_T, float, col, row, W, T)
PL(cr_B_W, float, col, row, B, W)
PL(cr_R_W, float, col, row, R, W)
PL(cr_rev_W, float, col, row, r, W)
PL(cr_K_W, float, col, row, K, W)
PL(cr_kev_W, float, col, row, k, W)
PL(cr_T_W, float, col, row, T, W)
PL(cr_B_B, float, col, row, B, B)
PL(cr_R_K, float, col, row, R, K)
PL(cr_K_R, float, col, row, K, R)
PL(cr_kev_rev, float, col, row, k, r)
PL(cr_T_B, float, col, row, T, B)
PL(cr_T_R, float, col, row, T, R)
PL(c_B_R, C, row, col, B, R)
PL(c_K_B, C, row, col, K, B)
PL(c_T_K, C, row, col, T, K)
