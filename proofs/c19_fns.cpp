// C19: element-wise functions and operators.  Every element of the result is the defined function of the corresponding
// elements of the operands; a scalar operand stands for a view with that value everywhere.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
typedef std::complex<double> Z;
typedef unsigned char B8;
// one operand a, the expression F of the view, the expression S of its element x
#define F1(name, T, R, F, S) VP_PROOF(fn_##name) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  S1<T> a_(n, "a"); S1<R> z_(n, "z"); auto &a = a_.v; auto &z = z_.v; \
  z = F; T x = a.get(i); vp_assert(same(z.get(i), R(S)), "z(i) is the function of a(i)");}
// two operands a and b (elements x and y): views, or one of them a scalar s
#define F2(name, T, U, R, F, S) \
VP_PROOF(fn_##name##_vv) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  S1<T> a_(n, "a"); S1<U> b_(n, "b"); S1<R> z_(n, "z"); auto &a = a_.v; auto &b = b_.v; auto &z = z_.v; \
  z = F; T x = a.get(i); U y = b.get(i); vp_assert(same(z.get(i), R(S)), "z(i) is the function of a(i) and b(i)");} \
VP_PROOF(fn_##name##_vs) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  S1<T> a_(n, "a"); U b = vp::any<U>("b"); S1<R> z_(n, "z"); auto &a = a_.v; auto &z = z_.v; \
  z = F; T x = a.get(i); U y = b; vp_assert(same(z.get(i), R(S)), "z(i) is the function of a(i) and b");} \
VP_PROOF(fn_##name##_sv) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  T a = vp::any<T>("a"); S1<U> b_(n, "b"); S1<R> z_(n, "z"); auto &b = b_.v; auto &z = z_.v; \
  z = F; T x = a; U y = b.get(i); vp_assert(same(z.get(i), R(S)), "z(i) is the function of a and b(i)");}
// three operands (elements x, y and w)
#define V3(T, nm) S1<T> nm##_(n, #nm); auto &nm = nm##_.v;
#define S3_(T, nm) T nm = vp::any<T>(#nm);
#define AT(v) v.get(i)
#define SC(v) v
#define F3_(name, T, U, V, R, F, S, da, db, dc, ga, gb, gc) VP_PROOF(fn_##name) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  da(T, a) db(U, b) dc(V, c) V3(R, z) \
  z = F; T x = ga(a); U y = gb(b); V w = gc(c); vp_assert(same(z.get(i), R(S)), "z(i) is the function of the three elements");}
#define F3(name, T, U, V, R, F, S) \
F3_(name##_vvv, T, U, V, R, F, S, V3, V3, V3, AT, AT, AT) \
F3_(name##_vvs, T, U, V, R, F, S, V3, V3, S3_, AT, AT, SC) \
F3_(name##_vsv, T, U, V, R, F, S, V3, S3_, V3, AT, SC, AT) \
F3_(name##_svv, T, U, V, R, F, S, S3_, V3, V3, SC, AT, AT) \
F3_(name##_vss, T, U, V, R, F, S, V3, S3_, S3_, AT, SC, SC) \
F3_(name##_svs, T, U, V, R, F, S, S3_, V3, S3_, SC, AT, SC) \
F3_(name##_ssv, T, U, V, R, F, S, S3_, S3_, V3, SC, SC, AT)
F1(neg_op, float, float, -a, -x)
F1(plus_op, float, float, +a, x)
F1(neg, float, float, neg(a), -x)
F1(neg_c, C, C, neg(a), -x)
F1(sq, float, float, sq(a), x * x)
F1(sq_c, C, C, sq(a), x * x)
F1(recip, float, float, recip(a), 1.f / x)
F1(rsqrt, double, double, rsqrt(a), 1. / std::sqrt(x))
F1(sqrt, double, double, sqrt(a), std::sqrt(x))
F1(mag, float, float, mag(a), std::abs(x))
//@ fn_mag_i: overflow=0
F1(mag_i, int, int, mag(a), x < 0 ? -x : x)
F1(magsq, float, float, magsq(a), x * x)
F1(magsq_c, C, float, magsq(a), x.real() * x.real() + x.imag() * x.imag())
F1(conj, C, C, conj(a), C(x.real(), -x.imag()))
F1(real, C, float, real(a), x.real())
F1(imag, C, float, imag(a), x.imag())
F1(ceil, float, float, ceil(a), std::ceil(x))
F1(floor, double, double, floor(a), std::floor(x))
F1(cos, float, float, cos(a), std::cos(x))
F1(sin, float, float, sin(a), std::sin(x))
F1(tan, double, double, tan(a), std::tan(x))
F1(acos, float, float, acos(a), std::acos(x))
F1(asin, float, float, asin(a), std::asin(x))
F1(atan, float, float, atan(a), std::atan(x))
F1(cosh, float, float, cosh(a), std::cosh(x))
F1(sinh, float, float, sinh(a), std::sinh(x))
F1(tanh, double, double, tanh(a), std::tanh(x))
F1(exp, float, float, exp(a), std::exp(x))
F1(log, float, float, log(a), std::log(x))
F1(log10, double, double, log10(a), std::log10(x))
F1(euler, float, C, euler(a), C(std::cos(x), std::sin(x)))
F1(mag_c, C, float, mag(a), std::abs(x))
F1(arg_c, C, float, arg(a), std::arg(x))
F1(exp_c, C, C, exp(a), std::exp(x))
F1(sqrt_c, C, C, sqrt(a), std::sqrt(x))
F1(bnot, int, int, bnot(a), ~x)
F1(bnot_op, int, int, ~a, ~x)
F1(lnot, bool, bool, lnot(a), !x)
F1(lnot_op, bool, bool, !a, !x)
F2(add, float, float, float, add(a, b), x + y)
F2(sub, float, float, float, sub(a, b), x - y)
F2(mul, float, float, float, mul(a, b), x * y)
F2(div, float, float, float, div(a, b), x / y)
F2(add_op, float, float, float, a + b, x + y)
F2(sub_op, float, float, float, a - b, x - y)
F2(mul_op, float, float, float, a * b, x * y)
F2(div_op, float, float, float, a / b, x / y)
F2(add_fd, float, double, double, a + b, x + y)
F2(sub_ui, unsigned, unsigned, unsigned, a - b, x - y)
F2(add_c, C, C, C, a + b, x + y)
F2(mul_cf, C, float, C, a * b, x * y)
F2(sub_fc, float, C, C, a - b, x - y)
F2(jmul, C, C, C, jmul(a, b), x * std::conj(y))
F2(max, float, float, float, max(a, b), x < y ? y : x)
F2(min, float, float, float, min(a, b), y < x ? y : x)
F2(maxmg, float, float, float, maxmg(a, b), std::abs(x) > std::abs(y) ? std::abs(x) : std::abs(y))
F2(minmg, float, float, float, minmg(a, b), std::abs(x) < std::abs(y) ? std::abs(x) : std::abs(y))
F2(maxmg_c, C, C, float, maxmg(a, b), std::abs(x) > std::abs(y) ? std::abs(x) : std::abs(y))
F2(minmg_c, C, C, float, minmg(a, b), std::abs(x) < std::abs(y) ? std::abs(x) : std::abs(y))
F2(maxmgsq, C, C, float, maxmgsq(a, b), vsip::magsq(x) > vsip::magsq(y) ? vsip::magsq(x) : vsip::magsq(y))
F2(minmgsq, C, C, float, minmgsq(a, b), vsip::magsq(x) < vsip::magsq(y) ? vsip::magsq(x) : vsip::magsq(y))
F2(eq, float, float, bool, eq(a, b), x == y)
F2(ne, float, float, bool, ne(a, b), x != y)
F2(ge, float, float, bool, ge(a, b), x >= y)
F2(gt, float, float, bool, gt(a, b), x > y)
F2(le, float, float, bool, le(a, b), x <= y)
F2(lt, float, float, bool, lt(a, b), x < y)
F2(eq_op, int, int, bool, a == b, x == y)
F2(ne_op, int, int, bool, a != b, x != y)
F2(ge_op, int, int, bool, a >= b, x >= y)
F2(gt_op, int, int, bool, a > b, x > y)
F2(le_op, int, int, bool, a <= b, x <= y)
F2(lt_op, int, int, bool, a < b, x < y)
F2(land, bool, bool, bool, land(a, b), x & y)
F2(lor, bool, bool, bool, lor(a, b), x | y)
F2(lxor, bool, bool, bool, lxor(a, b), x != y)
F2(land_op, bool, bool, bool, a && b, x & y)
F2(lor_op, bool, bool, bool, a || b, x | y)
F2(lxor_op, bool, bool, bool, a ^ b, x != y)
F2(band, int, int, int, band(a, b), x & y)
F2(bor, int, int, int, bor(a, b), x | y)
F2(bxor, int, int, int, bxor(a, b), x ^ y)
F2(band_op, int, int, int, a & b, x & y)
F2(bor_op, int, int, int, a | b, x | y)
F2(bxor_op, int, int, int, a ^ b, x ^ y)
F2(atan2, float, float, float, atan2(a, b), std::atan2(x, y))
F2(hypot, float, float, float, hypot(a, b), ::hypotf(x, y))
F2(fmod, double, double, double, fmod(a, b), std::fmod(x, y))
F2(pow, float, float, float, pow(a, b), std::pow(x, y))
F3(am, float, float, float, float, am(a, b, c), (x + y) * w)
F3(ma, float, float, float, float, ma(a, b, c), x * y + w)
F3(msb, float, float, float, float, msb(a, b, c), x * y - w)
F3(sbm, float, float, float, float, sbm(a, b, c), (x - y) * w)
F3(expoavg, float, float, float, float, expoavg(a, b, c), x * y + (1.f - x) * w)
F3(ite, bool, float, float, float, ite(a, b, c), x ? y : w)
// a * b + c and c + a * b are evaluated as one fused expression
F3_(fused_1, float, float, float, float, a * b + c, x * y + w, V3, V3, V3, AT, AT, AT)
F3_(fused_2, float, float, float, float, c + a * b, w + x * y, V3, V3, V3, AT, AT, AT)
F3_(fused_3, float, float, float, float, a * b + c * a, x * y + w * x, V3, V3, V3, AT, AT, AT)
F3_(fused_4, float, float, float, float, a * b - c, x * y - w, V3, V3, V3, AT, AT, AT)
F3_(fused_5, float, float, float, float, c - a * b, w - x * y, V3, V3, V3, AT, AT, AT)
F3_(fused_6, float, float, float, float, (a + b) * c, (x + y) * w, V3, V3, V3, AT, AT, AT)
F3_(fused_7, float, float, float, float, (a - b) * c, (x - y) * w, V3, V3, V3, AT, AT, AT)
F3_(fused_8, float, float, float, float, c * (a - b), w * (x - y), V3, V3, V3, AT, AT, AT)
F3_(fused_9, float, float, float, float, a * b + c, x * y + w, V3, S3_, V3, AT, SC, AT)
F3_(fused_10, float, float, float, float, a * b + c, x * y + w, V3, V3, S3_, AT, AT, SC)
F3_(fused_11, float, double, double, double, a * b + c, x * y + w, V3, V3, V3, AT, AT, AT)
F3_(fused_12, C, C, C, C, c + a * b, x * y + w, V3, V3, V3, AT, AT, AT)
F3_(fused_13, float, float, float, float, a / b - c * a, x / y - w * x, V3, V3, V3, AT, AT, AT)
