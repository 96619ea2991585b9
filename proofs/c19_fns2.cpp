// C19, second part: element types in other combinations, elements that are complex, and matrices and tensors.
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
typedef std::complex<double> Z;
#define F1(name, T, R, F, S) VP_PROOF(fn_##name) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  S1<T> a_(n, "a"); S1<R> z_(n, "z"); auto &a = a_.v; auto &z = z_.v; \
  z = F; T x = a.get(i); vp_assert(same(z.get(i), R(S)), "z(i) is the function of a(i)");}
#define F2(name, T, U, R, F, S) VP_PROOF(fn_##name) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  S1<T> a_(n, "a"); S1<U> b_(n, "b"); S1<R> z_(n, "z"); auto &a = a_.v; auto &b = b_.v; auto &z = z_.v; \
  z = F; T x = a.get(i); U y = b.get(i); vp_assert(same(z.get(i), R(S)), "z(i) is the function of a(i) and b(i)");}
#define F3(name, T, U, V, R, F, S) VP_PROOF(fn_##name) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  S1<T> a_(n, "a"); S1<U> b_(n, "b"); S1<V> c_(n, "c"); S1<R> z_(n, "z"); auto &a = a_.v; auto &b = b_.v; auto &c = c_.v; auto &z = z_.v; \
  z = F; T x = a.get(i); U y = b.get(i); V w = c.get(i); vp_assert(same(z.get(i), R(S)), "z(i) is the function of a(i), b(i) and c(i)");}
// with elements that are not numbers, infinite or denormalised
#ifdef VP_NATIVE
template <typename T> T special(int k) { return k == 0 ? std::numeric_limits<T>::quiet_NaN() : k == 1 ? -std::numeric_limits<T>::infinity() : k == 2 ? std::numeric_limits<T>::denorm_min() : k == 3 ? T(0) : T(1.5);}
inline void odd(float &x, int k) { x = special<float>(k % 5);}
inline void odd(double &x, int k) { x = special<double>(k % 5);}
inline void odd(C &x, int k) { x = C(special<float>(k % 5), special<float>(k / 5));}
#define ODD(T) { T o; odd(o, vp_int("special", 0, 24)); a.put(i, o);}
#else
#define ODD(T)
#endif
#define FX(name, T, R, F, S) VP_PROOF(fn_##name) { \
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1); \
  S1<T> a_(n, "a"); S1<R> z_(n, "z"); auto &a = a_.v; auto &z = z_.v; ODD(T) \
  z = F; T x = a.get(i); vp_assert(same(z.get(i), R(S)), "z(i) is the function of a(i)");}
// the other precision
F1(acos_d, double, double, acos(a), std::acos(x))
F1(asin_d, double, double, asin(a), std::asin(x))
F1(atan_d, double, double, atan(a), std::atan(x))
F1(ceil_d, double, double, ceil(a), std::ceil(x))
F1(cos_d, double, double, cos(a), std::cos(x))
F1(cosh_d, double, double, cosh(a), std::cosh(x))
F1(exp_d, double, double, exp(a), std::exp(x))
F1(floor_f, float, float, floor(a), std::floor(x))
F1(log_d, double, double, log(a), std::log(x))
F1(log10_f, float, float, log10(a), std::log10(x))
F1(mag_d, double, double, mag(a), std::abs(x))
F1(mag_z, Z, double, mag(a), std::abs(x))
F1(magsq_d, double, double, magsq(a), x * x)
F1(magsq_z, Z, double, magsq(a), x.real() * x.real() + x.imag() * x.imag())
F1(neg_d, double, double, neg(a), -x)
F1(neg_i, unsigned, unsigned, neg(a), 0u - x)
F1(recip_d, double, double, recip(a), 1. / x)
F1(sin_d, double, double, sin(a), std::sin(x))
F1(sinh_d, double, double, sinh(a), std::sinh(x))
F1(sq_d, double, double, sq(a), x * x)
F1(sq_i, unsigned, unsigned, sq(a), x * x)
F1(sq_z, Z, Z, sq(a), x * x)
F1(sqrt_f, float, float, sqrt(a), std::sqrt(x))
F1(tan_f, float, float, tan(a), std::tan(x))
F1(tanh_f, float, float, tanh(a), std::tanh(x))
F1(conj_z, Z, Z, conj(a), Z(x.real(), -x.imag()))
F1(real_z, Z, double, real(a), x.real())
F1(imag_z, Z, double, imag(a), x.imag())
F1(arg_z, Z, double, arg(a), std::arg(x))
F1(euler_d, double, Z, euler(a), Z(std::cos(x), std::sin(x)))
F1(log_c, C, C, log(a), std::log(x))
F1(cos_c, C, C, cos(a), std::cos(x))
F1(sin_c, C, C, sin(a), std::sin(x))
F1(impl_conj, float, float, impl_conj(a), x)
F1(impl_conj_c, C, C, impl_conj(a), C(x.real(), -x.imag()))
F1(impl_real, float, float, impl_real(a), x)
F1(impl_imag, float, float, impl_imag(a), 0.f)
F1(impl_imag_c, C, float, impl_imag(a), x.imag())
FX(is_nan_f, float, bool, is_nan(a), x != x)
FX(is_finite_f, float, bool, is_finite(a), std::isfinite(x))
FX(is_nan_d, double, bool, is_nan(a), x != x)
FX(is_nan_c, C, bool, is_nan(a), (x.real() != x.real()) | (x.imag() != x.imag()))
FX(is_finite_d, double, bool, is_finite(a), std::isfinite(x))
FX(is_finite_c, C, bool, is_finite(a), std::isfinite(x.real()) & std::isfinite(x.imag()))
FX(is_normal, float, bool, is_normal(a), std::isnormal(x))
FX(is_normal_d, double, bool, is_normal(a), std::isnormal(x))
FX(is_normal_c, C, bool, is_normal(a), std::isnormal(x.real()) & std::isnormal(x.imag()))
F1(lnot_i, int, bool, lnot(a), x == 0)
F2(atan2_d, double, double, double, atan2(a, b), std::atan2(x, y))
F2(hypot_d, double, double, double, hypot(a, b), ::hypot(x, y))
F2(fmod_f, float, float, float, fmod(a, b), std::fmod(x, y))
F2(pow_d, double, double, double, pow(a, b), std::pow(x, y))
F2(max_d, double, double, double, max(a, b), x < y ? y : x)
F2(min_d, double, double, double, min(a, b), y < x ? y : x)
F2(max_i, int, int, int, max(a, b), x < y ? y : x)
F2(min_i, int, int, int, min(a, b), y < x ? y : x)
F2(maxmg_fd, float, double, double, maxmg(a, b), double(std::abs(x)) > std::abs(y) ? double(std::abs(x)) : std::abs(y))
F2(minmg_df, double, float, double, minmg(a, b), std::abs(x) < double(std::abs(y)) ? std::abs(x) : double(std::abs(y)))
F2(maxmgsq_f, float, float, float, maxmgsq(a, b), x * x > y * y ? x * x : y * y)
F2(minmgsq_f, float, float, float, minmgsq(a, b), x * x < y * y ? x * x : y * y)
F2(maxmgsq_z, Z, Z, double, maxmgsq(a, b), std::norm(x) > std::norm(y) ? std::norm(x) : std::norm(y))
F2(minmgsq_z, Z, Z, double, minmgsq(a, b), std::norm(x) < std::norm(y) ? std::norm(x) : std::norm(y))
F2(jmul_cz, C, Z, Z, jmul(a, b), Z(x) * std::conj(y))
F2(jmul_zc, Z, C, Z, jmul(a, b), x * Z(std::conj(y)))
F2(add_df, double, float, double, add(a, b), x + double(y))
F2(sub_fd, float, double, double, sub(a, b), double(x) - y)
F2(mul_df, double, float, double, mul(a, b), x * double(y))
F2(div_fd, float, double, double, div(a, b), double(x) / y)
F2(div_df_op, double, float, double, a / b, x / double(y))
F2(mul_ui, unsigned, unsigned, unsigned, a * b, x * y)
F2(mul_c, C, C, C, a * b, x * y)
F2(mul_fc, float, C, C, a * b, x * y)
F2(div_cf, C, float, C, a / b, x / y)
F2(sub_c, C, C, C, a - b, x - y)
F2(add_cf, C, float, C, a + b, x + y)
F2(add_fi, float, int, float, a + b, x + float(y))
F2(mul_if, int, float, float, a * b, float(x) * y)
F2(eq_fd, float, double, bool, eq(a, b), double(x) == y)
F2(lt_fd, float, double, bool, lt(a, b), double(x) < y)
F2(ge_df, double, float, bool, a >= b, x >= double(y))
F2(eq_c, C, C, bool, eq(a, b), (x.real() == y.real()) & (x.imag() == y.imag()))
F2(ne_c, C, C, bool, ne(a, b), (x.real() != y.real()) | (x.imag() != y.imag()))
F2(land_i, int, int, bool, land(a, b), (x != 0) & (y != 0))
F2(lor_i, int, int, bool, lor(a, b), (x != 0) | (y != 0))
F2(lxor_i, int, int, bool, lxor(a, b), (x != 0) != (y != 0))
F2(bxor_op_u, unsigned, unsigned, unsigned, a ^ b, x ^ y)
F3(am_d, double, double, double, double, am(a, b, c), (x + y) * w)
F3(ma_c, C, C, C, C, ma(a, b, c), x * y + w)
F3(msb_fdf, float, double, float, double, msb(a, b, c), double(x) * y - double(w))
F3(sbm_ffd, float, float, double, double, sbm(a, b, c), double(x - y) * w)
F3(sbm_c, C, C, C, C, sbm(a, b, c), (x - y) * w)
F3(expoavg_d, double, double, double, double, expoavg(a, b, c), x * y + (1. - x) * w)
F3(ite_i, bool, int, int, int, ite(a, b, c), x ? y : w)
F3(ite_c, bool, C, C, C, ite(a, b, c), x ? y : w)
// matrices and tensors
#define G2(name, T, U, R, O, P, F, S) VP_PROOF(mat_##name) { \
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1); \
  S2<T, O> a_(m, n, "a"); S2<U, P> b_(m, n, "b"); S2<R, O> z_(m, n, "z"); auto &a = a_.v; auto &b = b_.v; auto &z = z_.v; \
  z = F; T x = a.get(i, j); U y = b.get(i, j); vp_assert(same(z.get(i, j), R(S)), "z(i, j) is the function of a(i, j) and b(i, j)");}
G2(add, float, float, float, row2_type, row2_type, a + b, x + y)
G2(sub_mixed, float, double, double, row2_type, col2_type, a - b, double(x) - y)
G2(jmul, C, C, C, col2_type, col2_type, jmul(a, b), x * std::conj(y))
G2(max, float, float, float, col2_type, row2_type, max(a, b), x < y ? y : x)
G2(atan2, float, float, float, row2_type, col2_type, atan2(a, b), std::atan2(x, y))
G2(lt, float, float, bool, row2_type, row2_type, a < b, x < y)
G2(magsq, C, C, float, row2_type, row2_type, magsq(a) + magsq(b), (x.real() * x.real() + x.imag() * x.imag()) + (y.real() * y.real() + y.imag() * y.imag()))
G2(scalar, float, float, float, col2_type, row2_type, 2.f - a * b, 2.f - x * y)
G2(ite, bool, float, float, row2_type, row2_type, ite(a, b, 3.f), x ? y : 3.f)
#define G3(name, T, U, R, F, S) VP_PROOF(ten_##name) { \
  I l = vp_len("l", 1, M3), m = vp_len("m", 1, M3), n = vp_len("n", 1, M3), i = vp_int("i", 0, l - 1), j = vp_int("j", 0, m - 1), k = vp_int("k", 0, n - 1); \
  S3<T, row3_type> a_(l, m, n, "a"); S3<U, row3_type> b_(l, m, n, "b"); S3<R, row3_type> z_(l, m, n, "z"); auto &a = a_.v; auto &b = b_.v; auto &z = z_.v; \
  z = F; T x = a.get(i, j, k); U y = b.get(i, j, k); vp_assert(same(z.get(i, j, k), R(S)), "z(i, j, k) is the function of a(i, j, k) and b(i, j, k)");}
G3(add, float, float, float, a + b, x + y)
G3(jmul, C, C, C, jmul(a, b), x * std::conj(y))
G3(min, float, float, float, min(a, b), y < x ? y : x)
G3(scalar, float, float, float, 2.f - a * b, 2.f - x * y)
// functions given by the user: applied to the corresponding elements, in the order of the operands
static float uf1(float x) { return 3.f - x;}
static float uf2(float x, float y) { return x - 2.f * y;}
static float uf3(float x, float y, float w) { return x - 2.f * y + 3.f * w;}
static bool up(float x) { return x > 1.f;}
static float ufd(float x, double y) { return x - float(2. * y);}
struct Fd { double k; double operator()(float x) const { return k - x;}};
struct Fd2 { typedef double result_type; typedef float first_argument_type; typedef double second_argument_type; double k; double operator()(float x, double y) const { return k * x - y;}};
struct Fd3 { float k; float operator()(float x, float y, float w) const { return k * x - y / w;}};
F1(user, float, float, unary(uf1, a), 3.f - x)
F1(user_pred, float, bool, unary(up, a), x > 1.f)
F1(user_functor, float, double, unary<double>(Fd{5.}, a), 5. - x)
F2(user_2, float, float, float, binary(uf2, a, b), x - 2.f * y)
F2(user_fd, float, double, float, binary(ufd, a, b), x - float(2. * y))
F2(user_functor_2, float, double, double, binary(Fd2{5.}, a, b), 5. * x - y)
F2(user_functor_r2, float, double, double, binary<double>(Fd2{7.}, a, b), 7. * x - y)
F3(user_3, float, float, float, float, ternary(uf3, a, b, c), x - 2.f * y + 3.f * w)
F3(user_functor_3, float, float, float, float, ternary<float>(Fd3{2.f}, a, b, c), 2.f * x - y / w)
G2(user, float, float, float, row2_type, col2_type, binary(uf2, a, b), x - 2.f * y)
G3(user, float, float, float, binary(uf2, a, b), x - 2.f * y)
