// vp_blas.hpp -- assumed contract of the BLAS library: every routine /repo calls, as the BLAS documentation defines it
// (Fortran column-major storage, leading dimensions, negative increments start at the far end, C / y not read if beta is
// zero).  Argument errors the reference BLAS reports through XERBLA are obligations on the caller.
#ifndef VP_BLAS_HPP
#define VP_BLAS_HPP
#include <complex>
namespace vp_blas
{
template <typename T> T cj(T x) { return x;}
template <typename T> std::complex<T> cj(std::complex<T> const &x) { return std::complex<T>(x.real(), -x.imag());}
inline int max1(int n) { return n > 1 ? n : 1;}
inline bool is_n(char c) { return c == 'n' || c == 'N';}
inline bool is_c(char c) { return c == 'c' || c == 'C';}
inline bool op_ok(char c) { return is_n(c) || is_c(c) || c == 't' || c == 'T';}
template <typename T> T dot(int n, T const *x, int incx, T const *y, int incy, bool conj)
{
  typedef std::int64_t I;
  I sx = incx, sy = incy, kx = sx < 0 ? (1 - I(n)) * sx : 0, ky = sy < 0 ? (1 - I(n)) * sy : 0;
  T s = T();
  if (conj) for (I i = 0; i < n; ++i) s += cj(x[kx + i * sx]) * y[ky + i * sy];
  else for (I i = 0; i < n; ++i) s += x[kx + i * sx] * y[ky + i * sy];
  return s;
}
template <typename T> T scale(T alpha, T s) { return alpha * s;}   // 1 * s is s
template <typename T> bool one(T) { return false;}
template <typename T> bool one(std::complex<T> x) { return (x.real() == 1) & (x.imag() == 0);}
template <typename T> bool zero(T x) { return x == 0;}
template <typename T> bool zero(std::complex<T> x) { return (x.real() == 0) & (x.imag() == 0);}
template <bool A1, bool B0> struct upd
{
  template <typename T> static void set(T *r, T alpha, T s, T beta)
  {
    T v = A1 ? s : scale(alpha, s);
    if (!B0) v = v + beta * *r;
    *r = v;
  }
};
template <typename U, typename T> void gemv_(char tr, int m, int n, T alpha, T const *a, int lda, T const *x, int incx, T beta, T *y, int incy)
{
  typedef std::int64_t I;
  vp_assert(op_ok(tr) & (m >= 0) & (n >= 0) & (lda >= max1(m)) & (incx != 0) & (incy != 0), "gemv arguments are legal");
  I lx = is_n(tr) ? n : m, ly = is_n(tr) ? m : n, sx = incx, sy = incy, ld = lda;
  I kx = sx < 0 ? (1 - lx) * sx : 0, ky = sy < 0 ? (1 - ly) * sy : 0;
  for (I i = 0; i < ly; ++i)
  {
    T s = T();
    if (is_n(tr)) for (I k = 0; k < lx; ++k) s += a[i + k * ld] * x[kx + k * sx];
    else if (is_c(tr)) for (I k = 0; k < lx; ++k) s += cj(a[k + i * ld]) * x[kx + k * sx];
    else for (I k = 0; k < lx; ++k) s += a[k + i * ld] * x[kx + k * sx];
    U::set(y + ky + i * sy, alpha, s, beta);
  }
}
template <typename T> void gemv(char tr, int m, int n, T alpha, T const *a, int lda, T const *x, int incx, T beta, T *y, int incy)
{
  if (zero(beta)) { if (one(alpha)) gemv_<upd<true, true> >(tr, m, n, alpha, a, lda, x, incx, beta, y, incy); else gemv_<upd<false, true> >(tr, m, n, alpha, a, lda, x, incx, beta, y, incy);}
  else { if (one(alpha)) gemv_<upd<true, false> >(tr, m, n, alpha, a, lda, x, incx, beta, y, incy); else gemv_<upd<false, false> >(tr, m, n, alpha, a, lda, x, incx, beta, y, incy);}
}
template <typename U, typename T> void gemm_(char ta, char tb, int m, int n, int k, T alpha, T const *a, int lda, T const *b, int ldb, T beta, T *c, int ldc)
{
  typedef std::int64_t I;
  vp_assert(op_ok(ta) & op_ok(tb) & (m >= 0) & (n >= 0) & (k >= 0) & (lda >= max1(is_n(ta) ? m : k))
	    & (ldb >= max1(is_n(tb) ? k : n)) & (ldc >= max1(m)), "gemm arguments are legal");
  I la = lda, lb = ldb, lc = ldc, ai = is_n(ta) ? 1 : la, ak = is_n(ta) ? la : 1, bk = is_n(tb) ? 1 : lb, bj = is_n(tb) ? lb : 1;
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < m; ++i)
    {
      T s = T();
      if (!is_c(ta) && !is_c(tb)) for (I l = 0; l < k; ++l) s += a[i * ai + l * ak] * b[l * bk + j * bj];
      else for (I l = 0; l < k; ++l)
      {
	T x = a[i * ai + l * ak], y = b[l * bk + j * bj];
	s += (is_c(ta) ? cj(x) : x) * (is_c(tb) ? cj(y) : y);
      }
      U::set(c + i + j * lc, alpha, s, beta);
    }
}
template <typename T> void gemm(char ta, char tb, int m, int n, int k, T alpha, T const *a, int lda, T const *b, int ldb, T beta, T *c, int ldc)
{
  if (zero(beta)) { if (one(alpha)) gemm_<upd<true, true> >(ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); else gemm_<upd<false, true> >(ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc);}
  else { if (one(alpha)) gemm_<upd<true, false> >(ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); else gemm_<upd<false, false> >(ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc);}
}
template <typename T> void ger(int m, int n, T alpha, T const *x, int incx, T const *y, int incy, T *a, int lda, bool conj)
{
  typedef std::int64_t I;
  vp_assert((m >= 0) & (n >= 0) & (incx != 0) & (incy != 0) & (lda >= max1(m)), "ger arguments are legal");
  I sx = incx, sy = incy, ld = lda, kx = sx < 0 ? (1 - I(m)) * sx : 0, ky = sy < 0 ? (1 - I(n)) * sy : 0;
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < m; ++i)
    {
      T v = y[ky + j * sy];
      if (conj) v = cj(v);
      T p = v * x[kx + i * sx];
      if (one(alpha)) a[i + j * ld] += p; else a[i + j * ld] += scale(alpha, p);
    }
}
}
#define VP_BLAS_R(T, p) \
extern "C" T p##dot_(int *n, T *x, int *ix, T *y, int *iy) { return vp_blas::dot<T>(*n, x, *ix, y, *iy, false);} \
extern "C" void p##ger_(int *m, int *n, T *al, T *x, int *ix, T *y, int *iy, T *a, int *lda) { vp_blas::ger<T>(*m, *n, *al, x, *ix, y, *iy, a, *lda, false);} \
VP_BLAS_A(T, p)
#define VP_BLAS_A(T, p) \
extern "C" void p##gemv_(char *t, int *m, int *n, T *al, T *a, int *lda, T *x, int *ix, T *be, T *y, int *iy) \
{ vp_blas::gemv<T>(*t, *m, *n, *al, a, *lda, x, *ix, *be, y, *iy);} \
extern "C" void p##gemm_(char *ta, char *tb, int *m, int *n, int *k, T *al, T *a, int *lda, T *b, int *ldb, T *be, T *c, int *ldc) \
{ vp_blas::gemm<T>(*ta, *tb, *m, *n, *k, *al, a, *lda, b, *ldb, *be, c, *ldc);}
#define VP_BLAS_C(S, p) \
extern "C" S _Complex p##dotu_(int *n, std::complex<S> *x, int *ix, std::complex<S> *y, int *iy) \
{ std::complex<S> r = vp_blas::dot<std::complex<S> >(*n, x, *ix, y, *iy, false); S _Complex c; __real__ c = r.real(); __imag__ c = r.imag(); return c;} \
extern "C" S _Complex p##dotc_(int *n, std::complex<S> *x, int *ix, std::complex<S> *y, int *iy) \
{ std::complex<S> r = vp_blas::dot<std::complex<S> >(*n, x, *ix, y, *iy, true); S _Complex c; __real__ c = r.real(); __imag__ c = r.imag(); return c;} \
extern "C" void p##geru_(int *m, int *n, std::complex<S> *al, std::complex<S> *x, int *ix, std::complex<S> *y, int *iy, std::complex<S> *a, int *lda) \
{ vp_blas::ger<std::complex<S> >(*m, *n, *al, x, *ix, y, *iy, a, *lda, false);} \
extern "C" void p##gerc_(int *m, int *n, std::complex<S> *al, std::complex<S> *x, int *ix, std::complex<S> *y, int *iy, std::complex<S> *a, int *lda) \
{ vp_blas::ger<std::complex<S> >(*m, *n, *al, x, *ix, y, *iy, a, *lda, true);} \
VP_BLAS_A(std::complex<S>, p)
VP_BLAS_R(float, s)
VP_BLAS_R(double, d)
VP_BLAS_C(float, c)
VP_BLAS_C(double, z)
#endif
