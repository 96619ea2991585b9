// C13: lifetime.  A block lives exactly as long as a view (or a reference) uses it, and is freed exactly once.
#include <atomic>
#include <cassert>
#include <ovxx/support.hpp>
// (the contracts quantify over the reference count; nothing of the class is changed)
#define private public
#include <ovxx/refcounted.hpp>
#undef private
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
#include <ovxx/aligned_array.hpp>
#include <ovxx/refcounted.hpp>
#include "vp_views.hpp"
using namespace vp;
typedef std::complex<float> C;

// a view of part of a vector (matrix, tensor) that outlives the view it was made from; copies of it; the last one frees
#define OUTLIVES(MAKE, GET, PUT) \
  I live = vp_live_(); \
  float e = vp::any<float>("e"), f = vp::any<float>("f"); \
  { \
    auto *s = [&] { MAKE }(); \
    vp_assert(same(s->GET, e), "the data outlives the view it was made with"); \
    { auto copy(*s); copy.PUT; } \
    auto *t = new auto(*s); \
    delete s; \
    vp_assert(same(t->GET, f), "the data outlives all but the last view"); \
    delete t; \
  } \
  vp_assert(vp_live_() == live, "the last view frees everything, once");

VP_PROOF(vector)
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1);
  OUTLIVES(Vector<float> v(n, e); return new Vector<float>(v);, get(i), put(i, f))
}
VP_PROOF(vector_sub)
{
  I n = vp_len("n", 1, M1), g = vp_int("g", 0, n - 1), k = vp_int("k", 1, n - g), i = vp_int("i", 0, k - 1);
  typedef Vector<float>::subview_type T;
  OUTLIVES(Vector<float> v(n, e); return new T(v(Domain<1>(g, 1, k)));, get(i), put(i, f))
}
VP_PROOF(vector_sub_sub)
{
  I n = vp_len("n", 1, M1), g = vp_int("g", 0, n - 1), k = vp_int("k", 1, n - g), h = vp_int("h", 0, k - 1), l = vp_int("l", 1, k - h), i = vp_int("i", 0, l - 1);
  typedef Vector<float>::subview_type::subview_type T;
  OUTLIVES(Vector<float> v(n, e); return new T(v(Domain<1>(g, 1, k))(Domain<1>(h, 1, l)));, get(i), put(i, f))
}
VP_PROOF(vector_real)
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1);
  typedef Vector<C>::realview_type T;
  OUTLIVES(Vector<C> v(n, C(e, f)); return new T(v.real());, get(i), put(i, f))
}
VP_PROOF(matrix_row)
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), r = vp_int("r", 0, m - 1), i = vp_int("i", 0, n - 1);
  typedef Matrix<float>::row_type T;
  OUTLIVES(Matrix<float> v(m, n, e); return new T(v.row(r));, get(i), put(i, f))
}
VP_PROOF(matrix_col)
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), c = vp_int("c", 0, n - 1), i = vp_int("i", 0, m - 1);
  typedef Matrix<float>::col_type T;
  OUTLIVES(Matrix<float> v(m, n, e); return new T(v.col(c));, get(i), put(i, f))
}
VP_PROOF(matrix_diag)
{
  I m = vp_len("m", 1, M2), i = vp_int("i", 0, m - 1);
  typedef Matrix<float>::diag_type T;
  OUTLIVES(Matrix<float> v(m, m, e); return new T(v.diag());, get(i), put(i, f))
}
VP_PROOF(matrix_transpose)
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, n - 1), j = vp_int("j", 0, m - 1);
  typedef Matrix<float>::transpose_type T;
  OUTLIVES(Matrix<float> v(m, n, e); return new T(v.transpose());, get(i, j), put(i, j, f))
}
VP_PROOF(matrix_sub_row)
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), r = vp_int("r", 0, m - 1), i = vp_int("i", 0, n - 1);
  typedef Matrix<float>::subview_type::row_type T;
  OUTLIVES(Matrix<float> v(m, n, e); return new T(v(Domain<2>(m, n)).row(r));, get(i), put(i, f))
}
VP_PROOF(tensor_slice)
{
  I l = vp_len("l", 1, M3), m = vp_len("m", 1, M3), n = vp_len("n", 1, M3), x = vp_int("x", 0, l - 1), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
  typedef Tensor<float>::submatrix<0>::type T;
  OUTLIVES(Tensor<float> v(l, m, n, e); return new T(v(x, whole_domain, whole_domain));, get(i, j), put(i, j, f))
}
// evaluating an expression (with a cached sub-result), passing views by value and assigning leaves nothing behind
VP_PROOF(expressions)
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1);
  float e = vp::any<float>("e"), f = vp::any<float>("f");
  I live = vp_live_();
  {
    Vector<float> v(n, e), w(n, f), z(n);
    z = v * w + v;
    vp_assert(same(z.get(i), e * f + e), "the expression's value");
    z(Domain<1>(n)) = z * w;
    vp_assert(same(z.get(i), (e * f + e) * f), "the expression's value");
    Vector<float> copy(z + v);
    vp_assert(same(copy.get(i), (e * f + e) * f + e), "a view made from an expression");
  }
  vp_assert(vp_live_() == live, "nothing is left behind");
}
// the reference count, from any state
struct counted : ovxx::refcounted<counted> { int *gone; counted(int *g) : gone(g) {} ~counted() { ++*gone;}};
VP_PROOF(references)
{
  int gone = 0, other = 0;
  I live = vp_live_();
  {
    ovxx::refcounted_ptr<counted> p(new counted(&gone), false), q(new counted(&other), false), none;
    vp_assert(!gone & !other, "alive while referenced");
    {
      ovxx::refcounted_ptr<counted> a(p), b(p.get());
      a = a; b = a;
      p = q;
      vp_assert(!gone & !other & (p.get() == q.get()), "alive while referenced");
      a = none;
      vp_assert(!gone & !a.get(), "the other reference is left");
      b.reset(q.get(), true);
      vp_assert(gone == 1 && !other, "the last reference destroys the object");
      a = b;
    }
    vp_assert((gone == 1) & !other, "alive while referenced");
    q.reset(0);
    vp_assert(!other & (p.get() != 0), "one reference is left");
    none = p; p = q; 
    vp_assert(!other & !p.get(), "one reference is left");
  }
  vp_assert((gone == 1) & (other == 1), "destroyed once");
  vp_assert(vp_live_() == live, "freed");
}
// one step from any number of references
VP_PROOF(count)
{
  int gone = 0;
  I k = vp_int("k", 1, (1L << 32) - 2);
  counted *c = new counted(&gone);
  c->count_ = unsigned(k);
  c->increment_count();
  vp_assert((gone == 0) & (I(c->count_) == k + 1), "one reference more");
  c->decrement_count();
  vp_assert((gone == 0) & (I(c->count_) == k), "one reference less: alive");
  c->decrement_count();
  vp_assert(gone == (k == 1), "destroyed with the last reference only");
}
template <typename T> void array_()
{
  I n = vp_len("n", 1, M1), m = vp_len("m", 1, M1), i = vp_int("i", 0, n - 1);
  T v = vp::any<T>("v");
  I live = vp_live_();
  {
    ovxx::aligned_array<T> a(n), b(m), none;
    vp_assert((I(a.size()) == n) & (std::size_t(a.get()) % OVXX_ALLOC_ALIGNMENT == 0), "size and alignment");
    a[i] = v;
    ovxx::aligned_array<T> c(a);
    vp_assert(!a.get() & (I(c.size()) == n) & (a.size() == 0), "a copy takes the array over");
    b = c;
    vp_assert(!c.get() & (I(b.size()) == n) & same(b[i], v), "an assignment takes the array over");
    b = b;
    vp_assert((I(b.size()) == n) & same(b[i], v), "self-assignment");
    none = ovxx::aligned_array<T>(m);
    vp_assert(I(none.size()) == m, "from a temporary");
  }
  vp_assert(vp_live_() == live, "freed once");
}
VP_PROOF(array_float) { array_<float>();}
VP_PROOF(array_complex) { array_<C>();}
VP_PROOF(array_data)
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1);
  float *d = vp::array<float>("d", n);
  I live = vp_live_();
  {
    ovxx::aligned_array<float> a(64, n, d);
    vp_assert((I(a.size()) == n) & (std::size_t(a.get()) % 64 == 0) & same(a[i], d[i]), "a copy of the data, aligned as asked for");
  }
  vp_assert(vp_live_() == live, "freed once");
}
