// C10: selection and generation functions (clip, invclip, first, indexbool, gather, scatter, swap, ramp)
#define VP_MPI
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include "vp_views.hpp"
#include "vp_assign.hpp"
using namespace vp;
typedef std::complex<float> C;

// ramp
template <typename T> void ramp_()
{
  I n = vp_len("n", 1, M1), k = vp_int("k", 0, n - 1); T a = any<T>("a"), b = any<T>("b");
  auto r = ramp(a, b, n);
  vp_assert(r.size() == index_type(n), "a ramp has the requested length");
  vp_assert(same(T(r.get(k)), T(a + T(k) * b)), "element k of a ramp is a + k b");
  S1<T> x(n, "x");
  x.v = r;
  vp_assert(same(x.v.get(k), T(a + T(k) * b)), "an assigned ramp has a + k b at k");
}
VP_PROOF(ramp_f) { ramp_<float>();}
VP_PROOF(ramp_d) { ramp_<double>();}
VP_PROOF(ramp_sub)
{
  I m = vp_len("m", 1, M1), t = vp_int("t", 1, 64), g = vp_int("g", 0, t - 1), k = vp_int("k", 0, m - 1), q = vp_int("q", 0, m * t - 1); float a = any<float>("a"), b = any<float>("b");
  vp_assume(m * t <= M1);
  S1<float> x(m * t, "x"); float old = x.v.get(q);
  x.v(Domain<1>(g, t, m)) = ramp(a, b, m);
  vp_assert(same(x.v.get(g + k * t), a + float(k) * b), "a ramp assigned to a subview");
  vp_assert((q - g) % t == 0 ? true : bool(same(x.v.get(q), old)), "elements outside the subview are unchanged");
}

// clip and inverse clip (the thresholds may be in any order; comparisons with NaN are false)
template <typename T> T clip_ref(T t, T lo, T hi, T a, T b) { return t <= lo ? a : t < hi ? t : b;}
template <typename T> T invclip_ref(T t, T lo, T mi, T hi, T a, T b) { return t < lo ? t : t < mi ? a : t <= hi ? b : t;}
template <typename T> void clip_()
{
  I n = vp_len("n", 1, M1), k = vp_int("k", 0, n - 1); S1<T> x(n, "x"), y(n, "y");
  T lo = any<T>("lo"), hi = any<T>("hi"), a = any<T>("a"), b = any<T>("b"), mi = any<T>("mi");
  T t = x.v.get(k);
  y.v = clip(x.v, lo, hi, a, b);
  vp_assert(same(y.v.get(k), clip_ref(t, lo, hi, a, b)), "clip replaces elements at or below the lower and at or above the upper threshold");
  y.v = invclip(x.v, lo, mi, hi, a, b);
  vp_assert(same(y.v.get(k), invclip_ref(t, lo, mi, hi, a, b)), "invclip replaces the elements between the thresholds");
}
VP_PROOF(clip_f) { clip_<float>();}
VP_PROOF(clip_d) { clip_<double>();}
VP_PROOF(clip_i) { clip_<int>();}
VP_PROOF(clip_mixed)
{
  I n = vp_len("n", 1, M1), k = vp_int("k", 0, n - 1); S1<float> x(n, "x"); S1<double> y(n, "y");
  double lo = any<double>("lo"), hi = any<double>("hi"), a = any<double>("a"), b = any<double>("b");
  float t = x.v.get(k);
  y.v = clip(x.v, lo, hi, a, b);
  vp_assert(same(y.v.get(k), t <= lo ? a : t < hi ? double(t) : b), "clip with another result type");
}
template <typename O> void clip2_()
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); S2<float, O> x(r, c, "x"), y(r, c, "y"); Ix<2> k = some("k", Ix<2>(r, c));
  float lo = any<float>("lo"), hi = any<float>("hi"), a = any<float>("a"), b = any<float>("b"), mi = any<float>("mi"), t = get(x.v, k);
  y.v = clip(x.v, lo, hi, a, b);
  vp_assert(same(get(y.v, k), clip_ref(t, lo, hi, a, b)), "clip of a matrix");
  y.v = invclip(x.v, lo, mi, hi, a, b);
  vp_assert(same(get(y.v, k), invclip_ref(t, lo, mi, hi, a, b)), "invclip of a matrix");
}
VP_PROOF(clip_row) { clip2_<row2_type>();}
VP_PROOF(clip_col) { clip2_<col2_type>();}

// first
struct less_ { bool operator()(float a, float b) const { return a < b;}};
struct eq_ { bool operator()(int a, int b) const { return a == b;}};
template <typename T, typename P> void first_(P p)
{
  I n = vp_len("n", 1, M1), b = vp_int("begin", 0, M1), k = vp_int("k", 0, n - 1); S1<T> x(n, "x"), y(n, "y");
  I r = first(b, p, x.v, y.v);
  vp_assert(b <= n ? (r >= b) & (r <= n) : r == b, "first returns an index from begin on, or the size");
  if (r < n) vp_assert(p(x.v.get(r), y.v.get(r)), "the predicate holds at the index returned");
  if ((k >= b) & (k < r)) vp_assert(!p(x.v.get(k), y.v.get(k)), "the predicate does not hold at an earlier index");
}
VP_PROOF(first_f) { first_<float>(less_());}
VP_PROOF(first_i) { first_<int>(eq_());}

// indexbool: the indices of the true elements, in ascending order, as many as fit; returns how many are true
VP_PROOF(indexbool_1)
{
  I n = vp_len("n", 1, M1), m = vp_len("m", 1, M1); S1<bool> x(n, "x"); I q = vp_int("q", 0, m - 1);
  unsigned long *ip = vp::array<unsigned long>("ix", m); Dense<1, Index<1> > ib(Domain<1>(m), reinterpret_cast<Index<1>*>(ip)); ib.admit(true);
  Vector<Index<1> > ix(ib);
  unsigned long old = ix.get(q)[0];
  unsigned long r = indexbool(x.v, ix);
  // the reference: the number of true elements, and the index of the q-th of them
  unsigned long cnt = 0, at = old;
  for (I i = 0; i < n; ++i) { if (x.v.get(i) & (cnt == (unsigned long)q)) at = i; cnt += x.v.get(i) ? 1 : 0;}
  vp_assert(r == cnt, "indexbool returns the number of true elements");
  vp_assert(ix.get(q)[0] == at, "entry q is the index of the q-th true element, or unchanged if there is none");
}
VP_PROOF(indexbool_2)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2), m = vp_len("m", 1, M1); S2<bool> x(r, c, "x"); I q = vp_int("q", 0, m - 1);
  unsigned long *ip = vp::array<unsigned long>("ix", 2 * m); Dense<1, Index<2> > ib(Domain<1>(m), reinterpret_cast<Index<2>*>(ip)); ib.admit(true);
  Vector<Index<2>, Dense<1, Index<2> > > ix(ib);
  unsigned long o0 = ix.get(q)[0], o1 = ix.get(q)[1];
  unsigned long res = indexbool(x.v, ix);
  unsigned long cnt = 0, a0 = o0, a1 = o1;
  for (I i = 0; i < r; ++i) for (I j = 0; j < c; ++j)
  { bool b = x.v.get(i, j); if (b & (cnt == (unsigned long)q)) { a0 = i; a1 = j;} cnt += b ? 1 : 0;}
  vp_assert(res == cnt, "indexbool returns the number of true elements");
  vp_assert((ix.get(q)[0] == a0) & (ix.get(q)[1] == a1), "entry q is the index of the q-th true element in row-major order, or unchanged");
}

// gather and scatter
struct Ix1 // a vector of m valid indices into n elements
{
  unsigned long *p; Dense<1, Index<1> > b; Vector<Index<1> > v;
  Ix1(I m, I n) : p(vp::array<unsigned long>("ix", m, 0, n - 1)), b(Domain<1>(m), reinterpret_cast<Index<1>*>(p)), v(b) { b.admit(true);}
};
VP_PROOF(gather_1)
{
  I n = vp_len("n", 1, M1), m = vp_len("m", 1, M1), k = vp_int("k", 0, m - 1); S1<float> x(n, "x"); Ix1 ix(m, n);
  Vector<float> r = gather(x.v, ix.v);
  vp_assert(r.size() == index_type(m), "gather returns one element per index");
  vp_assert(same(r.get(k), x.v.get(ix.p[k])), "element k is the element at index k");
}
VP_PROOF(gather_2)
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2), m = vp_len("m", 1, M1), k = vp_int("k", 0, m - 1); S2<float, col2_type> x(r, c, "x");
  unsigned long *p0 = vp::array<unsigned long>("i0", m, 0, r - 1), *p1 = vp::array<unsigned long>("i1", m, 0, c - 1);
  Vector<Index<2> > ix(m);
  for (I i = 0; i < m; ++i) ix.put(i, Index<2>(p0[i], p1[i]));
  Vector<float> g = gather(x.v, ix);
  vp_assert(same(g.get(k), x.v.get(p0[k], p1[k])), "element k is the element at index k");
}
VP_PROOF(scatter_1)
{
  I n = vp_len("n", 1, M1), m = vp_len("m", 1, M1), k = vp_int("k", 0, n - 1); S1<float> x(m, "x"), y(n, "y"); Ix1 ix(m, n);
  float want = y.v.get(k);
  scatter(x.v, ix.v, y.v);
  for (I i = 0; i < m; ++i) want = ix.p[i] == (unsigned long)k ? x.v.get(i) : want;
  vp_assert(same(y.v.get(k), want), "an element gets the last value scattered to it, or is unchanged");
}
VP_PROOF(scatter_sub)
{
  I n = vp_len("n", 1, M1), m = vp_len("m", 1, M1), k = vp_int("k", 0, n - 1); S1<float> x(m, "x"), y(3 * n + 1, "y"); Ix1 ix(m, n);
  float want = y.v.get(1 + 3 * k), o = y.v.get(3 * k);
  scatter(x.v, ix.v, y.v(Domain<1>(1, 3, n)));
  for (I i = 0; i < m; ++i) want = ix.p[i] == (unsigned long)k ? x.v.get(i) : want;
  vp_assert(same(y.v.get(1 + 3 * k), want), "an element gets the last value scattered to it, or is unchanged");
  vp_assert(same(y.v.get(3 * k), o), "elements outside the subview are unchanged");
}

// swap exchanges the elements of two views
VP_PROOF(swap_1)
{
  I n = vp_len("n", 1, M1), k = vp_int("k", 0, n - 1); S1<float> x(n, "x"), y(n, "y"); float a = x.v.get(k), b = y.v.get(k);
  swap(x.v, y.v);
  vp_assert(same(x.v.get(k), b) & same(y.v.get(k), a), "swap exchanges the elements");
}
VP_PROOF(swap_sub)
{
  I n = vp_len("n", 1, M1), k = vp_int("k", 0, n - 1); S1<float> x(2 * n, "x"), y(n, "y"); float a = x.v.get(2 * k), b = y.v.get(n - 1 - k), o = x.v.get(2 * k + 1);
  swap(x.v(Domain<1>(0, 2, n)), y.v(Domain<1>(n - 1, -1, n)));
  vp_assert(same(x.v.get(2 * k), b) & same(y.v.get(n - 1 - k), a), "swap exchanges the elements of subviews");
  vp_assert(same(x.v.get(2 * k + 1), o), "other elements are unchanged");
}
template <typename OA, typename OB> void swap2()
{
  I r = vp_len("rows", 1, M2), c = vp_len("cols", 1, M2); S2<float, OA> x(r, c, "x"); S2<float, OB> y(r, c, "y"); Ix<2> k = some("k", Ix<2>(r, c));
  float a = get(x.v, k), b = get(y.v, k);
  swap(x.v, y.v);
  vp_assert(same(get(x.v, k), b) & same(get(y.v, k), a), "swap exchanges the elements of matrices");
}
VP_PROOF(swap_rr) { swap2<row2_type, row2_type>();}
VP_PROOF(swap_cc) { swap2<col2_type, col2_type>();}
VP_PROOF(swap_rc) { swap2<row2_type, col2_type>();}
VP_PROOF(swap_view)
{
  I r = vp_len("rows", 1, 1L << 16), c = vp_len("cols", 1, 1L << 16); S2<float> x(r, 2 * c, "x"); S2<float> y(c, r, "y"); Ix<2> k = some("k", Ix<2>(r, c));
  float a = x.v.get(k.i, 2 * k.j), b = y.v.get(k.j, k.i), o = x.v.get(k.i, 2 * k.j + 1);
  swap(x.v(Domain<2>(r, Domain<1>(0, 2, c))), y.v.transpose());
  vp_assert(same(x.v.get(k.i, 2 * k.j), b) & same(y.v.get(k.j, k.i), a), "swap exchanges a strided submatrix with a transpose");
  vp_assert(same(x.v.get(k.i, 2 * k.j + 1), o), "other elements are unchanged");
}
