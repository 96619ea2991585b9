// C13: user storage.  Between admit and release the library owns the data, outside the user does; a block moves the data
// between the user's memory and its own where the formats differ, exactly at admit(true) and release(true).
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include "vp_views.hpp"
using namespace vp;
typedef std::complex<float> C;
typedef std::complex<double> Z;

// the user's memory in its three formats
template <typename E> struct array_of
{
  E *p;
  static user_storage_type const format = array_format;
  array_of(I n, char const *nm) : p(vp::array<E>(nm, n)) {}
  E *ptr() const { return p;}
  E get(I i) const { return p[i];}
  void put(I i, E v) { p[i] = v;}
  template <typename B> bool found(B &b) const { E *q = 0; b.find(q); return q == p;}
  template <typename B> bool released(B &b, bool u) const { E *q = 0; b.release(u, q); return q == p;}
};
template <typename E> struct inter_of
{
  typedef typename E::value_type T;
  T *p;
  static user_storage_type const format = interleaved_format;
  inter_of(I n, char const *nm) : p(vp::array<T>(nm, 2 * n)) {}
  T *ptr() const { return p;}
  E get(I i) const { return E(p[2 * i], p[2 * i + 1]);}
  void put(I i, E v) { p[2 * i] = v.real(); p[2 * i + 1] = v.imag();}
  template <typename B> bool found(B &b) const { T *q = 0; b.find(q); return q == p;}
  template <typename B> bool released(B &b, bool u) const { T *q = 0; b.release(u, q); return q == p;}
};
template <typename E> struct split_of
{
  typedef typename E::value_type T;
  T *r, *i_;
  static user_storage_type const format = split_format;
  split_of(I n, char const *nm) : r(vp::array<T>(nm, n)), i_(vp::array<T>(nm, n)) {}
  std::pair<T*, T*> ptr() const { return std::pair<T*, T*>(r, i_);}
  E get(I i) const { return E(r[i], i_[i]);}
  void put(I i, E v) { r[i] = v.real(); i_[i] = v.imag();}
  template <typename B> bool found(B &b) const
  {
    T *p = 0, *q = 0; b.find(p, q);
    std::pair<T*, T*> s(0, 0); b.find(s);
    return (p == r) & (q == i_) & (s.first == r) & (s.second == i_);
  }
  template <typename B> bool released(B &b, bool u) const { T *p = 0, *q = 0; b.release(u, p, q); return (p == r) & (q == i_);}
};
template <storage_format_type F> struct as1 { template <typename E> using block = ovxx::stored_block<E, Layout<1, row1_type, dense, F> >;};
template <storage_format_type F, user_storage_type U> struct direct
{ static bool const value = F == split_complex ? U == split_format : U != split_format;};

// a life of the block: bound, admitted, changed, released, changed by the user, admitted again, destroyed
template <typename E, storage_format_type F, template <typename> class U, bool IN, bool OUT> void life()
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1), k = vp_int("k", 0, n - 1);
  bool const same_memory = direct<F, U<E>::format>::value;
  U<E> u(n, "user");
  E u0 = u.get(i), v = vp::any<E>("v"), w = vp::any<E>("w");
  I live = vp_live_();
  {
    typename as1<F>::template block<E> b(Domain<1>(n), u.ptr());
    vp_assert(!b.admitted() & (b.user_storage() == U<E>::format) & (I(b.size()) == n), "a block over user storage starts released");
    vp_assert(u.found(b), "find gives the user's memory");
    b.admit(IN);
    vp_assert(b.admitted(), "admitted after admit");
    vp_assert(same(u.get(i), u0), "admit leaves the user's memory alone");
    if (IN || same_memory) vp_assert(same(b.get(i), u0), "admit(true): the block has the user's data");
    b.put(k, v);
    if (!same_memory) vp_assert(same(u.get(i), u0), "changes of the block do not show in the user's memory before the release");
    b.admit(true);
    vp_assert(same(b.get(k), v) & b.admitted(), "admitting an admitted block does nothing");
    if (OUT) vp_assert(u.released(b, true), "release gives the user's memory");
    else b.release(false);
    vp_assert(!b.admitted() & (b.user_storage() == U<E>::format), "released after release");
    if (OUT || same_memory) vp_assert(same(u.get(k), v), "release(true): the user's memory has the block's data");
    if ((IN && OUT) || same_memory) vp_assert(same(u.get(i), i == k ? v : u0), "release(true): every element");
    if (!OUT && !same_memory) vp_assert(same(u.get(i), u0), "release(false) leaves the user's memory alone");
    u.put(k, w);
    b.release(true);
    vp_assert(same(u.get(k), w) & !b.admitted(), "releasing a released block does nothing");
    b.admit(true);
    vp_assert(same(b.get(k), w), "the next admit(true) sees the user's changes");
  }
  vp_assert(same(u.get(k), w), "the user's memory survives the block");
  vp_assert(vp_live_() == live, "the block's own memory is freed");
}
// binding other memory, of another size and in another format
template <typename E, storage_format_type F, template <typename> class U, template <typename> class W, bool SIZE> void rebound()
{
  I n = vp_len("n", 1, M1), m = SIZE ? vp_len("m", 1, M1) : n, i = vp_int("i", 0, n - 1), j = vp_int("j", 0, m - 1);
  U<E> u(n, "user"); W<E> w(m, "other");
  E u0 = u.get(i), w0 = w.get(j), v = vp::any<E>("v");
  I live = vp_live_();
  {
    typename as1<F>::template block<E> b(Domain<1>(n), u.ptr());
    b.admit(true);
    b.release(true);
    if (SIZE) b.rebind(w.ptr(), Domain<1>(m)); else b.rebind(w.ptr());
    vp_assert(!b.admitted() & (b.user_storage() == W<E>::format) & (I(b.size()) == m), "rebound: released, with the new memory's format and size");
    vp_assert(w.found(b), "find gives the new memory");
    b.admit(true);
    vp_assert(same(b.get(j), w0), "admit(true): the data of the new memory");
    b.put(j, v);
    b.release(true);
    vp_assert(same(w.get(j), v), "release(true): to the new memory");
    vp_assert(same(u.get(i), u0), "the old memory is left alone");
  }
  vp_assert(same(w.get(j), v) & (vp_live_() == live), "the new memory survives the block, its own is freed");
}
// a block without user storage
template <typename E, storage_format_type F> void own()
{
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1), k = vp_int("k", 0, n - 1);
  E v = vp::any<E>("v"), w = vp::any<E>("w");
  I live = vp_live_();
  {
    typename as1<F>::template block<E> b(Domain<1>(n), v);
    vp_assert(b.admitted() & (b.user_storage() == no_user_format), "always admitted, no user storage");
    b.put(k, w);
    b.admit(true);
    b.release(true);
    vp_assert(same(b.get(i), i == k ? w : v), "release leaves the data alone");
    b.admit(true);
    vp_assert(same(b.get(i), i == k ? w : v) & b.admitted(), "admit leaves the data alone");
    E *p = &v; b.release(true, p);
    vp_assert(!p, "there is no user's memory");
  }
  vp_assert(vp_live_() == live, "the block's memory is freed");
}
// matrices and tensors: the user's memory holds the elements in the block's dimension order
template <typename E, typename O, template <typename> class U> void matrix_(bool col)
{
  I m = vp_len("m", 1, M2), n = vp_len("n", 1, M2), i = vp_int("i", 0, m - 1), j = vp_int("j", 0, n - 1);
  U<E> u(m * n, "user");
  E u0 = u.get(col ? j * m + i : i * n + j), v = vp::any<E>("v");
  Dense<2, E, O> b(Domain<2>(m, n), u.ptr());
  b.admit(true);
  Matrix<E, Dense<2, E, O> > x(b);
  vp_assert(same(x.get(i, j), u0), "element (i, j) of the matrix in the user's memory");
  x.put(i, j, v);
  b.release(true);
  vp_assert(same(u.get(col ? j * m + i : i * n + j), v), "after the release: element (i, j)");
}
template <typename E, typename O> void tensor_(int a, int b, int c)
{
  I s[3] = { I(vp_len("l", 1, M3)), I(vp_len("m", 1, M3)), I(vp_len("n", 1, M3))};
  I x[3] = { vp_int("i", 0, s[0] - 1), vp_int("j", 0, s[1] - 1), vp_int("k", 0, s[2] - 1)};
  array_of<E> u(s[0] * s[1] * s[2], "user");
  I at = (x[a] * s[b] + x[b]) * s[c] + x[c];
  E u0 = u.get(at), v = vp::any<E>("v");
  Dense<3, E, O> d(Domain<3>(s[0], s[1], s[2]), u.ptr());
  d.admit(true);
  Tensor<E, Dense<3, E, O> > t(d);
  vp_assert(same(t.get(x[0], x[1], x[2]), u0), "element (i, j, k) of the tensor in the user's memory");
  t.put(x[0], x[1], x[2], v);
  d.release(true);
  vp_assert(same(u.get(at), v), "after the release: element (i, j, k)");
}
#define L(name, ...) VP_PROOF(life_##name) { life<__VA_ARGS__>();}
L(float, float, vsip::array, array_of, true, true)
L(float_in, float, vsip::array, array_of, true, false)
L(float_out, float, vsip::array, array_of, false, true)
L(int_none, int, vsip::array, array_of, false, false)
L(c_array, C, vsip::array, array_of, true, true)
L(c_array_inter, C, vsip::array, inter_of, true, true)
L(c_array_inter_none, C, vsip::array, inter_of, false, false)
L(c_array_split, C, vsip::array, split_of, true, true)
L(c_array_split_in, C, vsip::array, split_of, true, false)
L(c_array_split_out, C, vsip::array, split_of, false, true)
L(c_array_split_none, C, vsip::array, split_of, false, false)
L(c_split, C, split_complex, split_of, true, true)
L(c_split_none, C, split_complex, split_of, false, false)
L(c_split_array, C, split_complex, array_of, true, true)
L(c_split_array_in, C, split_complex, array_of, true, false)
L(c_split_array_out, C, split_complex, array_of, false, true)
L(z_split_inter, Z, split_complex, inter_of, true, true)
L(z_split_inter_none, Z, split_complex, inter_of, false, false)
L(c_inter, C, interleaved_complex, inter_of, true, true)
L(c_inter_array, C, interleaved_complex, array_of, true, true)
L(c_inter_split, C, interleaved_complex, split_of, true, true)
#define R(name, ...) VP_PROOF(rebind_##name) { rebound<__VA_ARGS__>();}
R(float, float, vsip::array, array_of, array_of, false)
R(float_size, float, vsip::array, array_of, array_of, true)
R(c_array_split, C, vsip::array, array_of, split_of, false)
R(c_split_array, C, vsip::array, split_of, array_of, false)
R(c_split_inter_size, C, vsip::array, split_of, inter_of, true)
R(c_split_split_size, C, vsip::array, split_of, split_of, true)
R(s_split_split, C, split_complex, split_of, split_of, false)
R(s_split_array_size, C, split_complex, split_of, array_of, true)
R(s_array_split_size, C, split_complex, array_of, split_of, true)
R(s_array_inter_size, Z, split_complex, array_of, inter_of, true)
R(s_array_array, C, split_complex, array_of, array_of, false)
#define N(name, ...) VP_PROOF(own_##name) { own<__VA_ARGS__>();}
N(float, float, vsip::array)
N(int, int, vsip::array)
N(complex, C, vsip::array)
N(split, C, split_complex)
VP_PROOF(matrix_row) { matrix_<float, row2_type, array_of>(false);}
VP_PROOF(matrix_col) { matrix_<float, col2_type, array_of>(true);}
VP_PROOF(matrix_split_row) { matrix_<C, row2_type, split_of>(false);}
VP_PROOF(matrix_split_col) { matrix_<C, col2_type, split_of>(true);}
VP_PROOF(matrix_inter_col) { matrix_<C, col2_type, inter_of>(true);}
VP_PROOF(tensor_012) { tensor_<float, row3_type>(0, 1, 2);}
VP_PROOF(tensor_120) { tensor_<float, tuple<1, 2, 0> >(1, 2, 0);}
VP_PROOF(tensor_201) { tensor_<double, tuple<2, 0, 1> >(2, 0, 1);}
VP_PROOF(tensor_210) { tensor_<float, tuple<2, 1, 0> >(2, 1, 0);}
