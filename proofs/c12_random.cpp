// C12: the random number generators produce their defined sequences.
#define VP_MPI
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#define private public
#define protected public
#include <vsip/random.hpp>
#undef private
#undef protected
#include "vp_views.hpp"
#include "vp_assign.hpp"
#include "vp_how.hpp"
using namespace vp;
typedef std::complex<float> C;
typedef std::complex<double> Z;
typedef unsigned U;
//@ *: wrap=1
#ifdef VP_NATIVE
static U word(char const *n) { static std::string h; h = std::string(n) + "_hi"; return vp::any<U>(n) + (vp::any<U>(h.c_str()) << 13);}
#else
static U word(char const *n) { return vp::any<U>(n);}
#endif
// the state of the defined generator: the main sequence, and (portable) a second one that skips a step whenever it
// would run into the value X2
struct St { U x, x1, x2, a, c, c1;};
static inline U next(St &s, bool portable)
{
  s.x = s.a * s.x + s.c;
  if (!portable) return s.x;
  s.x1 = 69069u * s.x1 + s.c1;
  U r = s.x - s.x1;
  if (s.x1 == s.x2) { s.x1 += 1; s.x2 += 1;}
  return r;
}
template <typename R> St state(R const &r) { St s = {r.X_, r.X1_, r.X2_, r.a_, r.c_, r.c1_}; return s;}
template <typename R> bool at(R const &r, St const &s)
{ return (r.X_ == s.x) & (r.X1_ == s.x1) & (r.X2_ == s.x2) & (r.a_ == s.a) & (r.c_ == s.c) & (r.c1_ == s.c1);}
// any state of a generator
template <typename R> void arbitrary(R &r)
{
  r.X_ = word("x"); r.X1_ = word("x1"); r.X2_ = word("x2");
#ifdef VP_NATIVE
  // half of the inputs: the second sequence is about to meet X2
  if (r.X_ & 1) r.X2_ = r.X1_ * r.a1_ + r.c1_;
#endif
}
template <typename R> void arbitrary_multiplier(R &r) { r.a_ = word("a"); r.c_ = word("c");}
template <typename T> T u01(U x) { return T(x / 4294967296.0);}
template <typename T, bool P> void step()
{
  Rand<T> r(1, P);
  if (!P) arbitrary_multiplier(r);
  else r.c1_ = word("c1");
  arbitrary(r);
  St s = state(r);
  T v = r.randu();
  U e = next(s, P);
  vp_assert(same(v, u01<T>(e)), "randu is the next number of the sequence over 2^32");
  vp_assert(at(r, s), "the state is the next one");
}
template <typename T, bool P> void cstep()
{
  Rand<std::complex<T>> r(1, P);
  arbitrary(r);
  St s = state(r);
  std::complex<T> v = r.randu();
  U e = next(s, P), f = next(s, P);
  vp_assert(same(v, std::complex<T>(u01<T>(e), u01<T>(f))), "the real part of randu is the next number, the imaginary part the one after it");
  vp_assert(at(r, s), "the state is the one after two steps");
}
template <typename T, bool P> void normal()
{
  Rand<T> r(1, P);
  arbitrary(r);
  St s = state(r);
  T v = r.randn();
  T t = T();
  for (int i = 0; i != 12; ++i) t += u01<T>(next(s, P));
  vp_assert(same(v, P ? T(6.0 - t) : T(t - 6.0)), "randn is the sum of the next twelve numbers less 6 (portable: 6 less the sum)");
  vp_assert(at(r, s), "the state is the one after twelve steps");
}
template <typename T, bool P> void cnormal()
{
  Rand<std::complex<T>> r(1, P);
  arbitrary(r);
  St s = state(r);
  std::complex<T> v = r.randn();
  T t = T(), u = T();
  for (int i = 0; i != 3; ++i) t += u01<T>(next(s, P));
  for (int i = 0; i != 3; ++i) u += u01<T>(next(s, P));
  vp_assert(same(v, std::complex<T>(3 - u - t, t - u)), "complex randn is (3 - t2 - t1, t1 - t2) of the sums of three numbers");
  vp_assert(at(r, s), "the state is the one after six steps");
}
#define ST(name, ...) VP_PROOF(randu_##name) { step<__VA_ARGS__>();}
ST(portable_f, float, true)
ST(portable_d, double, true)
ST(local_f, float, false)
ST(local_d, double, false)
#define CS(name, ...) VP_PROOF(randu_c_##name) { cstep<__VA_ARGS__>();}
CS(portable_f, float, true)
CS(portable_d, double, true)
CS(local_f, float, false)
#define SN(name, ...) VP_PROOF(randn_##name) { normal<__VA_ARGS__>();}
SN(local_f, float, false)
SN(local_d, double, false)
// portable randn: the second sequence meets X2 at step P of the twelve (0: at none)
template <typename T, int P> void normal_at()
{
  Rand<T> r(1);
  arbitrary(r);
  U y = r.X1_;
  bool ok = true;
  for (int i = 1; i <= 12; ++i)
  {
    y = 69069u * y + r.c1_;
#ifdef VP_NATIVE
    if (i == P) r.X2_ = y;
#endif
    vp_assume((y == U(r.X2_ + (P && i > P))) == (i == P));
    if (i == P) y += 1;
  }
  St s = state(r);
  T v = r.randn();
  T t = T();
  for (int i = 1; i <= 12; ++i)
  {
    s.x = s.a * s.x + s.c;
    s.x1 = 69069u * s.x1 + s.c1;
    t += u01<T>(s.x - s.x1);
    if (i == P) { s.x1 += 1; s.x2 += 1;}
  }
  vp_assert(same(v, T(6.0 - t)), "randn is 6 less the sum of the next twelve numbers");
  vp_assert(at(r, s), "the state is the one after twelve steps");
}
#define SA(P) VP_PROOF(randn_f_##P) { normal_at<float, P>();}\
VP_PROOF(randn_d_##P) { normal_at<double, P>();}
SA(0)
SA(1)
SA(2)
SA(3)
SA(4)
SA(5)
SA(6)
SA(7)
SA(8)
SA(9)
SA(10)
SA(11)
SA(12)
VP_BOUNDED(randn_any_f) { normal<float, true>();}
VP_BOUNDED(randn_any_d) { normal<double, true>();}
#define CN(name, ...) VP_PROOF(randn_c_##name) { cnormal<__VA_ARGS__>();}
CN(portable_f, float, true)
CN(portable_d, double, true)
CN(local_f, float, false)
// initial states
VP_PROOF(start_portable)
{
  U seed = word("seed");
  Rand<float> r(seed), q(seed, 1, 1, true);
  St s = {seed, 1, 1, 1664525u, 1013904223u, 3};
  vp_assert(at(r, s), "a portable generator starts at the seed");
  vp_assert(at(q, s), "the first of one portable generators starts at the seed");
}
VP_PROOF(start_local)
{
  U seed = word("seed");
  Rand<float> r(seed, false);
  St s = {1664525u * seed + 1013904223u, 0, 0, 1664525u, 1013904223u, 0};
  vp_assert(at(r, s), "a non-portable generator starts one step after the seed");
}
VP_PROOF(seeds)
{
  U seed = word("seed");
  Rand<double> r(seed), q(seed);
  Rand<double> f(seed, false), g(seed, false);
  double u = r.randu(), v = q.randu(), w = f.randu(), x = g.randu();
  vp_assert(same(u, v) & same(w, x), "generators with the same seed give the same numbers");
}
// k non-portable generators take turns in one sequence: the n-th number of generator id is number n k + id of it
template <U K> void turns()
{
  U seed = word("seed");
  U x = seed;
  U q[2 * K];
  for (U i = 0; i != 2 * K; ++i) { x = 1664525u * x + 1013904223u; q[i] = x;}
  for (U id = 1; id <= K; ++id)
  {
    Rand<float> r(seed, K, id, false);
    vp_assert(r.X_ == q[id - 1], "generator id starts at number id of the sequence");
    r.randu();
    vp_assert(r.X_ == q[id - 1 + K], "one step of generator id of k is k steps of the sequence");
    vp_assert((r.X1_ == 0) & (r.a1_ == 0) & (r.c1_ == 0) & !r.portable_, "it has no second sequence");
  }
  // any state
  Rand<float> r(seed, K, 1, false);
  U y = word("y");
  r.X_ = y;
  r.randu();
  for (U i = 0; i != K; ++i) y = 1664525u * y + 1013904223u;
  vp_assert(r.X_ == y, "from any state one step of a generator of k is k steps of the sequence");
}
#define TU(K) VP_PROOF(turns_##K) { turns<K>();}
TU(1)
TU(2)
TU(3)
TU(4)
TU(5)
TU(6)
TU(7)
TU(8)
TU(12)
TU(16)
TU(20)
// portable generator id of k starts (2^32 - 1) / k (id - 1) steps into the sequence and has a second sequence of its own
static U const primes[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127,
  131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283,
  293, 307, 311, 313, 317, 331, 337, 347, 349, 353, 359, 367, 373, 379, 383, 389, 397, 401, 409, 419, 421, 431, 433, 439, 443, 449, 457, 461, 463, 467,
  479, 487, 491, 499, 503, 509, 521, 523, 541, 547};
// the sequence n steps on: n = 2 h + b steps are h double steps and b single ones
static U ahead(U x, U n)
{
  U a = 1664525u, c = 1013904223u;
  while (n) { if (n & 1) x = a * x + c; c = a * c + c; a = a * a; n >>= 1;}
  return x;
}
template <U K> void skips()
{
  U seed = word("seed");
  for (U id = 1; id <= K; ++id)
  {
    Rand<float> r(seed, K, id, true);
    vp_assert(r.X_ == ahead(seed, (4294967295u / K) * (id - 1)), "generator id of k starts (2^32 - 1) / k (id - 1) steps into the sequence");
    vp_assert((r.c1_ == primes[id - 1]) & (r.a1_ == 69069u) & (r.X1_ == 1) & (r.X2_ == 1), "its second sequence is that of the id-th odd prime");
    vp_assert((r.a_ == 1664525u) & (r.c_ == 1013904223u) & r.portable_, "its main sequence has the defined multiplier and increment");
  }
}
#define SK(K) VP_PROOF(skips_##K) { skips<K>();}
SK(1)
SK(2)
SK(3)
SK(4)
SK(7)
SK(8)
SK(16)
SK(32)
VP_BOUNDED(skips_100) { skips<100>();}
// the skip counted step by step
VP_BOUNDED(skip_steps)
{
  U seed = word("seed");
  I k = vp_int("k", 1 << 17, 1 << 28), id = vp_int("id", 1, 100);
  Rand<float> r(seed, k, id, true);
  U x = seed, n = (4294967295u / U(k)) * U(id - 1);
  for (U i = 0; i != n; ++i) x = 1664525u * x + 1013904223u;
  vp_assert(r.X_ == x, "generator id of k starts (2^32 - 1) / k (id - 1) steps into the sequence");
}
VP_BOUNDED(turns_any)
{
  U seed = word("seed");
  I k = vp_int("k", 1, 2000), id = vp_int("id", 1, k);
  Rand<float> r(seed, k, id, false);
  U x = seed;
  for (I i = 0; i != id; ++i) x = 1664525u * x + 1013904223u;
  vp_assert(r.X_ == x, "generator id starts at number id of the sequence");
  r.randu();
  for (I i = 0; i != k; ++i) x = 1664525u * x + 1013904223u;
  vp_assert(r.X_ == x, "one step of generator id of k is k steps of the sequence");
}
// views of random numbers: element i of a vector is the i-th next number; nothing else is consumed
template <typename T, bool P, bool N> void fill1()
{
  U seed = word("seed");
  I n = vp_len("n", 1, M1), i = vp_int("i", 0, n - 1);
  Rand<T> r(seed, P), q(seed, P);
  S1<T> y(n, "y"), z(n, "z");
  z.v = N ? 0 : 0;
  vp_assert(I(r.randu(n).size()) == n, "the view has the requested length");
  if (N) y.v = r.randn(n); else y.v = r.randu(n);
  for (I k = 0; k != n; ++k) z.v.put(k, N ? q.randn() : q.randu());
  vp_assert(same(y.v.get(i), z.v.get(i)), "element i is the i-th next number");
  vp_assert(at(r, state(q)), "exactly n numbers are consumed");
}
VP_PROOF(vector_u) { fill1<float, true, false>();}
VP_PROOF(vector_u_local) { fill1<float, false, false>();}
VP_BOUNDED(vector_n) { fill1<double, true, true>();}
VP_PROOF(vector_u_c) { fill1<C, true, false>();}
