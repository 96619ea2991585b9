// vp.hpp -- the contract language.
//
// Every contract is a C++ function  vp_proof_<name>()  over the REAL headers and
// sources of /repo.  The same text is (1) symbolically executed by the verifier
// (engine/vp.py) for all inputs, and (2) compiled natively (VP_NATIVE) as the
// replay / search driver.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <cstdint>
#include <complex>

#ifdef VP_NATIVE
extern "C" { int vp_fine = 1;}      // half of the values with a fraction
#endif
extern "C" {
// ---- primitives interpreted by the verifier / implemented by native.cpp
std::int64_t vp_int_(char const *name, std::int64_t lo, std::int64_t hi);  // any integer lo<=x<=hi
std::int64_t vp_len_(char const *name, std::int64_t lo, std::int64_t hi);  // same, but sizes something (kept small natively)
float  vp_f32_(char const *name);
double vp_f64_(char const *name);
void  *vp_array_(char const *name, std::int64_t n, int kind, std::int64_t lo, std::int64_t hi); // kind: element type code
void   vp_fill_(void *p, char const *name, std::int64_t n, int kind, std::int64_t lo, std::int64_t hi); // arbitrary content for the storage of n elements at p
void   vp_assume_(bool c);
void   vp_assert_(bool c, char const *label);
void   vp_cover_(char const *label);
void   vp_note_(char const *label);
bool   vp_alive_(void const *p);      // does p point into a live allocation?
std::int64_t vp_live_(void);          // number of live heap allocations
bool   vp_feq32_(float a, float b);   // same value (bit-equal, or both NaN / tolerance natively)
bool   vp_feq64_(double a, double b);
}

namespace vp
{
template <typename T> struct kind;
template <> struct kind<float>    { static int const v = 0, m = 1; };
template <> struct kind<double>   { static int const v = 1, m = 1; };
template <> struct kind<char>     { static int const v = 2, m = 1; };
template <> struct kind<signed char> { static int const v = 2, m = 1; };
template <> struct kind<unsigned char> { static int const v = 3, m = 1; };
template <> struct kind<short>    { static int const v = 4, m = 1; };
template <> struct kind<unsigned short> { static int const v = 5, m = 1; };
template <> struct kind<int>      { static int const v = 6, m = 1; };
template <> struct kind<unsigned> { static int const v = 7, m = 1; };
template <> struct kind<long>     { static int const v = 8, m = 1; };
template <> struct kind<unsigned long> { static int const v = 9, m = 1; };
template <> struct kind<bool>     { static int const v = 10, m = 1; };
template <> struct kind<std::complex<float> >  { static int const v = 0, m = 2; };
template <> struct kind<std::complex<double> > { static int const v = 1, m = 2; };
template <> struct kind<std::complex<int> > { static int const v = 6, m = 2; };

template <typename T> inline T *array(char const *name, std::size_t n)
{ return static_cast<T*>(vp_array_(name, std::int64_t(n) * kind<T>::m, kind<T>::v, 0, 0)); }
template <typename T> inline void fill(T *p, char const *name, std::size_t n)
{ vp_fill_(p, name, std::int64_t(n) * kind<T>::m, kind<T>::v, 0, 0); }
// integer array whose elements lie in [lo,hi]
template <typename T> inline T *array(char const *name, std::size_t n, std::int64_t lo, std::int64_t hi)
{ return static_cast<T*>(vp_array_(name, std::int64_t(n) * kind<T>::m, kind<T>::v | 64, lo, hi)); }

template <typename T> struct any_;
template <> struct any_<float>  { static float get(char const *n) { return vp_f32_(n);} };
template <> struct any_<double> { static double get(char const *n) { return vp_f64_(n);} };
template <> struct any_<int>    { static int get(char const *n) { return int(vp_int_(n, INT32_MIN, INT32_MAX));} };
template <> struct any_<unsigned> { static unsigned get(char const *n) { return unsigned(vp_int_(n, 0, UINT32_MAX));} };
template <> struct any_<bool>   { static bool get(char const *n) { return vp_int_(n, 0, 1) != 0;} };
template <> struct any_<long>   { static long get(char const *n) { return vp_int_(n, INT64_MIN, INT64_MAX);} };
template <> struct any_<std::complex<float> >
{ static std::complex<float> get(char const *n) { float r = vp_f32_(n), i = vp_f32_(n); return std::complex<float>(r, i);} };
template <> struct any_<std::complex<double> >
{ static std::complex<double> get(char const *n) { double r = vp_f64_(n), i = vp_f64_(n); return std::complex<double>(r, i);} };
template <typename T> inline T any(char const *n) { return any_<T>::get(n);}

inline bool same(float a, float b) { return vp_feq32_(a, b);}
inline bool same(double a, double b) { return vp_feq64_(a, b);}
inline bool same(std::complex<float> const &a, std::complex<float> const &b)
{ return vp_feq32_(a.real(), b.real()) & vp_feq32_(a.imag(), b.imag());}
inline bool same(std::complex<double> const &a, std::complex<double> const &b)
{ return vp_feq64_(a.real(), b.real()) & vp_feq64_(a.imag(), b.imag());}
inline bool same(bool a, bool b) { return a == b;}
inline bool same(int a, int b) { return a == b;}
inline bool same(short a, short b) { return a == b;}
inline bool same(unsigned a, unsigned b) { return a == b;}
inline bool same(long a, long b) { return a == b;}
inline bool same(unsigned long a, unsigned long b) { return a == b;}
inline bool same(unsigned char a, unsigned char b) { return a == b;}
inline bool same(char a, char b) { return a == b;}
}

#define vp_int(n, lo, hi) vp_int_(n, lo, hi)
#define vp_len(n, lo, hi) std::size_t(vp_len_(n, lo, hi))
#define vp_assume(...)    vp_assume_(__VA_ARGS__)
#define vp_assert(...)    vp_assert_(__VA_ARGS__)
#define vp_cover(l)       vp_cover_(l)
#ifdef VP_LIBRARY   // contracts that allocate run between library initialisation and finalisation
#define VP_PROOF(name) static void vp_body_##name(); extern "C" void vp_proof_##name() { vp::Library lib; vp_body_##name();} static void vp_body_##name()
#else
#define VP_PROOF(name)    extern "C" void vp_proof_##name()
#endif
#define VP_BOUNDED(name)  VP_PROOF(name)
#endif
#ifdef VP_LIBRARY
// the parts of the library's .cpp files the contracts execute (unity build of the real sources)
#include <ovxx/allocator.cpp>
#ifdef VP_MPI
#include <vp_mpi.hpp>
#endif
namespace vp
{
struct Library   // what vsip::vsipl does for memory: sets up / tears down the default allocator
{
  Library() { int c = 0; char **v = 0; ovxx::allocator::initialize(c, v);
#ifdef VP_MPI
    ovxx::mpi::initialize(c, v);
#endif
  }
  ~Library()
  {
#ifdef VP_MPI
    ovxx::mpi::finalize(false);
#endif
    ovxx::allocator::finalize();
  }
};
}
#endif
