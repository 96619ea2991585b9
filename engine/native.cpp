// native.cpp -- executable semantics of the contract language: replays solver models on, and searches
// small inputs of, the very same contract text compiled by g++ against the real code (with ASan).
#include <vp.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <typeinfo>
#include <dlfcn.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#define ASAN 1
#else
#define ASAN 0
#endif

struct Shared
{
  volatile unsigned long trial; volatile unsigned long accepted; volatile unsigned long distinct; volatile int failed;
  char label[512]; volatile unsigned long asserts; volatile unsigned long done; char inputs[8192];
};
static Shared *sh;
struct Reject {};
static unsigned long rs;
static bool verbose;
static int level;
static std::map<std::string, long> over;
static std::map<std::string, int> cnt;
static std::string log_;
static std::vector<void*> arrays;
static unsigned long hash_;
static long live_;
static int quiet_;            // >0 while the driver itself allocates
struct Quiet { Quiet() { ++quiet_;} ~Quiet() { --quiet_;} };
static std::set<unsigned long> seen;

static unsigned long rnd()
{ rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DUL >> 11; }
static void mix(unsigned long v) { hash_ = (hash_ ^ v) * 0x9E3779B97F4A7C15UL; hash_ ^= hash_ >> 29; }
static std::string uniq(char const *n)
{
  std::string s = n; int k = cnt[s]++;
  if (k) { char b[32]; snprintf(b, 32, ".%d", k); s += b; }
  return s;
}
static void note(std::string const &n, std::string const &v)
{ if (log_.size() < 6000) log_ += n + "=" + v + " "; }
static void finish(int code) { fflush(stdout); _exit(code);}
static void failnow(char const *label)
{
  sh->failed = 1; strncpy(sh->label, label, 511);
  strncpy(sh->inputs, log_.c_str(), 8191);
  finish(42);
}
static long pick(long lo, long hi)
{
  unsigned __int128 span = (unsigned __int128)((__int128)hi - lo) + 1;
  auto clampv = [&](__int128 x) -> long { return x < lo ? lo : x > hi ? hi : (long)x; };
  if (span <= 16) return lo + (long)(rnd() % (unsigned long)span);
  switch (rnd() % 8)
  {
    case 0: case 1: return clampv((__int128)lo + (long)(rnd() % 7));
    case 2: return clampv((__int128)hi - (long)(rnd() % 4));
    case 3: case 4: if (lo <= 0 && hi >= 0) return clampv((long)(rnd() % 15) - 7); return clampv((__int128)lo + (long)(rnd() % 12));
    case 5: { long p = 1L << (rnd() % 40); return clampv((__int128)((rnd() & 1) && lo < 0 ? -p : p) + (long)(rnd() % 3) - 1);}
    default: { if (span > (1u << 20)) { return clampv((__int128)(lo > -50 ? lo : -50) + (long)(rnd() % 100)); }
        return lo + (long)(((unsigned __int128)rnd() * 1) % span); }
  }
}
extern "C" {
std::int64_t vp_int_(char const *name, std::int64_t lo, std::int64_t hi)
{ Quiet q_;
  std::string n = uniq(name); if (lo > hi) throw Reject();
  long v = over.count(n) ? over[n] : pick(lo, hi);
  if (v < lo || v > hi) throw Reject();
  note(n, std::to_string(v)); mix(v);
  return v;
}
std::int64_t vp_len_(char const *name, std::int64_t lo, std::int64_t hi)
{ Quiet q_;
  std::string n = uniq(name); if (lo > hi) throw Reject();
  long span = level == 0 ? 5 : level == 1 ? 9 : 40;
  long h = hi < lo + span ? hi : lo + span;
  long v = over.count(n) ? over[n] : lo + (long)(rnd() % (unsigned long)(h - lo + 1));
  if (v < lo || v > hi) throw Reject();
  note(n, std::to_string(v)); mix(v);
  return v;
}
// values with a fraction (float) and values no float holds (double), where a translation unit asks for them
extern "C" { extern int vp_fine __attribute__((weak));}
static double fl(bool dbl = false)
{
  if (&vp_fine && vp_fine && rnd() % 2) return dbl ? (double)((long)(rnd() % 97) - 48) / 3. : (double)((long)(rnd() % 129) - 64) / 4.;
  unsigned long r = rnd() % 64;
  if (r < 8) return 0.;
  return (double)((long)(rnd() % 33) - 16);
}
float vp_f32_(char const *name) { Quiet q_; float v = (float)fl(); note(uniq(name), std::to_string(v)); mix((long)v); return v;}
double vp_f64_(char const *name) { Quiet q_; double v = fl(true); note(uniq(name), std::to_string(v)); mix((long)v); return v;}
void *vp_array_(char const *name, std::int64_t n, int kind, std::int64_t lo, std::int64_t hi)
{ Quiet q_;
  static int const sz[] = {4,8,1,1,2,2,4,4,8,8,1};
  if (n < 0 || n > (1L << 24)) throw Reject();
  int k = kind & 63;
  void *p = 0;
  size_t bytes = (size_t)n * sz[k];
  if (posix_memalign(&p, 512, bytes ? bytes : 1)) throw Reject();
  arrays.push_back(p);
  vp_fill_(p, name, n, kind, lo, hi);
  return p;
}
void vp_fill_(void *p, char const *name, std::int64_t n, int kind, std::int64_t lo, std::int64_t hi)
{ Quiet q_;
  static int const sz[] = {4,8,1,1,2,2,4,4,8,8,1};
  int k = kind & 63; bool bd = kind & 64;
  std::string s = uniq(name), vs = "[";
  static long const LO[] = {0,0,-128,0,-32768,0,-2147483648L,0,0,0,0}, HI[] = {0,0,127,255,32767,65535,2147483647L,4294967295L,0,0,1};
  for (long i = 0; i < n; ++i)
  {
    long v = 0; double d = 0;
    if (k < 2) { d = fl(k == 1); if (k == 0) ((float*)p)[i] = (float)d; else ((double*)p)[i] = d; v = (long)d; }
    else
    {
      long l = LO[k], h = HI[k];
      if (k == 8) { l = INT64_MIN; h = INT64_MAX;}
      if (k == 9) { l = 0; h = INT64_MAX;}
      if (bd) { if (lo > l) l = lo; if (hi < h) h = hi; if (l > h) throw Reject(); v = pick(l, h);}
      else if (k == 10) v = rnd() & 1; else { v = (long)(rnd() % 41) - 20; if (v < l) v = -v; if (rnd() % 50 == 0) v = pick(l, h); if (v < l) v = l; if (v > h) v = h; }
      switch (sz[k]) { case 1: ((char*)p)[i] = (char)v; break; case 2: ((short*)p)[i] = (short)v; break;
                       case 4: ((int*)p)[i] = (int)v; break; default: ((long*)p)[i] = v; }
    }
    mix(v);
    if (i < 24) vs += (i ? "," : "") + std::to_string(v);
  }
  note(s, vs + (n > 24 ? ",...]" : "]"));
}
void vp_assume_(bool c) { if (!c) throw Reject();}
void vp_assert_(bool c, char const *label) { ++sh->asserts; if (!c) failnow(label);}
void vp_cover_(char const *) {}
void vp_note_(char const *) {}
bool vp_alive_(void const *p)
{
#if ASAN
  return p && !__asan_address_is_poisoned(p);
#else
  return true;
#endif
}
std::int64_t vp_live_(void) { return live_;}
static bool feq(double a, double b, double tol)
{
  if (a != a || b != b) return (a != a) == (b != b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  return std::fabs(a - b) <= tol * (m > 1 ? m : 1);
}
bool vp_feq32_(float a, float b) { return feq(a, b, 1e-4);}
bool vp_feq64_(double a, double b) { return feq(a, b, 1e-8);}
void __assert_fail(char const *e, char const *file, unsigned line, char const *fn) noexcept
{ char b[480]; snprintf(b, 480, "assertion `%s` failed at %s:%u", e, file, line); failnow(b); abort();}
}
#if ASAN
static void mh(void const volatile *, size_t) { if (!quiet_) ++live_;}
static void fh(void const volatile *p) { if (p && !quiet_) --live_;}
#endif
typedef void (*proof_t)();
struct Entry { char const *name; proof_t fn; };
extern Entry vp_entries[];

static bool trial(proof_t fn, unsigned long seed, unsigned long t)
{
  rs = (seed + 1) * 0x9E3779B97F4A7C15UL + t * 0xD1342543DE82EF95UL; if (!rs) rs = 88172645463325252UL;
  for (int i = 0; i < 4; ++i) rnd();
  level = t % 8 == 7 ? 2 : t % 2;
  cnt.clear(); log_.clear(); hash_ = 1469598103934665603UL;
  bool ok = true;
  try { fn(); }
  catch (Reject const &) { ok = false; }
  catch (std::exception const &e) { char b[400]; snprintf(b, 400, "exception escapes: %s", e.what()); failnow(b); }
  catch (...) { failnow("exception escapes"); }
  { Quiet q; for (auto p : arrays) free(p); arrays.clear(); }
  return ok;
}
int main(int argc, char **argv)
{
  // native <proof> <seed> <maxtrials> <seconds> [name=value ...]      (one trial with overrides if given)
  char const *name = argv[1]; unsigned long seed = strtoul(argv[2], 0, 10), maxt = strtoul(argv[3], 0, 10); double secs = atof(argv[4]);
  unsigned long first = 0;
  for (int i = 5; i < argc; ++i)
  {
    char *e = strchr(argv[i], '='); if (!e) continue;
    if (!strncmp(argv[i], "@trial=", 7)) { first = strtoul(e + 1, 0, 10); continue; }
    over[std::string(argv[i], e - argv[i])] = strtol(e + 1, 0, 10);
  }
  proof_t fn = 0;
  for (Entry *e = vp_entries; e->name; ++e) if (!strcmp(e->name, name)) fn = e->fn;
  if (!fn) { printf("{\"error\":\"no such proof\"}\n"); return 3; }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof *sh);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0)
  {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    alarm((unsigned)secs + 60);
#if ASAN
    __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
    for (unsigned long t = first; t < first + maxt; ++t)
    {
      sh->trial = t;
      if (trial(fn, seed, t)) { ++sh->accepted; if (seen.size() < 200000 && seen.insert(hash_).second) ++sh->distinct; }
      if (t % 16 == 0)
      { struct timespec n; clock_gettime(CLOCK_MONOTONIC, &n); if ((n.tv_sec - t0.tv_sec) + 1e-9 * (n.tv_nsec - t0.tv_nsec) > secs) break; }
    }
    strncpy(sh->inputs, log_.c_str(), 8191);
    sh->done = 1;
    finish(0);
  }
  int stt = 0; waitpid(pid, &stt, 0);
  if (!sh->done && !sh->failed)
  {
    if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM) { sh->failed = 2; strcpy(sh->label, "time limit (does not terminate)"); }
    else { sh->failed = 1; snprintf(sh->label, 500, "crash: memory error or abnormal termination (status %d)", stt); }
  }
  auto js = [](char const *s) { std::string r; for (; *s; ++s) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if ((unsigned char)*s < 32) r += ' '; else r += *s; } return r; };
  printf("{\"trials\":%lu,\"accepted\":%lu,\"distinct\":%lu,\"asserts\":%lu,\"failed\":%d,\"trial\":%lu,\"label\":\"%s\",\"inputs\":\"%s\"}\n",
         (unsigned long)(sh->trial - first + 1), (unsigned long)sh->accepted, (unsigned long)sh->distinct, (unsigned long)sh->asserts, (int)sh->failed, (unsigned long)sh->trial, js(sh->label).c_str(), js(sh->inputs).c_str());
  return sh->failed ? 1 : 0;
}
