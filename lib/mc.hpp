// Sequential bounded-exhaustive exploration harness.
//
// A harness enumerates every case of a bounded space in a fixed order and calls
// mc::next() for each; the call says whether this process has to execute it
// (sharding, replay of one case).  The body runs in a forked worker, so a crash or
// a hang is attributed to the case being executed and the enumeration goes on
// behind it.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <complex>

namespace mc
{
struct shared_state
{
  volatile long current;        // index of the case being executed
  volatile long executed;
  volatile long transitions;
  volatile long fails;
  volatile long states_base;    // sizes of the sets of earlier workers
  volatile long outcomes_base;
  volatile long distinct_base;
  volatile long nontrivial;
  volatile int capped;
  char desc[4096];
};

struct globals
{
  shared_state *sh = 0;
  long index = -1;
  long from = 0;                // skip cases below (after a crash)
  long shard = 0, nshards = 1;
  long only = -1;
  bool thorough = false;
  bool list = false;
  double budget = 1e9;
  double t0 = 0;
  bool running = false;
  long samples = 0;
  std::map<std::string, long> printed;
  std::unordered_set<uint64_t> states, outcomes, distinct;
  std::map<std::string, std::string> args;
};
inline globals &g() { static globals x; return x; }

inline double now()
{
  timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
inline bool thorough() { return g().thorough; }
// `q` in the quick tier, `t` in the thorough one
template <typename T> inline T tier(T q, T t) { return g().thorough ? t : q; }

inline uint64_t hash(void const *p, size_t n, uint64_t h = 1469598103934665603ull)
{
  unsigned char const *c = static_cast<unsigned char const *>(p);
  for (size_t i = 0; i != n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { return hash(&v, sizeof v, h); }

// Start the next case: true if this process has to execute it.
inline bool next()
{
  globals &G = g();
  ++G.index;
  if (G.only >= 0) { if (G.index != G.only) return false; }
  else
  {
    if (G.index < G.from) return false;
    // block-wise interleaving spreads the expensive corners over the shards
    if (G.index % G.nshards != G.shard) return false;
    if (now() - G.t0 > G.budget) { G.sh->capped = 1; return false; }
  }
  G.sh->current = G.index;
  ++G.sh->executed;
  G.sh->desc[0] = 0;
  return true;
}

inline void desc(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void desc(char const *fmt, ...)
{
  globals &G = g();
  va_list ap; va_start(ap, fmt);
  vsnprintf(G.sh->desc, sizeof G.sh->desc, fmt, ap);
  va_end(ap);
  G.distinct.insert(hash(G.sh->desc, strlen(G.sh->desc)));
  if (G.samples < 2 || G.only >= 0)
  {
    // two cases per shard, away from the very first (trivial) ones
    if (G.only >= 0 || G.sh->executed == 3 || G.sh->executed == 40)
    { ++G.samples; printf("SAMPLE\t%s\n", G.sh->desc); fflush(stdout); }
  }
}
// append to the description (histories are built up as they go)
inline void more(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void more(char const *fmt, ...)
{
  char *d = g().sh->desc; size_t n = strlen(d);
  va_list ap; va_start(ap, fmt);
  if (n < sizeof g().sh->desc - 1) vsnprintf(d + n, sizeof g().sh->desc - n, fmt, ap);
  va_end(ap);
}
inline void nontrivial() { ++g().sh->nontrivial; }
inline void step(long n = 1) { g().sh->transitions += n; }
inline void state(uint64_t h) { g().states.insert(h); }
inline void outcome(uint64_t h) { g().outcomes.insert(h); }

inline void clean(std::string &s)
{ for (auto &c : s) if (c == '\t' || c == '\n') c = ' '; }

inline void report(std::string key, std::string desc, std::string msg, long idx)
{
  globals &G = g();
  ++G.sh->fails;
  if (G.printed[key]++ >= 12) return;
  clean(key); clean(desc); clean(msg);
  printf("FAIL\t%s\t%s\t%s\t--only %ld\n", key.c_str(), desc.c_str(), msg.c_str(), idx);
  fflush(stdout);
}
inline void fail(char const *key, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
inline void fail(char const *key, char const *fmt, ...)
{
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  report(key, g().sh->desc, buf, g().index);
}

inline int run(int argc, char **argv, void (*enumerate)())
{
  globals &G = g();
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--shard" && i + 1 < argc) sscanf(argv[++i], "%ld/%ld", &G.shard, &G.nshards);
    else if (a == "--only" && i + 1 < argc) G.only = atol(argv[++i]);
    else if (a == "--tier" && i + 1 < argc) G.thorough = !strcmp(argv[++i], "thorough");
    else if (a == "--budget" && i + 1 < argc) G.budget = atof(argv[++i]);
    else if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { G.args[a.substr(2)] = argv[i + 1]; ++i; }
  }
  G.sh = static_cast<shared_state *>(mmap(0, sizeof(shared_state), PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset((void *)G.sh, 0, sizeof *G.sh);
  G.sh->current = -1;
  G.t0 = now();
  double hang_after = G.only >= 0 ? 240 : 100;
  int crashes = 0;
  int tmp[2];
  while (true)
  {
    fflush(stdout);
    if (pipe(tmp)) return 3;
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0)
    {
      G.running = true;
      G.sh->current = -1;
      long dup_stderr = 0; (void)dup_stderr;
      dup2(tmp[1], 2); close(tmp[0]); close(tmp[1]);
      enumerate();
      G.sh->states_base += G.states.size();
      G.sh->outcomes_base += G.outcomes.size();
      G.sh->distinct_base += G.distinct.size();
      fflush(stdout);
      _exit(0);
    }
    close(tmp[1]);
    std::string err;
    double last = now(); long seen = -2; int status = 0; bool hung = false;
    // drain stderr, watch for progress
    while (true)
    {
      fd_set fs; FD_ZERO(&fs); FD_SET(tmp[0], &fs);
      timeval tv = {0, 100000};
      int r = select(tmp[0] + 1, &fs, 0, 0, &tv);
      if (r > 0)
      {
        char b[4096]; ssize_t n = read(tmp[0], b, sizeof b);
        if (n > 0) { err.append(b, n); if (err.size() > 20000) err.erase(4000, err.size() - 12000); }
        else if (n == 0) { waitpid(pid, &status, 0); break; }
      }
      long cur = G.sh->executed;
      if (cur != seen) { seen = cur; last = now(); }
      else if (now() - last > hang_after)
      { hung = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
    }
    close(tmp[0]);
    if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) break;
    if (G.sh->current < 0)
    {
      fprintf(stderr, "worker died outside any case: status %d\n%s\n", status, err.c_str());
      return 3;
    }
    std::string key = hung ? "hang" : "crash";
    std::string line;
    size_t p;
    if ((p = err.find("ERROR: AddressSanitizer")) != std::string::npos)
    {
      key = "memory";
      line = err.substr(p, 100);
      // first frames in the code under test
      size_t q = p; int frames = 0;
      while (frames < 6 && (q = err.find("\n    #", q)) != std::string::npos)
      {
        size_t e = err.find('\n', q + 1);
        std::string f = err.substr(q + 1, e - q - 1);
        size_t in = f.find(" in ");
        if (in != std::string::npos) line += " |" + f.substr(in + 3, 160);
        ++frames; q = e == std::string::npos ? err.size() : e;
      }
    }
    else if ((p = err.find("Assertion")) != std::string::npos)
    { size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
      line = err.substr(b, std::min<size_t>(500, err.find('\n', p) - b)); key = "assertion"; }
    else line = err.substr(err.size() > 400 ? err.size() - 400 : 0);
    char st[64];
    if (hung) snprintf(st, sizeof st, "no progress for %.0f s", hang_after);
    else if (WIFSIGNALED(status)) snprintf(st, sizeof st, "signal %d", WTERMSIG(status));
    else snprintf(st, sizeof st, "exit status %d", WEXITSTATUS(status));
    report(key, G.sh->desc, std::string(st) + ": " + line, G.sh->current);
    if (G.only >= 0 || ++crashes >= 25) { if (crashes >= 25) G.sh->capped = 2; break; }
    G.from = G.sh->current + 1;
  }
  printf("STAT\texecuted\t%ld\n", (long)G.sh->executed);
  printf("STAT\ttransitions\t%ld\n", (long)G.sh->transitions);
  printf("STAT\tstates\t%ld\n", (long)G.sh->states_base);
  printf("STAT\toutcomes\t%ld\n", (long)G.sh->outcomes_base);
  printf("STAT\tdistinct\t%ld\n", (long)G.sh->distinct_base);
  printf("STAT\tnontrivial\t%ld\n", (long)G.sh->nontrivial);
  printf("STAT\tfails\t%ld\n", (long)G.sh->fails);
  printf("STAT\tcapped\t%d\n", G.sh->capped);
  printf("DONE\n");
  fflush(stdout);
  return G.sh->fails ? 1 : 0;
}

// ---- comparison helpers -----------------------------------------------------
template <typename T> struct real_of { typedef T type; };
template <typename T> struct real_of<std::complex<T> > { typedef T type; };

inline double mag(float a) { return std::fabs(double(a)); }
inline double mag(double a) { return std::fabs(a); }
inline double mag(int a) { return std::fabs(double(a)); }
template <typename T> double mag(std::complex<T> a)
{ return std::abs(std::complex<double>(a.real(), a.imag())); }

// |a - b| <= tol * max(1, scale)
template <typename T>
inline bool near(T a, T b, double tol, double scale = 1.)
{
  double d = mag(T(a - b));
  return d <= tol * (scale > 1. ? scale : 1.);  // false for NaN
}

inline std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.9g", v); return b; }
inline std::string str(float v) { return str(double(v)); }
inline std::string str(long double v) { return str(double(v)); }
inline std::string str(int v) { return std::to_string(v); }
inline std::string str(long v) { return std::to_string(v); }
inline std::string str(unsigned long v) { return std::to_string(v); }
inline std::string str(bool v) { return v ? "true" : "false"; }
template <typename T> inline std::string str(std::complex<T> v)
{ return "(" + str(v.real()) + "," + str(v.imag()) + ")"; }
} // namespace mc

#endif
