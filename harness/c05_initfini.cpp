// C05: library objects created, used and destroyed by several threads, every schedule within the bound.
// Scripts: C create a library object, D destroy the oldest, E destroy the newest, U use the communicator and the allocator,
// P the processor set and messages of further types, B wait until all threads got here.
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <ovxx/allocator.hpp>
#include <ovxx/parallel/service.hpp>
#include <mct.hpp>
#include <mpistub.hpp>
#include <vector>
#include <string>
#include <list>
#include <set>

struct Scn { bool user; std::vector<std::string> script; int bound; };   // script[0]: the first thread
static std::vector<Scn> scns;
static int barrier[8];
static int nthreads;

__attribute__((no_sanitize("thread"))) static void arrive(int t) { ++barrier[t]; }
__attribute__((no_sanitize("thread"))) static bool arrived(int k) { for (int t = 0; t < nthreads; ++t) if (barrier[t] >= 0 && barrier[t] < k) return false; return true; }
__attribute__((no_sanitize("thread"))) static void count(int d) { mpistub::live_objects += d; }

static void use()
{
  using namespace vsip;
  if (num_processors() != 1) mct::fail("num_processors", "num_processors() is %d", (int)num_processors());
  if (local_processor() != 0) mct::fail("local_processor", "local_processor() is %d", (int)local_processor());
  {
    Vector<float> v(3, 2.f);
    v.put(1, 5.f);
    if (v.get(0) != 2.f || v.get(1) != 5.f) mct::fail("allocator", "a vector does not hold its values");
  }
  int x = 7, y = 0;
  ovxx::parallel::Communicator &c = ovxx::parallel::default_communicator();
  c.buf_send(0, &x, 1);
  c.recv(0, &y, 1);
  if (c.rank() != 0 || c.pvec().size() != 1) mct::fail("communicator", "the default communicator is not usable");
}
static void use_more()
{
  using namespace vsip;
  if (processor_set().size() != 1 || processor_set().get(0) != 0) mct::fail("processor_set", "processor_set() is wrong");
  ovxx::parallel::Communicator &c = ovxx::parallel::default_communicator();
  bool b = true; c.broadcast(0, &b, 1);
  if (!c.allreduce(ovxx::reduce_all_true, b)) mct::fail("allreduce", "all_true of true is false");
  std::complex<float> z(1, 2); c.buf_send(0, &z, 1); c.recv(0, &z, 1);
  Index<2> i(1, 2); c.broadcast(0, &i, 1);
  if (i[0] != 1 || i[1] != 2) mct::fail("broadcast", "a broadcast changed its value");
}
static void play(std::string const &s, int t)
{
  std::list<vsip::vsipl *> objs; int nb = 0;
  for (char c : s)
    switch (c)
    {
      case 'C': { vsip::vsipl *o = new vsip::vsipl; count(1); objs.push_back(o); break; }
      case 'D': { vsip::vsipl *o = objs.front(); objs.pop_front(); count(-1); delete o; break; }
      case 'E': { vsip::vsipl *o = objs.back(); objs.pop_back(); count(-1); delete o; break; }
      case 'U': use(); break;
      case 'P': use_more(); break;
      case 'B': { int k = ++nb; arrive(t); mct::wait_until([k]() { return arrived(k); }); break; }
    }
}
static std::string describe(long i)
{
  Scn const &s = scns[i]; std::string d = s.user ? "MPI initialised by the application:" : "MPI initialised by the library:";
  for (size_t t = 0; t < s.script.size(); ++t) d += " thread " + std::to_string(t) + " " + (s.script[t].empty() ? "-" : s.script[t]);
  return d;
}
static void body(long i)
{
  Scn const &s = scns[i];
  nthreads = s.script.size();
  bool p = false; int nb = 0; for (auto &x : s.script) { p |= x.find('P') != std::string::npos; }
  for (int t = 0; t < nthreads; ++t) barrier[t] = s.script[t].find('B') == std::string::npos && s.script[t].find('|') == std::string::npos ? -1 : 0;
  (void)nb;
  // "before|meanwhile|after": what the first thread does before starting the others, meanwhile, and after they ended
  std::string m = s.script[0], part[3]; int k = 0; for (char c : m) if (c == '|') ++k; else part[k] += c;
  if (part[1].find('B') == std::string::npos) barrier[0] = -1;
  if (s.user) mpistub::user_init();
  long live = mct::live();
  {
    std::list<vsip::vsipl *> objs;
    auto run = [&](std::string const &q)
    {
      int n = 0;
      for (char c : q)
        switch (c)
        {
          case 'C': { vsip::vsipl *o = new vsip::vsipl; count(1); objs.push_back(o); break; }
          case 'D': { vsip::vsipl *o = objs.front(); objs.pop_front(); count(-1); delete o; break; }
          case 'E': { vsip::vsipl *o = objs.back(); objs.pop_back(); count(-1); delete o; break; }
          case 'U': use(); break;
          case 'P': use_more(); break;
          case 'B': { int b = ++n; arrive(0); mct::wait_until([b]() { return arrived(b); }); break; }
        }
    };
    run(part[0]);
    for (int t = 1; t < nthreads; ++t) { std::string q = s.script[t]; mct::spawn([q, t]() { play(q, t); }); }
    run(part[1]);
    mct::join();
    run(part[2]);
  }
  bool any = false; for (auto &x : s.script) any |= x.find('C') != std::string::npos;
  if (!s.user && any && mpistub::inits != 1) mct::fail("mpi init", "MPI was initialised %d times", mpistub::inits);
  if (!s.user && any && mpistub::finalizes != 1) mct::fail("mpi finalize", "MPI was finalised %d times", mpistub::finalizes);
  if (s.user && (mpistub::inits || mpistub::finalizes)) mct::fail("mpi of the application", "the library initialised MPI %d times and finalised it %d times, although the application had initialised it", mpistub::inits, mpistub::finalizes);
  if (mpistub::attached) mct::fail("buffer left", "the library's buffer is still attached to MPI after the last library object is gone");
  if (!p && mct::live() != live) mct::fail("leak", "%ld allocations left after the last library object is gone", mct::live() - live);
  if (mpistub::comms) mct::fail("communicators", "%ld communicators left", mpistub::comms);
  mct::outcome(mpistub::types * 31 + mct::live() - live);
}
static void add(bool user, std::vector<std::string> s, int bound) { scns.push_back(Scn{user, s, bound}); }
// every well-formed script of C, D, E, U of at most n operations that ends with nothing left
static void scripts(std::string s, int held, int n, std::vector<std::string> &out)
{
  if (!s.empty() && !held) out.push_back(s);
  if (held > n) return;
  if (n > 0)
  {
    scripts(s + "C", held + 1, n - 1, out);
    if (held) { scripts(s + "D", held - 1, n - 1, out); if (held > 1) scripts(s + "E", held - 1, n - 1, out); if (s.back() != 'U') scripts(s + "U", held, n - 1, out); }
  }
}
static void enumerate()
{
  bool th = mct::thorough();
  int b2 = th ? 3 : 2, b3 = th ? 2 : 1;
  // one thread: every history
  std::vector<std::string> one; scripts("", 0, th ? 8 : 6, one);
  for (auto &x : one)
  {
    add(true, {x}, -1);
    // MPI cannot be initialised again after it was finalised
    int held = 0; bool gap = false; for (size_t i = 0; i < x.size(); ++i) { if (x[i] == 'C') ++held; if (x[i] == 'D' || x[i] == 'E') --held; if (!held && i + 1 < x.size()) gap = true; }
    if (!gap) add(false, {x}, -1);
  }
  // the first thread holds an object all the time
  std::vector<std::string> any; scripts("", 0, 4, any); any.push_back("CPD"); any.push_back("CUDCUD"); any.push_back("CCDUD");
  for (size_t i = 0; i < any.size(); ++i) for (size_t k = 0; k <= i; ++k)
  {
    int b2 = th ? 3 : any[i].size() + any[k].size() <= 5 ? 2 : 1;
    add(false, {"C||D", any[i], any[k]}, b2);
    add(true, {"C||D", any[i], any[k]}, b2);
    add(true, {"", any[i], any[k]}, b2);        // nothing holds: the library goes up and down
  }
  for (auto &x : any) { add(false, {"C|U|D", x}, b2); add(false, {"C|P|D", x}, b2); add(false, {"C|CUD|D", x}, b2); }
  // all create, all destroy, in any order
  std::vector<std::string> held = {"CBD", "CUBD", "CBUD", "CUBUD", "CCDBUD", "CCBUED", "CPBD", "CBPD"};
  for (size_t i = 0; i < held.size(); ++i) for (size_t k = 0; k <= i; ++k)
  {
    int b2 = th ? 3 : held[i].size() + held[k].size() <= 7 ? 2 : 1;
    add(false, {"", held[i], held[k]}, b2);
    add(false, {"C|BD|", held[i], held[k]}, b2);     // the first thread may be the first to go
  }
  for (auto &x : held) { add(false, {"C|BD|", x}, b2 + 1); add(false, {"|CBUD|", x}, b2); add(false, {"C|BUD|", x}, b2); }
  for (auto &x : {"CBD", "CUBUD", "CBPD"}) add(false, {"", x, "CBD", "CBUD"}, b3);
  for (auto &x : {"CD", "CUD", "CPD"}) { add(false, {"C||D", x, "CUD", "CD"}, b3); add(true, {"", x, "CD", "CUD"}, b3); }
}
int main(int argc, char **argv)
{
  mct::Model m;
  static bool done = false;
  m.count = []() { if (!done) { done = true; enumerate(); } return (long)scns.size(); };
  m.describe = describe; m.body = body; m.bound = [](long i) { return scns[i].bound; };
  return mct::main(argc, argv, m);
}
