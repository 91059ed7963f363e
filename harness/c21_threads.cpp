// C21: views, subviews and handles of one block used and dropped by several threads, every schedule within the bound.
// Each thread starts with a view of the block.  Scripts: c copy the newest view, s sub-view of the newest view (and of
// sub-views), w a component or transposed view, r read, d drop the newest, f drop the oldest, h handle from the block,
// e assign a handle to itself, a assign one handle to another, n assign null, v view from the newest handle, x drop handles,
// p hand the newest view to the other thread, g take what was handed over, i create a block of one's own and hand it over.
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/dense.hpp>
#include <ovxx/allocator.hpp>
#include <ovxx/refcounted.hpp>
#include <mct.hpp>
#include <mpistub.hpp>
#include <vector>
#include <string>
#include <deque>
#include <mutex>
#include <memory>
using namespace vsip;
typedef std::complex<float> C;
struct Scn { std::string main; std::vector<std::string> t; int kind; int bound; };
static std::vector<Scn> scns;

struct Any { virtual ~Any() {} virtual void read(int) const = 0; virtual Any *copy() const = 0; virtual Any *sub() const = 0; virtual Any *other() const = 0; virtual Any *handle() const { return 0; } };
static void expect(C got, C want, int t) { if (got != want) mct::fail("value", "thread %d reads (%g,%g) instead of (%g,%g)", t, got.real(), got.imag(), want.real(), want.imag()); }

// positions of the elements in the root, as first + k * step; part 0 both, 1 real, 2 imag
static C val(int i) { return C(10 + i, -20 - i); }
template <typename V, int L> struct Vec : Any
{
  V v; int first, step, part;
  Vec(V const &x, int f, int s, int p) : v(x), first(f), step(s), part(p) {}
  void read(int t) const { for (index_type i = 0; i < v.size(); ++i) { C w = val(first + step * i); expect(C(v.get(i)), part == 1 ? C(w.real()) : part == 2 ? C(w.imag()) : w, t); } }
  Any *copy() const { return new Vec(v, first, step, part); }
  Any *sub() const; Any *other() const; Any *handle() const;
};
template <typename V> Any *mkvec0(V const &v, int f, int s, int p) { return new Vec<V, 0>(v, f, s, p); }
template <typename V> Any *mkvec1(V const &v, int f, int s, int p) { return new Vec<V, 1>(v, f, s, p); }
template <int L> struct Der
{
  template <typename V> static Any *sub(V const &v, int f, int s, int p) { return new Vec<typename V::subview_type, L - 1>(const_cast<V &>(v)(Domain<1>(v.size() - 1, -1, 2)), f + s * ((int)v.size() - 1), -s, p); }
  template <typename B> static Any *comp(Vector<C, B> const &v, int f, int s) { return new Vec<typename Vector<C, B>::imagview_type, L - 1>(const_cast<Vector<C, B> &>(v).imag(), f, s, 2); }
  template <typename B> static Any *comp(Vector<float, B> const &v, int f, int s) { return new Vec<Vector<float, B>, L - 1>(v, f, s, 2); }
};
template <> struct Der<0>
{
  template <typename V> static Any *sub(V const &v, int f, int s, int p) { return new Vec<V, 0>(v, f, s, p); }
  template <typename V> static Any *comp(V const &v, int f, int s) { return 0; }
};
template <typename V, int L> Any *Vec<V, L>::sub() const { return Der<L>::sub(v, first, step, part); }
template <typename V, int L> Any *Vec<V, L>::other() const { return part || L == 0 ? copy() : Der<L>::comp(v, first, step); }
typedef Dense<1, C> B1;
struct Handle
{
  ovxx::refcounted_ptr<B1> p;
};
template <typename V, int L> Any *Vec<V, L>::handle() const { return 0; }

typedef Dense<2, C, col2_type> B2;
struct Mat : Any
{
  Matrix<C, B2> m;
  Mat(Matrix<C, B2> const &x) : m(x) {}
  void read(int t) const { for (index_type i = 0; i < m.size(0); ++i) for (index_type j = 0; j < m.size(1); ++j) expect(m.get(i, j), val(i * 2 + j), t); }
  Any *copy() const { return new Mat(m); }
  Any *sub() const { Matrix<C, B2> &n = const_cast<Matrix<C, B2> &>(m); return new Vec<Matrix<C, B2>::row_type, 1>(n.row(1), 2, 1, 0); }
  Any *other() const { Matrix<C, B2> &n = const_cast<Matrix<C, B2> &>(m); return new Vec<Matrix<C, B2>::transpose_type::row_type, 1>(n.transpose().row(1), 1, 2, 0); }
};
typedef Vec<Vector<C, B1>, 2> Root;
static Any *root(int kind)
{
  if (kind == 0) { Vector<C, B1> v(4); for (int i = 0; i < 4; ++i) v.put(i, val(i)); return new Root(v, 0, 1, 0); }
  if (kind == 1) { B1 *b = new B1(4); Vector<C, B1> v(*b); b->decrement_count(); for (int i = 0; i < 4; ++i) v.put(i, val(i)); return new Root(v, 0, 1, 0); }
  Matrix<C, B2> m(2, 2); for (int i = 0; i < 4; ++i) m.put(i / 2, i % 2, val(i)); return new Mat(m);
}
// what threads hand over to each other (the harness's own synchronisation)
static std::mutex *box_guard; static std::deque<Any *> *box;
static bool nonempty() { return !box->empty(); }

static void run(std::string const &s, std::deque<Any *> &own, int t, int kind)
{
  std::deque<Handle> hs;
  for (char c : s)
    switch (c)
    {
      case 'c': own.push_back(own.back()->copy()); break;
      case 's': own.push_back(own.back()->sub()); break;
      case 'w': own.push_back(own.back()->other()); break;
      case 'r': for (auto a : own) a->read(t); break;
      case 'd': { Any *a = own.back(); own.pop_back(); delete a; break; }
      case 'f': { Any *a = own.front(); own.pop_front(); delete a; break; }
      case 'h': for (auto a : own) if (Root *r = dynamic_cast<Root *>(a)) { hs.push_back(Handle()); hs.back().p = ovxx::refcounted_ptr<B1>(&r->v.block()); break; } break;
      case 'e': if (!hs.empty()) { ovxx::refcounted_ptr<B1> &p = hs.back().p; p = p; } break;
      case 'a': { Handle h; if (!hs.empty()) { h.p = hs.back().p; hs.back().p = h.p; hs.push_back(h); } break; }
      case 'n': { ovxx::refcounted_ptr<B1> null; if (!hs.empty()) { hs.back().p = null; hs.pop_back(); } break; }
      case 'v': if (!hs.empty()) own.push_back(new Root(Vector<C, B1>(*hs.back().p.get()), 0, 1, 0)); break;
      case 'x': hs.clear(); break;
      case 'p': { Any *a = own.back(); own.pop_back(); std::lock_guard<std::mutex> l(*box_guard); box->push_back(a); break; }
      case 'g': { for (;;) { { std::lock_guard<std::mutex> l(*box_guard); if (!box->empty()) { own.push_back(box->front()); box->pop_front(); break; } } mct::wait_until(nonempty); } break; }
      case 'i': { vsipl lib; Any *a = root(kind); a->read(t); std::lock_guard<std::mutex> l(*box_guard); box->push_back(a); break; }
    }
  while (!own.empty()) { Any *a = own.back(); own.pop_back(); delete a; }
}
static std::string describe(long i)
{
  Scn const &s = scns[i]; std::string d = s.kind == 0 ? "vector:" : s.kind == 1 ? "vector of a block made by the application:" : "matrix:";
  d += " first thread " + s.main; for (size_t k = 0; k < s.t.size(); ++k) d += ", thread " + std::to_string(k + 1) + " " + s.t[k];
  return d;
}
static void body(long i)
{
  Scn const &s = scns[i];
  mpistub::user_init();
  {
    vsipl lib;
    { Any *w = root(s.kind); Any *x = w->sub(); x->read(0); delete x; delete w; }
    box_guard = new std::mutex; box = new std::deque<Any *>;
    long live = mct::live();
    {
      std::deque<Any *> own; own.push_back(root(s.kind));
      // only the views of the threads keep the block: what the thread objects hold is released by the threads themselves
      for (size_t k = 0; k < s.t.size(); ++k)
      {
        std::deque<Any *> *q = new std::deque<Any *>; if (s.t[k].find('i') == std::string::npos) q->push_back(own[0]->copy());
        std::string const *sc = &s.t[k]; int t = k + 1, kind = s.kind;
        ovxx::allocator *al = ovxx::allocator::get_default();
        mct::spawn([q, sc, t, kind, al]() { ovxx::allocator::set_default(al); run(*sc, *q, t, kind); delete q; });
      }
      run(s.main, own, 0, s.kind);
      mct::join();
      while (!box->empty()) { Any *a = box->front(); box->pop_front(); a->read(0); delete a; }
    }
    delete box; delete box_guard;
  }
  mct::outcome(1);
}
static long before;
static void body2(long i)
{
  // static state of the library (allocator, datatypes) exists after a first round
  { mpistub::user_init(); vsipl lib; Any *w = root(scns[i].kind); Any *x = w->sub(); delete x; delete w; before = mct::live(); }
  long b = mct::live();
  body(i);
  if (mct::live() != b) mct::fail("leak", "%ld allocations left after the last view is gone", mct::live() - b);
}
static bool ok(std::string const &s)
{
  int n = 1, h = 0;
  for (size_t i = 0; i < s.size(); ++i)
    switch (s[i])
    {
      case 'c': case 's': case 'w': if (n < 1) return false; ++n; break;
      case 'r': if (n < 1 || (i && s[i - 1] == 'r')) return false; break;
      case 'd': case 'f': if (n < 1) return false; --n; break;
      case 'h': if (n < 1) return false; ++h; break;
      case 'e': case 'a': if (h < 1) return false; break;
      case 'n': if (h < 1) return false; --h; break;
      case 'v': if (h < 1) return false; ++n; break;
    }
  return s.empty() || s.back() != 'r' || true;
}
static void all(std::string const &ops, std::string s, int n, std::vector<std::string> &out)
{
  if (ok(s)) out.push_back(s); else return;
  if (n) for (char c : ops) all(ops, s + c, n - 1, out);
}
static void enumerate()
{
  bool th = mct::thorough();
  auto add = [](std::string m, std::vector<std::string> t, int kind, int b) { scns.push_back(Scn{m, t, kind, b}); };
  std::vector<std::string> one; all("cswrdf", "", th ? 4 : 3, one);
  std::vector<std::string> two; all("cswrdf", "", 2, two);
  // one further thread with every script, while the first drops or reads or derives
  for (int kind = 0; kind < 3; ++kind) for (auto &x : one) for (auto &m : {"", "srd", "r", "cfr"}) { if (!th && kind != 0 && (m[0] == 'r' || m[0] == 'c')) continue; add(m, {x}, kind, th ? 3 : 2); }
  // two further threads
  for (int kind = 0; kind < 3; kind += th ? 1 : 2)
    for (size_t i = 0; i < two.size(); ++i) for (size_t k = 0; k <= i; ++k) add("", {two[i], two[k]}, kind, th ? 2 : 1);
  if (th) for (size_t i = 0; i < two.size(); ++i) add("", {two[i], two[i], two[i]}, i % 3, 1);
  for (auto &x : {"", "r", "s", "c"}) add("", {x, x, x}, 0, 2);
  // handles
  std::vector<std::string> hs; for (auto &x : {"hn", "hx", "hfvr", "hean", "hav", "hdvrx", "hfe", "hafnvr", "hcnfr", "hfvsr", "hfan"}) hs.push_back(x);
  for (size_t i = 0; i < hs.size(); ++i) { for (size_t k = 0; k <= i; ++k) for (int kind = 0; kind < 2; ++kind) add("", {hs[i], hs[k]}, kind, th ? 3 : 2); add("r", {hs[i]}, 0, -1); add("hn", {hs[i]}, 1, 3); }
  // handing over
  for (int kind = 0; kind < 3; ++kind)
  {
    for (auto &x : {"p", "cp", "sp", "wpr", "ccpfr", "sfp"}) for (auto &y : {"gr", "fgr", "sfgr", "fgsfr"}) { add("", {x, y}, kind, th ? 3 : 2); add(y, {x}, kind, 3); }
    add("r", {"i"}, kind, 3); add("grs", {"i"}, kind, 2); add("gsfr", {"i"}, kind, 2); add("", {"i", "gr"}, kind, 2); add("", {"i", "gsfr"}, kind, 2); add("", {"i", "i"}, kind, 1); add("gfgr", {"i", "i"}, kind, 1);
  }
}
int main(int argc, char **argv)
{
  mct::Model m; static bool done = false;
  m.count = []() { if (!done) { done = true; enumerate(); } return (long)scns.size(); };
  m.describe = describe; m.body = body2; m.bound = [](long i) { return scns[i].bound; };
  return mct::main(argc, argv, m);
}
