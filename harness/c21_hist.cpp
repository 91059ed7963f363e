// C21: every history of creating, copying, deriving, assigning and destroying views and handles of up to two blocks.
// After each operation the blocks alive are exactly those something refers to, and every view shows the model's values.
#include <seq.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/dense.hpp>
#include <ovxx/strided.hpp>
#include <memory>
#include <functional>
using namespace vsip;
using seq::Guarded;
typedef std::complex<double> C;
#ifndef ET
# define ET std::complex<float>
#endif
#ifndef ORD
# define ORD row1_type
#endif
#ifndef DIM
# define DIM 1
#endif
#ifndef FMT
# define FMT array
#endif
#ifdef DENSE
typedef Dense<DIM, ET, ORD> B;
#else
typedef ovxx::Strided<DIM, ET, Layout<DIM, ORD, dense, FMT> > B;
#endif
template <int D> struct vt; 
template <> struct vt<1> { typedef Vector<ET, B> type; };
template <> struct vt<2> { typedef Matrix<ET, B> type; };
template <> struct vt<3> { typedef Tensor<ET, B> type; };
typedef vt<DIM>::type RootView;
static int const N0 = DIM == 1 ? 3 : 2, N1 = DIM == 3 ? 2 : 3, N2 = 2;
static bool const CPX = !std::is_same<ET, ovxx::scalar_of<ET>::type>::value;
static int const LEVELS = 2;
static int nelem() { return DIM == 1 ? N0 : DIM == 2 ? N0 * N1 : N0 * N1 * N2; }

// ---- the model
struct Slot
{
  std::string path; int root, dim, part, depth; bool konst, handle; int n[3]; std::vector<int> map;
  int count() const { return map.size(); }
};
static Slot pick(Slot const &s, int dim, std::vector<int> n, std::function<void(int const *, int *)> f, int part, std::string const &p)
{
  Slot r = s; r.dim = dim; r.part = part; r.depth = s.depth + 1; r.path = s.path + p; r.map.clear();
  for (int k = 0; k < 3; ++k) r.n[k] = k < dim ? n[k] : 1;
  for (int i = 0; i < r.n[0]; ++i) for (int j = 0; j < r.n[1]; ++j) for (int k = 0; k < r.n[2]; ++k)
  {
    int in[3] = {i, j, k}, o[3] = {0, 0, 0}; f(in, o);
    r.map.push_back(s.map[(o[0] * s.n[1] + o[1]) * s.n[2] + o[2]]);
  }
  return r;
}
static bool derive(Slot const &s, int how, Slot &r)
{
  if (s.handle || s.konst || s.depth >= LEVELS) return false;
  int a = s.n[0], b = s.n[1], c = s.n[2]; (void)c;
  bool cx = CPX && !s.part;
  auto id = [](int const *i, int *o) { o[0] = i[0]; o[1] = i[1]; o[2] = i[2]; };
  std::vector<int> all(s.n, s.n + 3);
  if (how == 10 || how == 11) { if (!cx) return false; r = pick(s, s.dim, all, id, how - 9, how == 10 ? ".real" : ".imag"); return true; }
  if (s.dim == 1)
  {
    if (how == 0) { if (a < 2) return false; r = pick(s, 1, {a - 1}, [a](int const *i, int *o) { o[0] = a - 1 - i[0]; }, s.part, ".sub"); return true; }
    return false;
  }
  if (s.dim == 2) switch (how)
  {
    case 0: r = pick(s, 1, {b}, [a](int const *i, int *o) { o[0] = a - 1; o[1] = i[0]; }, s.part, ".row"); return true;
    case 1: r = pick(s, 1, {a}, [](int const *i, int *o) { o[0] = i[0]; o[1] = 0; }, s.part, ".col"); return true;
    case 2: r = pick(s, 1, {std::min(a, b)}, [](int const *i, int *o) { o[0] = o[1] = i[0]; }, s.part, ".diag"); return true;
    case 3: r = pick(s, 2, {b, a}, [](int const *i, int *o) { o[0] = i[1]; o[1] = i[0]; }, s.part, ".transpose"); return true;
    case 4: if (b < 2) return false; r = pick(s, 2, {a, b - 1}, [b](int const *i, int *o) { o[0] = i[0]; o[1] = b - 1 - i[1]; }, s.part, ".sub"); return true;
    default: return false;
  }
  switch (how)
  {
    case 0: r = pick(s, 2, {b, c}, [a](int const *i, int *o) { o[0] = a - 1; o[1] = i[0]; o[2] = i[1]; }, s.part, ".(end,:,:)"); return true;
    case 1: r = pick(s, 2, {a, c}, [](int const *i, int *o) { o[0] = i[0]; o[1] = 0; o[2] = i[1]; }, s.part, ".(:,0,:)"); return true;
    case 2: r = pick(s, 2, {a, b}, [c](int const *i, int *o) { o[0] = i[0]; o[1] = i[1]; o[2] = c - 1; }, s.part, ".(:,:,end)"); return true;
    case 3: r = pick(s, 1, {b}, [c](int const *i, int *o) { o[0] = 0; o[1] = i[0]; o[2] = c - 1; }, s.part, ".(0,:,end)"); return true;
    case 4: r = pick(s, 3, {b, c, a}, [](int const *i, int *o) { o[1] = i[0]; o[2] = i[1]; o[0] = i[2]; }, s.part, ".transpose"); return true;
    case 5: if (a < 2) return false; r = pick(s, 3, {a - 1, b, c}, [](int const *i, int *o) { o[0] = i[0] + 1; o[1] = i[1]; o[2] = i[2]; }, s.part, ".sub"); return true;
    default: return false;
  }
}

// ---- the real objects
struct Any
{
  virtual ~Any() {}
  virtual C get(int i) const = 0;
  virtual void put(int i, C v) = 0;
  virtual int count() const = 0;
  virtual Any *copy() const = 0;
  virtual Any *konst() const = 0;
  virtual Any *derive(int how) = 0;
  virtual bool assign(Any *src, int how) = 0;
};
template <typename T> T cv(C v) { return T(v.real()); }
template <> std::complex<float> cv(C v) { return std::complex<float>(v); }
template <> std::complex<double> cv(C v) { return v; }
template <typename V> auto vget(V const &v, int i, std::integral_constant<int, 1>) { return v.get(i); }
template <typename V> auto vget(V const &v, int i, std::integral_constant<int, 2>) { int n = v.size(1); return v.get(i / n, i % n); }
template <typename V> auto vget(V const &v, int i, std::integral_constant<int, 3>) { int n = v.size(2), m = v.size(1); return v.get(i / n / m, i / n % m, i % n); }
template <typename V, typename T> void vput(V &v, int i, T x, std::integral_constant<int, 1>) { v.put(i, x); }
template <typename V, typename T> void vput(V &v, int i, T x, std::integral_constant<int, 2>) { int n = v.size(1); v.put(i / n, i % n, x); }
template <typename V, typename T> void vput(V &v, int i, T x, std::integral_constant<int, 3>) { int n = v.size(2), m = v.size(1); v.put(i / n / m, i / n % m, i % n, x); }
template <typename V> V same(V v) { return v; }

template <typename V> struct konst_of;
template <typename T, typename K> struct konst_of<Vector<T, K> > { typedef const_Vector<T, K> type; static int const dim = 1; };
template <typename T, typename K> struct konst_of<Matrix<T, K> > { typedef const_Matrix<T, K> type; static int const dim = 2; };
template <typename T, typename K> struct konst_of<Tensor<T, K> > { typedef const_Tensor<T, K> type; static int const dim = 3; };
template <typename T, typename K> struct konst_of<const_Vector<T, K> > { typedef const_Vector<T, K> type; static int const dim = 1; };
template <typename T, typename K> struct konst_of<const_Matrix<T, K> > { typedef const_Matrix<T, K> type; static int const dim = 2; };
template <typename T, typename K> struct konst_of<const_Tensor<T, K> > { typedef const_Tensor<T, K> type; static int const dim = 3; };

template <typename V> struct KObj : Any
{
  V v; typedef std::integral_constant<int, konst_of<V>::dim> dim;
  explicit KObj(V const &x) : v(x) {}
  C get(int i) const { return C(vget(v, i, dim())); }
  void put(int, C) {}
  int count() const { return v.size(); }
  Any *copy() const { return new KObj(same(v)); }
  Any *konst() const { return 0; }
  Any *derive(int) { return 0; }
  bool assign(Any *, int) { return false; }
};
template <typename V, int L> struct Obj;
template <int L, typename V> Any *mk(V v) { return new Obj<V, L>(v); }
template <int L> struct Der
{
  template <typename T, typename K> static Any *f(Vector<std::complex<T>, K> &v, int how)
  { if (how == 10) return mk<L - 1>(v.real()); if (how == 11) return mk<L - 1>(v.imag()); return mk<L - 1>(v(Domain<1>(v.size() - 1, -1, v.size() - 1))); }
  template <typename T, typename K> static Any *f(Vector<T, K> &v, int) { return mk<L - 1>(v(Domain<1>(v.size() - 1, -1, v.size() - 1))); }
  template <typename V> static Any *two(V &m, int how)
  {
    switch (how)
    {
      case 0: return mk<L - 1>(m.row(m.size(0) - 1));
      case 1: return mk<L - 1>(m.col(0));
      case 2: return mk<L - 1>(m.diag(0));
      case 3: return mk<L - 1>(m.transpose());
      default: return mk<L - 1>(m(Domain<2>(m.size(0), Domain<1>(m.size(1) - 1, -1, m.size(1) - 1))));
    }
  }
  template <typename T, typename K> static Any *f(Matrix<std::complex<T>, K> &v, int how) { if (how == 10) return mk<L - 1>(v.real()); if (how == 11) return mk<L - 1>(v.imag()); return two(v, how); }
  template <typename T, typename K> static Any *f(Matrix<T, K> &v, int how) { return two(v, how); }
  template <typename V> static Any *three(V &t, int how)
  {
    switch (how)
    {
      case 0: return mk<L - 1>(t(t.size(0) - 1, whole_domain, whole_domain));
      case 1: return mk<L - 1>(t(whole_domain, 0, whole_domain));
      case 2: return mk<L - 1>(t(whole_domain, whole_domain, t.size(2) - 1));
      case 3: return mk<L - 1>(t(0, whole_domain, t.size(2) - 1));
      case 4: return mk<L - 1>(t.template transpose<1, 2, 0>());
      default: return mk<L - 1>(t(Domain<3>(Domain<1>(1, 1, t.size(0) - 1), t.size(1), t.size(2))));
    }
  }
  template <typename T, typename K> static Any *f(Tensor<std::complex<T>, K> &v, int how) { if (how == 10) return mk<L - 1>(v.real()); if (how == 11) return mk<L - 1>(v.imag()); return three(v, how); }
  template <typename T, typename K> static Any *f(Tensor<T, K> &v, int how) { return three(v, how); }
};
template <> struct Der<0> { template <typename V> static Any *f(V &, int) { return 0; } };
template <typename V, int L> struct Obj : Any
{
  V v; typedef std::integral_constant<int, konst_of<V>::dim> dim;
  explicit Obj(V const &x) : v(x) {}
  C get(int i) const { return C(vget(v, i, dim())); }
  void put(int i, C x) { vput(v, i, cv<typename V::value_type>(x), dim()); }
  int count() const { return v.size(); }
  Any *copy() const { return new Obj(same(v)); }
  Any *konst() const { return new KObj<typename konst_of<V>::type>(v); }
  Any *derive(int how) { return Der<L>::f(v, how); }
  bool assign(Any *s, int how)
  {
    if (how == 2) { v = cv<typename V::value_type>(C(5, -6)); return true; }
    if (Obj *o = dynamic_cast<Obj *>(s)) { if (how == 0) v = o->v; else v += o->v; return true; }
    if (KObj<typename konst_of<V>::type> *o = dynamic_cast<KObj<typename konst_of<V>::type> *>(s)) { if (how == 0) v = o->v; else v += o->v; return true; }
    return false;
  }
};
struct Hnd : Any
{
  ovxx::refcounted_ptr<B> p;
  C get(int) const { return C(); } void put(int, C) {} int count() const { return 0; } Any *copy() const { Hnd *h = new Hnd(*this); return h; } Any *konst() const { return 0; } Any *derive(int) { return 0; }
  bool assign(Any *s, int) { Hnd *h = dynamic_cast<Hnd *>(s); if (!h) return false; p = h->p; return true; }
};
template <int D> Domain<D> dom_();
template <> Domain<1> dom_<1>() { return Domain<1>(N0); }
template <> Domain<2> dom_<2>() { return Domain<2>(N0, N1); }
template <> Domain<3> dom_<3>() { return Domain<3>(N0, N1, N2); }
#if DIM == 1
static RootView make() { return RootView(N0, ET(9)); }
#elif DIM == 2
static RootView make() { return RootView(N0, N1, ET(9)); }
#else
static RootView make() { return RootView(N0, N1, N2, ET(9)); }
#endif
typedef Obj<RootView, LEVELS> RootObj;

enum Code { NEW, NEWB, COPY, KONST, DERIVE, DROP, WRITE, ASSIGN, ADD, FILL, HANDLE, HNULL, HRESET, HVIEW, HRESETNULL };
struct Op { int code, a, b; };
static std::string name(Op const &o)
{
  static char const *n[] = {"new", "new block", "copy", "const", "derive", "drop", "write", "assign", "+=", "fill", "handle", "= null", "reset", "view of", "reset null"};
  std::string s = n[o.code]; if (o.code > NEWB) s += " " + std::to_string(o.a); if (o.code == DERIVE) s += "/" + std::to_string(o.b); if (o.code == ASSIGN || o.code == ADD || o.code == HRESET) s += " from " + std::to_string(o.b);
  return s;
}
// the model's step; false: not a legal operation
struct Model
{
  std::vector<Slot> s; std::vector<std::vector<C> > val; int tick;
  Model() : tick(100) {}
  bool alive(int r) const { for (auto &x : s) if (x.root == r) return true; return false; }
  int blocks() const { int n = 0; for (size_t r = 0; r < val.size(); ++r) n += alive(r); return n; }
  void set(Slot const &x, int i, C v) { C &d = val[x.root][x.map[i]]; if (x.part == 0) d = CPX ? v : C(v.real()); else if (x.part == 1) d = C(v.real(), d.imag()); else d = C(d.real(), v.real()); }
  C get(Slot const &x, int i) const { C d = val[x.root][x.map[i]]; return x.part == 0 ? d : x.part == 1 ? C(d.real()) : C(d.imag()); }
  Slot root_slot(int r)
  {
    Slot x; x.path = "view"; x.root = r; x.dim = DIM; x.part = 0; x.depth = 0; x.konst = x.handle = false;
    x.n[0] = N0; x.n[1] = DIM > 1 ? N1 : 1; x.n[2] = DIM > 2 ? N2 : 1; for (int i = 0; i < nelem(); ++i) x.map.push_back(i);
    return x;
  }
  bool step(Op const &o, int maxslots, int maxroots)
  {
    if (o.code > NEWB && o.a >= (int)s.size()) return false;
    if ((o.code <= DERIVE || o.code == HANDLE || o.code == HVIEW) && (int)s.size() >= maxslots) return false;
    switch (o.code)
    {
      case NEW: case NEWB: if ((int)val.size() >= maxroots) return false; val.push_back(std::vector<C>(nelem(), C(9))); s.push_back(root_slot(val.size() - 1)); return true;
      case COPY: { Slot x = s[o.a]; s.push_back(x); return true; }
      case KONST: { Slot x = s[o.a]; if (x.konst || x.handle) return false; x.konst = true; s.push_back(x); return true; }
      case DERIVE: { Slot x; if (!derive(s[o.a], o.b, x)) return false; s.push_back(x); return true; }
      case DROP: s.erase(s.begin() + o.a); return true;
      case WRITE: { Slot &x = s[o.a]; if (x.konst || x.handle) return false; ++tick; set(x, x.count() - 1, C(tick, -tick)); return true; }
      case FILL: { Slot &x = s[o.a]; if (x.konst || x.handle) return false; for (int i = 0; i < x.count(); ++i) set(x, i, C(5, -6)); return true; }
      case ASSIGN: case ADD:
      {
        if (o.b >= (int)s.size()) return false;
        Slot &d = s[o.a], &x = s[o.b];
        if (d.handle && x.handle && o.code == ASSIGN) { d.root = x.root; return true; }
        if (d.handle || x.handle || d.konst || d.path != x.path) return false;
        for (int k = 0; k < 3; ++k) if (d.n[k] != x.n[k]) return false;
        if (d.root == x.root && (d.map != x.map || d.part != x.part)) return false;
        std::vector<C> v; for (int i = 0; i < x.count(); ++i) v.push_back(get(x, i) + (o.code == ADD ? get(d, i) : C()));
        for (int i = 0; i < d.count(); ++i) set(d, i, v[i]);
        return true;
      }
      case HANDLE: { Slot &x = s[o.a]; if (x.handle || x.konst || x.depth) return false; Slot h = x; h.handle = true; h.path = "handle"; s.push_back(h); return true; }
      case HNULL: case HRESETNULL: { Slot &x = s[o.a]; if (!x.handle) return false; x.root = -1; return true; }
      case HRESET: { if (o.b >= (int)s.size()) return false; Slot &x = s[o.a], &y = s[o.b]; if (!x.handle || y.handle || y.konst || y.depth) return false; x.root = y.root; return true; }
      case HVIEW: { Slot &x = s[o.a]; if (!x.handle || x.root < 0) return false; s.push_back(root_slot(x.root)); return true; }
    }
    return false;
  }
};
struct Real
{
  std::vector<Any *> s;
  void step(Op const &o, int tick)
  {
    switch (o.code)
    {
      case NEW: s.push_back(new RootObj(make())); break;
      case NEWB: { B *b = new B(dom_<DIM>(), ET(9)); RootView v(*b); b->decrement_count(); s.push_back(new RootObj(v)); break; }
      case COPY: s.push_back(s[o.a]->copy()); break;
      case KONST: s.push_back(s[o.a]->konst()); break;
      case DERIVE: s.push_back(s[o.a]->derive(o.b)); break;
      case DROP: delete s[o.a]; s.erase(s.begin() + o.a); break;
      case WRITE: s[o.a]->put(s[o.a]->count() - 1, C(tick, -tick)); break;
      case ASSIGN: case ADD: if (!s[o.a]->assign(s[o.b], o.code == ADD)) mc::fail("harness", "assignment of different types"); break;
      case FILL: s[o.a]->assign(0, 2); break;
      case HANDLE: { RootObj *r = static_cast<RootObj *>(s[o.a]); Hnd *h = new Hnd; h->p = ovxx::refcounted_ptr<B>(&r->v.block()); s.push_back(h); break; }
      case HNULL: { ovxx::refcounted_ptr<B> null; static_cast<Hnd *>(s[o.a])->p = null; break; }
      case HRESETNULL: static_cast<Hnd *>(s[o.a])->p.reset(0); break;
      case HRESET: static_cast<Hnd *>(s[o.a])->p.reset(&static_cast<RootObj *>(s[o.b])->v.block(), true); break;
      case HVIEW: s.push_back(new RootObj(RootView(*static_cast<Hnd *>(s[o.a])->p.get()))); break;
    }
  }
};
static long perblock = 1;
static void play(std::vector<Op> const &h, bool backwards)
{
  long live = Guarded::live();
  Model m; Real r;
  auto look = [&](size_t k)
  {
    mc::step();
    if (Guarded::live() - live != perblock * m.blocks())
    { mc::fail(Guarded::live() - live < perblock * m.blocks() ? "released early" : "not released", "after operation %zu (%s) %ld allocations are alive; %d blocks are referred to", k, k < h.size() ? name(h[k]).c_str() : "destruction", Guarded::live() - live, m.blocks()); return false; }
    for (size_t i = 0; i < m.s.size(); ++i)
    {
      Slot const &x = m.s[i]; if (x.handle) continue;
      if (r.s[i]->count() != x.count()) { mc::fail("size", "after operation %zu (%s): %s (%zu) has %d elements instead of %d", k, name(h[k]).c_str(), x.path.c_str(), i, r.s[i]->count(), x.count()); return false; }
      for (int e = 0; e < x.count(); ++e) { C g = r.s[i]->get(e), w = m.get(x, e); if (g != w) { mc::fail("value", "after operation %zu (%s): element %d of %s (%zu) is (%g,%g) instead of (%g,%g)", k, name(h[k]).c_str(), e, x.path.c_str(), i, g.real(), g.imag(), w.real(), w.imag()); return false; } }
    }
    return true;
  };
  for (size_t k = 0; k < h.size(); ++k) { m.step(h[k], 99, 99); r.step(h[k], m.tick); if (!look(k)) return; }
  while (!m.s.empty())
  {
    int i = backwards ? m.s.size() - 1 : 0;
    m.s.erase(m.s.begin() + i); delete r.s[i]; r.s.erase(r.s.begin() + i);
    if (!look(h.size())) return;
  }
}
static int depth, maxslots;
static void explore(Model const &m, std::vector<Op> &h)
{
  if ((int)h.size() == depth)
  {
    for (int b = 0; b < 2; ++b)
    {
      if (!mc::next()) continue;
      std::string s; for (auto &o : h) s += name(o) + ", ";
      mc::desc("%sthen all dropped, %s first", s.c_str(), b ? "newest" : "oldest");
      play(h, b); mc::nontrivial();
    }
    return;
  }
  for (int c = NEW; c <= HRESETNULL; ++c)
  {
    int na = c <= NEWB ? 1 : m.s.size(), nb = c == DERIVE ? 12 : c == ASSIGN || c == ADD || c == HRESET ? m.s.size() : 1;
    if (c == NEWB && !h.empty() && h.size() > 1) continue;
    for (int a = 0; a < na; ++a) for (int b = 0; b < nb; ++b)
    {
      Op o = {c, a, b}; Model n = m;
      if (!n.step(o, maxslots, 2)) continue;
      h.push_back(o); explore(n, h); h.pop_back();
    }
  }
}
static void enumerate()
{
  seq::init();
  { long l = Guarded::live(); RootObj *r = new RootObj(make()); perblock = Guarded::live() - l; delete r; if (perblock < 1) mc::fail("harness", "a block does not use the default allocator"); }
  depth = mc::tier(DEPTH, DEPTH + 1); maxslots = 4;
  std::vector<Op> h; explore(Model(), h);
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
