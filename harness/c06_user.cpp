// C06: every history of admit, release, rebind, find, reading and writing of a block bound to user storage, against a
// reference model of the block's and of all the user's memory.   ET, DIM, ORD, FMT (0 array, 1 split, 2 interleaved block storage)
#include "seq.hpp"
using namespace seq;
typedef ET T;
typedef cplx<T>::real R;
static bool const CPX = cplx<T>::value;
typedef Layout<DIM, ORD, dense, FMT == 1 ? split_complex : FMT == 2 ? interleaved_complex : array> L;
typedef Strided<DIM, T, L> SBlock;
#ifdef DENSE
typedef Dense<DIM, T, ORD> Block;
#else
typedef SBlock Block;
#endif
typedef V<DIM>::of<T, Block>::type View;
static int const GUARD = 8;
template <typename Q> static bool eq(Q a, Q b) { return a == b || (a != a && b != b); }
enum Format { ARR, INT, SPL };
static char const *const fname[] = {"array", "interleaved", "split"};
static int const shapes[2][3] = {{DIM == 1 ? 5 : 2, DIM == 3 ? 1 : 3, 2}, {DIM == 1 ? 3 : 3, 2, DIM == 3 ? 3 : 1}};
static int const MAXN = 24;

struct Buffer
{
  Format f; R m[2 * (MAXN + 2 * GUARD)], want[2 * (MAXN + 2 * GUARD)];
  int id;
  R &cell(R *x, int p, int c) { return f == SPL ? x[c * (MAXN + 2 * GUARD) + GUARD + p] : CPX ? x[2 * (GUARD + p) + c] : x[GUARD + p]; }
  int cells() const { return CPX ? 2 * (MAXN + 2 * GUARD) : MAXN + 2 * GUARD; }
  T get(int p) { return mk(cell(m, p, 0), CPX ? cell(m, p, 1) : R(), std::integral_constant<bool, cplx<T>::value>()); }
  template <typename C> static T mk(R a, R b, C c) { return mk_<T>(a, b, c); }
  template <typename Q> static Q mk_(R a, R b, std::true_type) { return Q(a, b); }
  template <typename Q> static Q mk_(R a, R, std::false_type) { return a; }
  void write(int p, T v) { for (int c = 0; c < (CPX ? 2 : 1); ++c) cell(m, p, c) = cell(want, p, c) = comp(v, c); }
  void expect(int p, T v) { for (int c = 0; c < (CPX ? 2 : 1); ++c) cell(want, p, c) = comp(v, c); }
  void adopt(int p) { for (int c = 0; c < (CPX ? 2 : 1); ++c) cell(want, p, c) = cell(m, p, c); }
  void init(int k, Format ff) { f = ff; id = k; for (int i = 0; i < cells(); ++i) m[i] = want[i] = R(i + 1 + 60 * k) / R(std::is_same<R, int>::value ? 1 : 1); }
  bool intact() { for (int i = 0; i < cells(); ++i) if (!eq(m[i], want[i])) return false; return true; }
  T *a() { return reinterpret_cast<T *>(&cell(m, 0, 0)); }
  R *re() { return &cell(m, 0, 0); }
  R *im() { return &cell(m, 0, 1); }
};
static std::string bname(Buffer &b) { return std::string(fname[b.f]) + " buffer " + std::to_string(b.id); }

enum { ADMIT, ADMIT_NO, RELEASE, RELEASE_NO, RELEASE_P, RELEASE_NO_P, PUT, EXPR, WRITE, REBIND };
static int const NB = CPX ? 5 : 2;
static int const OPS = REBIND + NB + 2;   // the last two with another domain

template <typename B, bool C> struct bind;
template <typename B> struct bind<B, true>
{
  static B *make(Domain<DIM> d, Buffer &u, int how)
  { return u.f == ARR ? new B(d, u.a()) : u.f == INT ? new B(d, u.re()) : how ? new B(d, u.re(), u.im()) : new B(d, std::make_pair(u.re(), u.im())); }
  static void re(B &b, Buffer &u, int how)
  { if (u.f == ARR) b.rebind(u.a()); else if (u.f == INT) b.rebind(u.re()); else if (how) b.rebind(u.re(), u.im()); else b.rebind(std::make_pair(u.re(), u.im())); }
  static void re(B &b, Buffer &u, Domain<DIM> d, int how)
  { if (u.f == ARR) b.rebind(u.a(), d); else if (u.f == INT) b.rebind(u.re(), d); else if (how) b.rebind(u.re(), u.im(), d); else b.rebind(std::make_pair(u.re(), u.im()), d); }
  static bool found(B &b, Buffer &u)
  {
    if (u.f == ARR) { T *p = 0; b.find(p); return p == u.a(); }
    if (u.f == INT) { R *p = 0; b.find(p); return p == u.re(); }
    R *p = 0, *q = 0; b.find(p, q); std::pair<R *, R *> pq; b.find(pq); return p == u.re() && q == u.im() && pq.first == p && pq.second == q;
  }
  static bool release(B &b, Buffer &u, bool up, int how)
  {
    if (u.f == ARR) { T *p = 0; b.release(up, p); return p == u.a(); }
    if (u.f == INT) { R *p = 0; b.release(up, p); return p == u.re(); }
    if (how) { R *p = 0, *q = 0; b.release(up, p, q); return p == u.re() && q == u.im(); }
    std::pair<R *, R *> pq; b.release(up, pq); return pq.first == u.re() && pq.second == u.im();
  }
};
template <typename B> struct bind<B, false>
{
  static B *make(Domain<DIM> d, Buffer &u, int) { return new B(d, u.a()); }
  static void re(B &b, Buffer &u, int) { b.rebind(u.a()); }
  static void re(B &b, Buffer &u, Domain<DIM> d, int) { b.rebind(u.a(), d); }
  static bool found(B &b, Buffer &u) { T *p = 0; b.find(p); return p == u.a(); }
  static bool release(B &b, Buffer &u, bool up, int) { T *p = 0; b.release(up, p); return p == u.a(); }
};
typedef bind<Block, cplx<T>::value> Bind;

struct Run
{
  Buffer buf[5];
  Block *blk; int bound, shape, tick; bool admitted, initialised;
  std::vector<T> cur;        // the block's elements, by storage position (valid when admitted or unbound)
  std::vector<T> old;        // what the user had when the block was last admitted
  long pos(int const *i) const { long st[3], tot; int n[3] = {shapes[shape][0], DIM > 1 ? shapes[shape][1] : 1, DIM > 2 ? shapes[shape][2] : 1}; ref_strides<L, T>(n, st, tot); long p = 0; for (int d = 0; d < DIM; ++d) p += st[d] * i[d]; return p; }
  int count() const { int c = 1; for (int d = 0; d < DIM; ++d) c *= shapes[shape][d]; return c; }
  Domain<DIM> domain() const { return dom<DIM>(shapes[shape]); }

  // compare everything that can be observed
  void look(char const *after)
  {
    for (int b = 0; b < NB; ++b)
      if (!buf[b].intact()) { mc::fail("user memory", "after %s: contents of the %s%s are not as expected", after, bound == b ? "bound " : "", bname(buf[b]).c_str()); for (int i = 0; i < buf[b].cells(); ++i) buf[b].want[i] = buf[b].m[i]; }
    if (blk->admitted() != admitted) mc::fail("admitted", "after %s: admitted() is %d", after, (int)blk->admitted());
    user_storage_type us = bound < 0 ? no_user_format : buf[bound].f == ARR ? array_format : buf[bound].f == INT ? interleaved_format : split_format;
    if (blk->user_storage() != us) mc::fail("format", "after %s: user_storage() is %d, expected %d", after, (int)blk->user_storage(), (int)us);
    if (bound >= 0) { if (!Bind::found(*blk, buf[bound])) mc::fail("find", "after %s: find() does not return the pointers of the %s", after, bname(buf[bound]).c_str()); }
    else { T *p = reinterpret_cast<T *>(this); blk->find(p); if (p) mc::fail("find", "after %s: find() of a block without user storage returns a pointer", after); }
    View v(*blk);
    for (int d = 0; d < DIM; ++d) if (blk->size(DIM, d) != (length_type)shapes[shape][d]) mc::fail("shape", "after %s: size %d in dimension %d, expected %d", after, (int)blk->size(DIM, d), d, shapes[shape][d]);
    if (admitted && initialised)
      for (Iter it(DIM, shapes[shape]); it.more(); it.next())
      {
        T g = at<DIM>::get(v, it.i);
        if (!eq(g, cur[pos(it.i)])) { mc::fail("element", "after %s: element %ld of the block is %s, expected %s", after, it.lin, mc::str(g).c_str(), mc::str(cur[pos(it.i)]).c_str()); break; }
      }
  }
  void adopt_block()
  {
    View v(*blk); cur.assign(count(), T());
    for (Iter it(DIM, shapes[shape]); it.more(); it.next()) cur[pos(it.i)] = at<DIM>::get(v, it.i);
  }
  // the bound buffer's elements are in the block's hands
  void adopt_user() { if (bound >= 0) for (int p = 0; p < count(); ++p) buf[bound].adopt(p); }
  bool legal(int o) const { return o < WRITE ? ((o != PUT && o != EXPR) || admitted) && ((o != RELEASE_P && o != RELEASE_NO_P) || bound >= 0) : o == WRITE ? !admitted && bound >= 0 : !admitted; }
  static bool legal(int o, bool adm, int bnd) { Run *r = 0; (void)r; return o < WRITE ? ((o != PUT && o != EXPR) || adm) && ((o != RELEASE_P && o != RELEASE_NO_P) || bnd >= 0) : o == WRITE ? !adm && bnd >= 0 : !adm; }
  void step(int o)
  {
    ++tick;
    std::string s = "this operation";
    switch (o)
    {
    case ADMIT: case ADMIT_NO:
    {
      bool was = admitted;
      blk->admit(o == ADMIT);
      admitted = true;
      if (!was && bound >= 0)
      {
        old.clear(); for (int p = 0; p < count(); ++p) old.push_back(buf[bound].get(p));
        if (o == ADMIT) { cur = old; initialised = true; } else { adopt_block(); initialised = true; }
      }
      s = o == ADMIT ? "admit(true)" : "admit(false)";
      break;
    }
    case RELEASE: case RELEASE_NO: case RELEASE_P: case RELEASE_NO_P:
    {
      bool up = o == RELEASE || o == RELEASE_P, was = admitted;
      if (o == RELEASE) { if (tick % 2) blk->release(); else blk->release(true); }
      else if (o == RELEASE_NO) blk->release(false);
      else if (!Bind::release(*blk, buf[bound], up, tick % 2)) mc::fail("release pointer", "release does not return the bound pointers");
      admitted = false;
      if (was && bound >= 0)
      {
        if (up) for (int p = 0; p < count(); ++p) buf[bound].expect(p, cur[p]);
        else
        { // nothing is copied: what the user had, or, where the block worked in place, the block's elements
          bool eo = true, ec = true;
          for (int p = 0; p < count(); ++p) { T g = buf[bound].get(p); if (!eq(g, old[p])) eo = false; if (!eq(g, cur[p])) ec = false; }
          if (!eo && !ec) mc::fail("release without update", "the %s holds neither what it held before nor the elements of the block", bname(buf[bound]).c_str());
          adopt_user();
        }
      }
      s = up ? "release(true)" : "release(false)";
      break;
    }
    case PUT:
    {
      int e = tick % count(); Iter it(DIM, shapes[shape]); while (it.lin != e) it.next();
      T x = val<T>::of(-100 - tick); at<DIM>::put(View(*blk), it.i, x); cur[pos(it.i)] = x; adopt_user_put(); s = "writing an element";
      break;
    }
    case EXPR:
    {
      if (!initialised) break;
      View v(*blk);
      if (tick % 2) { v += T(3); for (auto &x : cur) x += T(3); s = "an assignment of the view"; }
      else
      {
        s = "direct data access";
        dda::Data<Block, dda::inout> d(*blk);
        for (int p = 0; p < count(); ++p) { typedef ovxx::storage_traits<T, L::storage_format> st; st::put(d.ptr(), p, T(cur[p] * T(2))); cur[p] = cur[p] * T(2); }
      }
      adopt_user_put();
      break;
    }
    case WRITE: { int p = (tick * 2 + 1) % count(); buf[bound].write(p, val<T>::of(1000 + tick)); s = "the user writing"; break; }
    default:
    {
      int b = o - REBIND; bool other = b >= NB; if (other) { b = (b - NB) * (NB - 1); shape = !shape; }
      bound = b; admitted = false; initialised = true;
      if (other) Bind::re(*blk, buf[b], domain(), tick % 2); else Bind::re(*blk, buf[b], tick % 2);
      s = "rebind";
    }
    }
    look(s.c_str());
  }
  // while admitted, the bound buffer may or may not be where the block keeps its elements: one or the other
  void adopt_user_put()
  {
    if (bound < 0) return;
    bool eo = true, ec = true;
    for (int p = 0; p < count(); ++p) { T g = buf[bound].get(p); if (!eq(g, old[p])) eo = false; if (!eq(g, cur[p])) ec = false; }
    if (!eo && !ec) mc::fail("user memory while admitted", "the %s holds neither what it held before nor the elements of the block", bname(buf[bound]).c_str());
    adopt_user();
  }
  void go(int ctor, std::vector<int> const &h)
  {
    long live = Guarded::live();
    Format fs[5] = {ARR, ARR, INT, SPL, SPL};
    for (int b = 0; b < NB; ++b) buf[b].init(b, fs[b]);
    shape = 0; tick = 0;
    if (ctor < 0) { bound = -1; admitted = true; initialised = true; T x = val<T>::of(77); blk = ctor == -1 ? new Block(domain(), x) : new Block(domain()); if (ctor == -1) cur.assign(count(), x); else { View v(*blk); for (Iter it(DIM, shapes[0]); it.more(); it.next()) at<DIM>::put(v, it.i, val<T>::of(it.lin)); adopt_block(); } }
    else { bound = ctor; admitted = false; initialised = true; blk = Bind::make(domain(), buf[ctor], ctor % 2); }
    look("construction");
    for (int o : h) { step(o); }
    bool eo = admitted;
    blk->decrement_count();
    if (bound >= 0 && eo)
    {
      bool e1 = true, e2 = true;
      for (int p = 0; p < count(); ++p) { T g = buf[bound].get(p); if (!eq(g, old[p])) e1 = false; if (!eq(g, cur[p])) e2 = false; }
      if (!e1 && !e2) mc::fail("destruction", "destroying the block changed the user's storage");
      adopt_user();
    }
    for (int b = 0; b < NB; ++b) if (!buf[b].intact()) mc::fail("destruction", "destroying the block changed the user's storage");
    if (Guarded::live() != live) mc::fail("leak", "%ld allocations left", Guarded::live() - live);
  }
};
static char const *const opn[] = {"admit(true) ", "admit(false) ", "release(true) ", "release(false) ", "release(true,p) ", "release(false,p) ", "put ", "view+= ", "user-write "};
static std::string on(int o)
{
  if (o < REBIND) return opn[o];
  static int const f[5] = {0, 0, 1, 2, 2}; int b = o - REBIND; bool other = b >= NB; if (other) b = (b - NB) * (NB - 1);
  return std::string("rebind(") + fname[f[b]] + " " + std::to_string(b) + (other ? ", other domain) " : ") ");
}
static int depth;
static void explore(int ctor, std::vector<int> &h, bool adm, int bnd)
{
  if ((int)h.size() == depth)
  {
    if (!mc::next()) return;
    std::string s; for (int o : h) s += on(o);
    mc::desc("block %s: %s", ctor < 0 ? (ctor == -1 ? "without user storage, with a value" : "without user storage") : ("bound to buffer " + std::to_string(ctor)).c_str(), s.c_str());
    Run r; r.go(ctor, h);
    mc::nontrivial();
    return;
  }
  for (int o = 0; o < OPS; ++o)
  {
    if (bnd < 0 && o >= RELEASE && o <= RELEASE_NO) { h.push_back(o); explore(ctor, h, false, bnd); h.pop_back(); continue; }
    if (!Run::legal(o, adm, bnd)) continue;
    h.push_back(o);
    explore(ctor, h, o == ADMIT || o == ADMIT_NO ? true : o >= RELEASE && o <= RELEASE_NO_P ? false : o >= REBIND ? false : adm, o >= REBIND ? (o - REBIND >= NB ? (o - REBIND - NB) * (NB - 1) : o - REBIND) : bnd);
    h.pop_back();
  }
}
static void enumerate()
{
  init();
  static int const cs[] = {-2, -1, 0, NB - 1, 2};
  for (int c = 0; c < (CPX ? 5 : 4); ++c) { depth = cs[c] == -2 ? mc::tier(4, 5) : mc::tier(5, 6); std::vector<int> h; explore(cs[c], h, cs[c] < 0, cs[c]); }
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
