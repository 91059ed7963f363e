// C06: distributed blocks bound to user storage: every processor binds its own subblock's memory; histories of admit,
// release and rebind together with assignments between differently mapped blocks.   D_, ET
#include "par.hpp"
using namespace par;
typedef ET T;
typedef ovxx::scalar_of<T>::type R;
static bool const CPX = ovxx::is_complex<T>::value;
static int const GUARD = 4;
enum Format { ARR, INT, SPL };
static char const *const fname[] = {"array", "interleaved", "split"};
static R part(R x, int) { return x; }
static R part(std::complex<R> const &x, int c) { return c ? x.imag() : x.real(); }
static void join(R &x, R a, R) { x = a; }
static void join(std::complex<R> &x, R a, R b) { x = std::complex<R>(a, b); }

struct Buffer
{
  Format f; int n; std::vector<R> m, want;
  size_t idx(int p, int c) const { return f == SPL ? c * (n + 2 * GUARD) + GUARD + p : CPX ? 2 * (GUARD + p) + c : GUARD + p; }
  void init(Format ff, int nn, int salt)
  {
    f = ff; n = nn; m.assign((CPX ? 2 : 1) * (n + 2 * GUARD), R(-9));
    want = m; (void)salt;
  }
  void write(int p, T v) { expect(p, v); for (int c = 0; c < (CPX ? 2 : 1); ++c) m[idx(p, c)] = part(v, c); }
  void expect(int p, T v) { for (int c = 0; c < (CPX ? 2 : 1); ++c) want[idx(p, c)] = part(v, c); }
  T get(int p) const { T x; join(x, m[idx(p, 0)], CPX ? m[idx(p, 1)] : R()); return x; }
  bool ok() const { return m == want; }
  T *a() { return reinterpret_cast<T *>(&m[idx(0, 0)]); }
  R *re() { return &m[idx(0, 0)]; }
  R *im() { return &m[idx(0, 1)]; }
};
template <typename B, bool C> struct bind
{
  template <typename D, typename M> static B *make(D d, Buffer &u, M const &m)
  { return u.f == ARR ? new B(d, u.a(), m) : u.f == INT ? new B(d, u.re(), m) : new B(d, u.re(), u.im(), m); }
  static void re(B &b, Buffer &u) { if (u.f == ARR) b.rebind(u.a()); else if (u.f == INT) b.rebind(u.re()); else b.rebind(u.re(), u.im()); }
  static bool found(B &b, Buffer &u)
  {
    if (u.f == ARR) { T *p = 0; b.find(p); return p == u.a(); }
    if (u.f == INT) { R *p = 0; b.find(p); return p == u.re(); }
    R *p = 0, *q = 0; b.find(p, q); return p == u.re() && q == u.im();
  }
  static bool release(B &b, Buffer &u, bool up)
  {
    if (u.f == ARR) { T *p = 0; b.release(up, p); return p == u.a(); }
    if (u.f == INT) { R *p = 0; b.release(up, p); return p == u.re(); }
    R *p = 0, *q = 0; b.release(up, p, q); return p == u.re() && q == u.im();
  }
};
template <typename B> struct bind<B, false>
{
  template <typename D, typename M> static B *make(D d, Buffer &u, M const &m) { return new B(d, u.a(), m); }
  static void re(B &b, Buffer &u) { b.rebind(u.a()); }
  static bool found(B &b, Buffer &u) { T *p = 0; b.find(p); return p == u.a(); }
  static bool release(B &b, Buffer &u, bool up) { T *p = 0; b.release(up, p); return p == u.a(); }
};

template <dimension_type D, typename O, typename M, typename M2> struct Run
{
  typedef Dense<D, T, O, M> block_type;
  typedef bind<block_type, CPX> Bind;
  typedef typename ovxx::view_of<block_type>::type view_type;
  typedef typename view_type::local_type local_type;

  static void one(Shape<D> sh, Spec sp, Spec sp2, int f1, int f2, bool update)
  {
    int me = fk::rank(), sb = sub_of(sp, me, D);
    // the extent of my subblock and, in the block's dimension order, the position of an element in my memory
    int part_[3] = {0, 0, 0}, v = sb, n[3] = {0, 0, 0}, count = 1;
    for (int d = 3; d-- > 0;) { part_[d] = v % sp.d[d].nsb; v /= sp.d[d].nsb; }
    for (unsigned d = 0; d < D; ++d) { n[d] = sb < 0 ? 0 : sp.repl ? sh.n[d] : ref_size(sp.d[d], sh.n[d], part_[d]); count *= n[d]; }
    int o[3] = {O::impl_dim0, O::impl_dim1, O::impl_dim2};
    auto pos = [&](int const *l) { long p = 0; for (unsigned k = 0; k < D; ++k) p = p * n[o[k]] + l[o[k]]; return p; };
    auto each = [&](std::function<void(long, int *, int *)> f)
    { for (long i = 0; i < sh.total(); ++i) { int g[3], l[3]; sh.at(i, g); if (owns<D>(sp, sh.n, g, me, l)) f(i, g, l); } };
    Buffer b[2]; b[0].init(Format(f1), count, 0); b[1].init(Format(f2), count, 1);
    auto intact = [&](char const *when) { for (int k = 0; k < 2; ++k) if (!b[k].ok()) { fk::fail("user memory", "%s: %s buffer %d is not as expected", when, fname[b[k].f], k); b[k].want = b[k].m; } };
    each([&](long i, int *, int *l) { b[0].write(pos(l), val<T>::of(1 + i)); b[1].write(pos(l), val<T>::of(101 + i)); });
    M map = mkmap<M>::make(sp);
    {
      ovxx::refcounted_ptr<block_type> blk(Bind::make(sh.dom(), b[0], map), false);
      view_type view(*blk);
      auto holds = [&](char const *when, std::function<T(long)> e)
      {
        local_type lv = view.local(); bool ok = true;
        each([&](long i, int *, int *l) { T x = acc<local_type>::get(lv, l); if (ok && !(x == e(i))) { std::ostringstream s; s << x << ", expected " << e(i); fk::fail("element", "%s: element %ld is %s", when, i, s.str().c_str()); ok = false; } });
      };
      auto state = [&](char const *when, Buffer &u, bool adm)
      {
        if (blk->admitted() != adm) fk::fail("admitted", "%s: admitted() is %d", when, (int)blk->admitted());
        user_storage_type us = u.f == ARR ? array_format : u.f == INT ? interleaved_format : split_format;
        if (blk->user_storage() != us) fk::fail("format", "%s: user_storage() is %d, expected %d", when, (int)blk->user_storage(), (int)us);
        if (!Bind::found(*blk, u)) fk::fail("find", "%s: find() does not return the bound pointers", when);
        local_type lv = view.local();
        for (unsigned d = 0; d < D; ++d) if ((int)lv.size(d) != n[d]) fk::fail("extent", "%s: local extent %d in dimension %d, expected %d", when, (int)lv.size(d), (int)d, n[d]);
      };
      state("construction", b[0], false); intact("construction");
      blk->admit(true);
      state("admit", b[0], true); holds("admit", [](long i) { return val<T>::of(1 + i); }); intact("admit");
      // an assignment from a block with another distribution, and one to it
      DV<D, T, O, M2> other(sh, sp2); other.fill(200);
      DV<D, T, O, M2> copy(sh, sp2); copy.fill(300);
      copy.view = view;
      copy.check("assign from user memory", [](long i, int *) { return val<T>::of(1 + i); });
      view = other.view;
      holds("assignment", [](long i) { return val<T>::of(201 + i); });
      std::vector<T> before; for (int p = 0; p < count; ++p) before.push_back(val<T>::of(0));
      each([&](long i, int *, int *l) { before[pos(l)] = val<T>::of(1 + i); });
      if (!Bind::release(*blk, b[0], update)) fk::fail("release", "release does not return the bound pointers");
      if (update) each([&](long i, int *, int *l) { b[0].expect(pos(l), val<T>::of(201 + i)); });
      else
      { // nothing is copied: the user's old values, or the block worked in place
        bool eo = true, ec = true;
        each([&](long i, int *, int *l) { T g = b[0].get(pos(l)); if (!(g == before[pos(l)])) eo = false; if (!(g == val<T>::of(201 + i))) ec = false; });
        if (!eo && !ec) fk::fail("release without update", "user memory holds neither its old contents nor the block's");
        each([&](long, int *, int *l) { b[0].expect(pos(l), b[0].get(pos(l))); });
      }
      state("release", b[0], false); intact("release");
      Bind::re(*blk, b[1]);
      state("rebind", b[1], false); intact("rebind");
      each([&](long i, int *, int *l) { b[1].write(pos(l), val<T>::of(401 + i)); });
      blk->admit(true);
      state("admit again", b[1], true); holds("admit again", [](long i) { return val<T>::of(401 + i); });
      if (update) { copy.view = view + other.view; copy.check("expression", [](long i, int *) { return T(val<T>::of(401 + i) + val<T>::of(201 + i)); }); }
      view = copy.view;
      blk->release(true);
      each([&](long i, int *, int *l) { b[1].expect(pos(l), update ? T(val<T>::of(401 + i) + val<T>::of(201 + i)) : val<T>::of(1 + i)); });
      state("last release", b[1], false); intact("last release");
    }
    intact("destruction");
    unsigned long long h = fk::hash(b[1].m.data(), b[1].m.size() * sizeof(R), fk::hash(b[0].m.data(), b[0].m.size() * sizeof(R), 1));
    fk::outcome(h);
  }
  static void all(std::vector<Shape<D> > shs, std::string const &n)
  {
    for (auto sh : shs) for (auto sp : specs<M>(D, {1}, D == 1))
    {
      std::vector<Spec> o = specs<M2>(D, {1}, false);
      int k = 0;
      for (int f1 = 0; f1 < (CPX ? 3 : 1); ++f1) for (int f2 = 0; f2 < (CPX ? 3 : 1); ++f2) for (int u = 0; u < 2; ++u, ++k)
      {
        Spec s2 = o[o.size() - 1 - k % o.size()];
        if (s2.repl && s2.d[0].nsb < np()) s2 = o[0];
        par::add(n + " " + sh.str() + " " + show(sp, D) + " bound to " + fname[f1] + " then " + fname[f2] + (u ? "" : ", release without update") + ", exchanging with " + show(s2, D),
                 [=]() { one(sh, sp, s2, f1, f2, u); });
      }
    }
  }
};
static void enumerate(bool t)
{
#if D_ == 1
  std::vector<Shape<1> > sh = {{{1}}, {{5}}}; if (t) { sh.push_back({{2}}); sh.push_back({{8}}); }
  Run<1, row1_type, Map<Block_dist>, Map<Cyclic_dist> >::all(sh, "block");
  Run<1, row1_type, Map<Cyclic_dist>, Map<Block_dist> >::all(sh, "cyclic");
  Run<1, row1_type, Replicated_map<1>, Map<Block_dist> >::all(sh, "replicated");
#elif D_ == 2
  std::vector<Shape<2> > sh = {{{3, 4}}}; if (t) { sh.push_back({{1, 5}}); sh.push_back({{4, 2}}); }
  Run<2, row2_type, Map<Block_dist, Block_dist>, Map<Cyclic_dist, Whole_dist> >::all(sh, "row-major block");
  Run<2, col2_type, Map<Whole_dist, Cyclic_dist>, Map<Block_dist, Block_dist> >::all(sh, "column-major cyclic columns");
  Run<2, col2_type, Replicated_map<2>, Map<Block_dist, Whole_dist> >::all(sh, "column-major replicated");
#else
  std::vector<Shape<3> > sh = {{{2, 3, 2}}}; if (t) sh.push_back({{3, 1, 4}});
  Run<3, tuple<0, 1, 2>, Map<Block_dist, Block_dist, Whole_dist>, Map<Whole_dist, Block_dist, Block_dist> >::all(sh, "block");
  Run<3, tuple<2, 0, 1>, Map<Whole_dist, Block_dist, Block_dist>, Map<Block_dist, Whole_dist, Whole_dist> >::all(sh, "block 201");
#endif
}
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
