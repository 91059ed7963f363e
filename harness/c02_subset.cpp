// C02: assignment between sub-domains of distributed views.
#include "par.hpp"
using namespace par;
struct Seg { int f, s, n; };
template <dimension_type D> struct Sub
{
  Seg g[D];
  Domain<D> dom() const;
  std::string str() const { std::ostringstream o; o << "("; for (unsigned d = 0; d < D; ++d) o << (d ? " " : "") << g[d].f << ":" << g[d].s << ":" << g[d].n; o << ")"; return o.str(); }
  // position of index i within the sub-domain
  bool find(int const *i, int *k) const
  {
    for (unsigned d = 0; d < D; ++d)
    { int o = i[d] - g[d].f; if (o % g[d].s) return false; o /= g[d].s; if (o < 0 || o >= g[d].n) return false; k[d] = o; }
    return true;
  }
};
template <> Domain<1> Sub<1>::dom() const { return Domain<1>(g[0].f, g[0].s, g[0].n); }
template <> Domain<2> Sub<2>::dom() const { return Domain<2>(Domain<1>(g[0].f, g[0].s, g[0].n), Domain<1>(g[1].f, g[1].s, g[1].n)); }

template <dimension_type D, typename T, typename OD, typename MD, typename OS, typename MS>
struct Assign
{
  typedef DV<D, T, OD, MD> Dst;
  typedef DV<D, T, OS, MS> Src;
  static long want(Shape<D> ssh, Sub<D> a, Sub<D> b, int const *g, long old, long base)
  {
    int k[3], x[3];
    if (!a.find(g, k)) return old;
    for (unsigned d = 0; d < D; ++d) x[d] = b.g[d].f + k[d] * b.g[d].s;
    return base + ssh.lin(x);
  }
  static void both(Shape<D> dsh, Spec ds, Sub<D> a, Shape<D> ssh, Spec ss, Sub<D> b)
  {
    Dst d(dsh, ds); Src s(ssh, ss);
    d.fill(5000); s.fill(100);
    d.view(a.dom()) = s.view(b.dom());
    d.check("subset", [&](long i, int *g) { return val<T>::of(want(ssh, a, b, g, 5001 + i, 101)); });
    s.check("source", [](long i, int *) { return val<T>::of(101 + i); });
  }
  static void from(Shape<D> dsh, Spec ds, Sub<D> a, Shape<D> ssh, Spec ss, Sub<D> b)
  {
    Shape<D> sm; for (unsigned d = 0; d < D; ++d) sm.n[d] = b.g[d].n;
    Sub<D> all; for (unsigned d = 0; d < D; ++d) all.g[d] = Seg{0, 1, sm.n[d]};
    Dst d(sm, ds); Src s(ssh, ss);
    d.fill(5000); s.fill(100);
    d.view = s.view(b.dom());
    d.check("from-subset", [&](long i, int *g) { return val<T>::of(want(ssh, all, b, g, -1, 101)); });
    Src q(sm, ss); q.fill(300);
    Dst e(dsh, ds); e.fill(5000);
    e.view(a.dom()) = q.view;
    e.check("to-subset", [&](long i, int *g) { return val<T>::of(want(sm, a, all, g, 5001 + i, 301)); });
  }
  static void all(std::vector<Shape<D> > shs, std::string const &name, std::vector<std::pair<Sub<D>, Sub<D> > > (*subs)(Shape<D>))
  {
    std::vector<Spec> ds = specs<MD>(D, {1}, false), ss = specs<MS>(D, {1}, false);
    for (auto sh : shs) for (auto p : subs(sh)) for (auto x : ds) for (auto y : ss)
    {
      std::string d = name + " " + sh.str() + " " + show(x, D) + p.first.str() + " <- " + show(y, D) + p.second.str();
      par::add("subset assign " + d, [=]() { both(sh, x, p.first, sh, y, p.second); });
      par::add("one-sided subset assign " + d, [=]() { from(sh, x, p.first, sh, y, p.second); });
    }
  }
};
static bool T_;
static std::vector<Sub<1> > segs(int n)
{
  std::vector<Sub<1> > v;
  for (int f = 0; f < n; ++f) for (int s : T_ ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}) for (int l = 1; f + s * (l - 1) < n; ++l)
  {
    if (s == 1 || l > 1) v.push_back(Sub<1>{{Seg{f, s, l}}});
    if (l > 1) v.push_back(Sub<1>{{Seg{f + s * (l - 1), -s, l}}});
  }
  return v;
}
static std::vector<std::pair<Sub<1>, Sub<1> > > subs1(Shape<1> sh)
{
  std::vector<std::pair<Sub<1>, Sub<1> > > v;
  for (auto a : segs(sh.n[0])) for (auto b : segs(sh.n[0])) if (a.g[0].n == b.g[0].n && (T_ || a.g[0].n != 2 || a.g[0].f <= b.g[0].f)) v.push_back({a, b});
  return v;
}
static std::vector<std::pair<Sub<2>, Sub<2> > > subs2(Shape<2> sh)
{
  std::vector<std::pair<Sub<2>, Sub<2> > > v;
  int n = sh.n[0], m = sh.n[1];
  auto P = [](Seg a, Seg b, Seg c, Seg d) { return std::make_pair(Sub<2>{{a, b}}, Sub<2>{{c, d}}); };
  v.push_back(P({0, 1, n - 1}, {1, 1, m - 1}, {1, 1, n - 1}, {0, 1, m - 1}));
  v.push_back(P({1, 1, 1}, {0, 2, (m + 1) / 2}, {n - 1, 1, 1}, {0, 2, (m + 1) / 2}));
  v.push_back(P({0, 2, (n + 1) / 2}, {m - 1, 1, 1}, {0, 2, (n + 1) / 2}, {0, 1, 1}));
  v.push_back(P({0, 2, (n + 1) / 2}, {0, 2, (m + 1) / 2}, {0, 1, (n + 1) / 2}, {m / 2, 1, (m + 1) / 2}));
  v.push_back(P({0, 1, n}, {0, 1, m}, {0, 1, n}, {0, 1, m}));
  v.push_back(P({n - 1, -1, n}, {0, 1, m}, {0, 1, n}, {0, 1, m}));
  v.push_back(P({0, 1, n}, {m - 1, -1, m}, {n - 1, -1, n}, {0, 1, m}));
  v.push_back(P({n - 1, -2, (n + 1) / 2}, {0, 1, m - 1}, {0, 2, (n + 1) / 2}, {m - 1, -1, m - 1}));
  return v;
}
static void enumerate(bool t)
{
  T_ = t;
#if D_ == 1
  std::vector<Shape<1> > sh = {{{5}}, {{4}}};
  if (t) sh.push_back({{7}});
  Assign<1, double, row1_type, Map<Block_dist>, row1_type, Map<Block_dist> >::all(sh, "double", subs1);
#elif D_ == 11
  std::vector<Shape<1> > sh = {{{4}}};
  if (t) sh.push_back({{6}});
  Assign<1, std::complex<float>, row1_type, Map<Block_dist>, row1_type, Map<Block_dist> >::all(sh, "complex", subs1);
#elif D_ == 12
  std::vector<Shape<1> > sh = {{{4}}};
  if (t) sh.push_back({{5}});
  Assign<1, double, row1_type, Map<Block_dist>, row1_type, Replicated_map<1> >::all(sh, "double", subs1);
  Assign<1, double, row1_type, Replicated_map<1>, row1_type, Map<Block_dist> >::all(sh, "double", subs1);
#else
  std::vector<Shape<2> > sh = {{{3, 4}}, {{4, 3}}};
  if (t) sh.push_back({{5, 6}});
  Assign<2, double, row2_type, Map<Block_dist, Block_dist>, row2_type, Map<Block_dist, Block_dist> >::all(sh, "double row<-row", subs2);
  Assign<2, float, col2_type, Map<Block_dist, Block_dist>, row2_type, Map<Block_dist, Whole_dist> >::all(sh, "float col<-row", subs2);
#endif
}
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
