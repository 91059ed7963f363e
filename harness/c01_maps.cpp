// C01: every map partitions its index space exactly once, and all its functions agree.
#include "par.hpp"
#ifndef D_
#define D_ 1
#endif
using namespace par;
using vsip::no_subblock;

template <dimension_type D> Index<D> mki(int const *g);
template <> Index<1> mki<1>(int const *g) { return Index<1>(g[0]); }
template <> Index<2> mki<2>(int const *g) { return Index<2>(g[0], g[1]); }
template <> Index<3> mki<3>(int const *g) { return Index<3>(g[0], g[1], g[2]); }
template <typename V> long getat(V v, Index<1> i) { return (long)v.get(i[0]); }
template <typename V> long getat(V v, Index<2> i) { return (long)v.get(i[0], i[1]); }
template <typename V> long getat(V v, Index<3> i) { return (long)v.get(i[0], i[1], i[2]); }

#define REQ(c, key, ...) do { if (!(c)) { fk::fail(key, __VA_ARGS__); return; } } while (0)

// Properties any distributed view must have. parent(g): linear index in the filled parent
// (its value is 1 + that); mask(lin): processors holding that parent element.
template <dimension_type D, typename V>
void check_view(V v, Shape<D> sh, std::function<long(int const *)> parent, std::function<unsigned(long)> mask, char const *what)
{
  typedef typename V::block_type::map_type M;
  M const &map = v.block().map();
  int me = fk::rank();
  for (unsigned d = 0; d < D; ++d) REQ((int)v.size(d) == sh.n[d], what, "the view has size %d in dimension %u", (int)v.size(d), d);
  std::vector<unsigned> seen(sh.total(), 0);
  length_type nsb = num_subblocks(v);
  REQ(subblock(v) == map.subblock() && subblock(v) == subblock(v, me), what, "subblock() disagrees with subblock(processor)");
  for (index_type sb = 0; sb < nsb; ++sb)
  {
    unsigned procs = 0;
    for (auto i = map.processor_begin(sb); i != map.processor_end(sb); ++i)
    {
      REQ(*i < (unsigned)np() && !(procs >> *i & 1), what, "subblock %d lists processor %d twice or out of range", (int)sb, (int)*i);
      procs |= 1u << *i;
    }
    for (int p = 0; p < np(); ++p)
    { index_type s = map.subblock(p); REQ((procs >> p & 1) == (s == sb), what, "processor %d is %sin the list of subblock %d but subblock() is %d", p, procs >> p & 1 ? "" : "not ", (int)sb, (int)s); }
    Domain<D> sd = subblock_domain(v, sb);
    Shape<D> ls; for (unsigned d = 0; d < D; ++d) ls.n[d] = sd[d].size();
    std::vector<char> lseen(ls.total(), 0);
    for (index_type p = 0; p < num_patches(v, sb); ++p)
    {
      Domain<D> g = global_domain(v, sb, p), l = local_domain(v, sb, p);
      Shape<D> ps; for (unsigned d = 0; d < D; ++d)
      { ps.n[d] = g[d].size(); REQ(g[d].size() == l[d].size(), what, "subblock %d patch %d: global and local domains have different sizes", (int)sb, (int)p); }
      for (long k = 0; k < ps.total(); ++k)
      {
        int o[3], gi[3], li[3]; ps.at(k, o);
        for (unsigned d = 0; d < D; ++d)
        {
          gi[d] = (int)g[d].impl_nth(o[d]); li[d] = (int)l[d].impl_nth(o[d]);
          REQ(gi[d] >= 0 && gi[d] < sh.n[d], what, "subblock %d patch %d: global index %d out of range", (int)sb, (int)p, gi[d]);
          REQ(li[d] >= 0 && li[d] < ls.n[d], what, "subblock %d patch %d: local index %d outside its subblock domain of size %d", (int)sb, (int)p, li[d], ls.n[d]);
        }
        long lin = sh.lin(gi);
        REQ(!(seen[lin] & 1), what, "element %ld belongs to two patches", lin); seen[lin] |= 1;
        REQ(!lseen[ls.lin(li)], what, "local element %ld of subblock %d is used twice", ls.lin(li), (int)sb); lseen[ls.lin(li)] = 1;
        REQ(procs == mask(parent(gi)), what, "element %ld: held by processors %x, expected %x", lin, procs, mask(parent(gi)));
        if (map.subblock() == sb)
        {
          auto lv = v.local();
          for (unsigned d = 0; d < D; ++d) REQ((int)lv.size(d) == ls.n[d], what, "the local view has size %d in dimension %u but its subblock domain %d", (int)lv.size(d), d, ls.n[d]);
          long got = getat(lv, mki<D>(li));
          REQ(got == 1 + parent(gi), what, "local element %ld is %ld, expected %ld", ls.lin(li), got, 1 + parent(gi));
        }
      }
    }
    for (size_t i = 0; i < lseen.size(); ++i) REQ(lseen[i], what, "local element %d of subblock %d belongs to no patch", (int)i, (int)sb);
  }
  for (long i = 0; i < sh.total(); ++i) REQ(seen[i], what, "element %ld belongs to no subblock", i);
  if (subblock(v) == no_subblock)
  {
    REQ(num_patches(v) == 0, what, "a processor without a subblock has %d patches", (int)num_patches(v));
    Domain<D> a = subblock_domain(v), b = local_domain(v), c = global_domain(v); 
    REQ(a.size() == 0 && b.size() == 0 && c.size() == 0, what, "the domains of a processor without a subblock have %d, %d and %d elements", (int)a.size(), (int)b.size(), (int)c.size());
    if (v.local().size() != 0) REQ(false, what, "the local view of a processor without a subblock has %d elements", (int)v.local().size());
  }
  unsigned long long h = nsb; for (unsigned s : seen) h = h * 31 + s;
  fk::outcome(h);
}

template <typename M> struct is_repl { static const bool value = false; };
template <dimension_type D> struct is_repl<Replicated_map<D> > { static const bool value = true; };

template <dimension_type D, typename T, typename O, typename M>
void direct(Shape<D> sh, Spec sp)
{
  typedef DV<D, T, O, M> V;
  V v(sh, sp); v.fill(0); v.check_extent();
  int procs = np();
  auto mask = [&](long lin) { int g[3], l[3]; unsigned m = 0; sh.at(lin, g); for (int p = 0; p < procs; ++p) if (owns<D>(sp, sh.n, g, p, l)) m |= 1u << p; return m; };
  auto same = [&](int const *g) { return sh.lin(g); };
  check_view<D>(v.view, sh, same, mask, "partition");
  M const &map = v.view.block().map();
  // description of the map
  REQ((int)map.num_subblocks() == (sp.repl ? 1 : nsub(sp, D)), "describe", "num_subblocks() is %d", (int)map.num_subblocks());
  REQ((int)map.num_processors() == (sp.repl ? sp.d[0].nsb : nsub(sp, D)), "describe", "num_processors() is %d", (int)map.num_processors());
  for (unsigned d = 0; d < D; ++d)
  {
    Dim q = sp.repl ? Dim{'w', 1, 0} : sp.d[d];
    REQ((int)map.num_subblocks(d) == q.nsb, "describe", "num_subblocks(%u) is %d", d, (int)map.num_subblocks(d));
    REQ(map.distribution(d) == (q.kind == 'b' ? vsip::block : q.kind == 'c' ? vsip::cyclic : vsip::whole), "describe", "distribution(%u) is wrong", d);
    REQ((int)map.cyclic_contiguity(d) == (q.kind == 'c' ? q.contig : 0), "describe", "cyclic_contiguity(%u) is %d", d, (int)map.cyclic_contiguity(d));
  }
  { auto ps = map.processor_set(); REQ(ps.size() == map.num_processors(), "describe", "processor_set has size %d", (int)ps.size());
    for (index_type i = 0; i < ps.size(); ++i) REQ((int)ps.get(i) == pv_proc(sp, i), "describe", "processor_set(%d) is %d", (int)i, (int)ps.get(i)); }
  // index functions
  for (long i = 0; i < sh.total(); ++i)
  {
    int g[3], l[3] = {0, 0, 0}; sh.at(i, g); int owner = -1;
    for (int p = 0; p < procs; ++p) if (owns<D>(sp, sh.n, g, p, l)) { owner = p; break; }
    int want = sp.repl ? 0 : sub_of(sp, owner, D);
    Index<D> gi = mki<D>(g);
    REQ((int)subblock_from_global_index(v.view, gi) == want, "index", "subblock_from_global_index(%ld) is %d, expected %d", i, (int)subblock_from_global_index(v.view, gi), want);
    Index<D> li = local_from_global_index(v.view, gi);
    for (unsigned d = 0; d < D; ++d)
    {
      REQ((int)li[d] == l[d] && (int)local_from_global_index(v.view, d, g[d]) == l[d], "index", "local_from_global_index(%ld) is %d in dimension %u, expected %d", i, (int)li[d], d, l[d]);
      REQ((int)map.impl_global_from_local_index(d, want, l[d]) == g[d], "index", "global from local index is %d, expected %d", (int)map.impl_global_from_local_index(d, want, l[d]), g[d]);
      index_type gd = global_from_local_index(v.view, d, want, l[d]); REQ((int)gd == g[d], "index", "global_from_local_index(dim) is %d, expected %d", (int)gd, g[d]);
    }
    Index<D> back = global_from_local_index(v.view, want, li);
    for (unsigned d = 0; d < D; ++d) REQ((int)back[d] == g[d], "index", "global_from_local_index(%ld) gives %d in dimension %u", i, (int)back[d], d);
    index_type pt = patch_from_global_index(v.view, gi);
    REQ(pt < num_patches(v.view, want), "patch-index", "patch_from_global_index(%ld) is %d of %d", i, (int)pt, (int)num_patches(v.view, want));
    Domain<D> gd = global_domain(v.view, want, pt), ld = local_domain(v.view, want, pt);
    for (unsigned d = 0; d < D; ++d)
    {
      int off = g[d] - (int)gd[d].first();
      REQ(off >= 0 && off % gd[d].stride() == 0 && off / gd[d].stride() < (int)gd[d].size(), "patch-index", "patch %d of subblock %d does not hold element %ld", (int)pt, want, i);
      REQ((int)ld[d].impl_nth(off / gd[d].stride()) == l[d], "patch-index", "patch %d of subblock %d holds element %ld at the wrong local index", (int)pt, want, i);
    }
  }
  // copies of the map, and a block built from an applied map
  M copy(map); typename V::block_type b2(sh.dom(), copy);
  typename V::view_type v2(b2);
  v2.local() = v.view.local();
  check_view<D>(v2, sh, same, mask, "copied map");
}

// two specifications: has_same_map must imply identical ownership
template <dimension_type D, typename M1, typename M2>
void compare(Shape<D> sh, Spec a, Spec b)
{
  DV<D, int, typename ovxx::row_major<D>::type, M1> x(sh, a);
  DV<D, int, typename ovxx::row_major<D>::type, M2> y(sh, b);
  bool same = vp::has_same_map<D>(x.view.block().map(), y.view.block());
  bool want = true, exact = a.repl == b.repl && a.pv == b.pv;
  for (int d = 0; d < 3; ++d) exact = exact && a.d[d].kind == b.d[d].kind && a.d[d].nsb == b.d[d].nsb && a.d[d].contig == b.d[d].contig;
  for (long i = 0; i < sh.total(); ++i) for (int p = 0; p < np(); ++p)
  {
    int g[3], l[3], m[3]; sh.at(i, g);
    bool o = owns<D>(a, sh.n, g, p, l), q = owns<D>(b, sh.n, g, p, m);
    if (o != q) want = false;
    else if (o) for (unsigned d = 0; d < D; ++d) if (l[d] != m[d]) want = false;
  }
  if (same && !want) fk::fail("same-map", "maps that place an element differently compare equal");
  if (!same && exact && std::is_same<M1, M2>::value) fk::fail("same-map", "identical maps compare unequal");
  fk::outcome(same);
}

static bool T_;
struct Seg { int f, s, n; };
static std::vector<Seg> segs(int n)
{
  std::vector<Seg> v;
  for (int f = 0; f < n; ++f) for (int s = 1; s <= 2; ++s) for (int l = 1; f + s * (l - 1) < n; ++l)
  { if (s > 1 && l < 2) continue; v.push_back(Seg{f, s, l}); if (l > 1) v.push_back(Seg{f + s * (l - 1), -s, l}); }
  return v;
}
static Domain<1> dom(Seg a) { return Domain<1>(a.f, a.s, a.n); }
static std::string str(Seg a) { return std::to_string(a.f) + ":" + std::to_string(a.s) + ":" + std::to_string(a.n); }
static std::vector<Seg> few(int n)
{ std::vector<Seg> v; for (Seg s : segs(n)) if (s.n == n || s.n == 1 || (s.n == 2 && (s.s != 1 || s.f == n - 2)) || s.n == n - 1) v.push_back(s); return v; }

template <dimension_type D, typename M> struct Direct
{
  typedef typename ovxx::row_major<D>::type R;
  static void all(std::vector<Shape<D> > shs, char const *name, std::vector<int> contigs)
  {
    for (auto sh : shs) for (auto s : specs<M>(D, contigs))
      par::add(std::string("map ") + name + " " + sh.str() + " " + show(s, D), [=]() { direct<D, int, R, M>(sh, s); });
  }
};
template <dimension_type D, typename M1, typename M2> void pairs(Shape<D> sh, std::vector<int> c)
{
  for (auto a : specs<M1>(D, c)) for (auto b : specs<M2>(D, c))
    par::add("compare " + sh.str() + " " + show(a, D) + " with " + show(b, D), [=]() { compare<D, M1, M2>(sh, a, b); });
}
template <dimension_type D, typename M> std::function<unsigned(long)> masker(Shape<D> sh, Spec sp)
{ return [=](long lin) { int g[3], l[3]; unsigned m = 0; sh.at(lin, g); for (int p = 0; p < np(); ++p) if (owns<D>(sp, sh.n, g, p, l)) m |= 1u << p; return m; }; }

// ---- maps of subviews ---------------------------------------------------------
template <typename M> void sub1(int n, std::vector<int> c)
{
  Shape<1> sh = {{n}};
  for (auto sp : specs<M>(1, c)) for (auto a : segs(n))
    par::add("map of subvector " + sh.str() + " " + show(sp, 1) + " (" + str(a) + ")", [=]()
    {
      DV<1, int, row1_type, M> v(sh, sp); v.fill(0); Shape<1> s = {{a.n}};
      check_view<1>(v.view(dom(a)), s, [=](int const *g) { return (long)a.f + g[0] * a.s; }, masker<1, M>(sh, sp), "subset");
    });
}
template <typename M, bool Trans> void sub2(int n, int m, std::vector<int> c, bool subsets)
{
  Shape<2> sh = {{n, m}};
  for (auto sp : specs<M>(2, c))
  {
    std::string d = sh.str() + " " + show(sp, 2);
    auto mk = masker<2, M>(sh, sp);
    typedef DV<2, int, row2_type, M> V;
    for (int i = 0; i < n; ++i)
      par::add("map of row " + d + " " + std::to_string(i), [=]()
      { V v(sh, sp); v.fill(0); check_view<1>(v.view.row(i), Shape<1>{{m}}, [=](int const *g) { return (long)i * m + g[0]; }, mk, "row"); });
    for (int j = 0; j < m; ++j)
      par::add("map of column " + d + " " + std::to_string(j), [=]()
      { V v(sh, sp); v.fill(0); check_view<1>(v.view.col(j), Shape<1>{{n}}, [=](int const *g) { return (long)g[0] * m + j; }, mk, "column"); });
    if (subsets) for (auto a : few(n)) for (auto b : few(m))
      par::add("map of submatrix " + d + " (" + str(a) + " " + str(b) + ")", [=]()
      {
        V v(sh, sp); v.fill(0);
        check_view<2>(v.view(Domain<2>(dom(a), dom(b))), Shape<2>{{a.n, b.n}},
                      [=](int const *g) { return (long)(a.f + g[0] * a.s) * m + b.f + g[1] * b.s; }, mk, "subset");
      });
  }
}
template <typename M> void trans2(int n, int m, std::vector<int> c)
{
  Shape<2> sh = {{n, m}};
  for (auto sp : specs<M>(2, c))
    par::add("map of transpose " + sh.str() + " " + show(sp, 2), [=]()
    {
      DV<2, int, row2_type, M> v(sh, sp); v.fill(0);
      auto t = v.view.transpose();
      check_view<2>(t, Shape<2>{{m, n}}, [=](int const *g) { return (long)g[1] * m + g[0]; }, masker<2, M>(sh, sp), "transpose");
      auto const &tm = t.block().map(); auto const &pm = v.view.block().map();
      for (int d = 0; d < 2; ++d)
      {
        REQ(tm.num_subblocks(d) == pm.num_subblocks(1 - d) && tm.distribution(d) == pm.distribution(1 - d) && tm.cyclic_contiguity(d) == pm.cyclic_contiguity(1 - d), "transpose", "the transposed map describes dimension %d wrongly", d);
        for (int g = 0; g < (d ? n : m); ++g) REQ(tm.impl_local_from_global_index(d, g) == pm.impl_local_from_global_index(1 - d, g), "transpose", "local index of the transposed map");
      }
    });
}
template <typename M> void sub3(Shape<3> sh, std::vector<int> c, bool subsets)
{
  int n = sh.n[0], m = sh.n[1], k = sh.n[2];
  for (auto sp : specs<M>(3, c))
  {
    typedef DV<3, int, row3_type, M> V; typedef Tensor<int, typename V::block_type> TV;
    std::string d = sh.str() + " " + show(sp, 3);
    auto mk = masker<3, M>(sh, sp);
    par::add("maps of tensor slices " + d, [=]()
    {
      V v(sh, sp); v.fill(0); whole_domain_type w = vsip::whole_domain;
      for (int i = 0; i < n; ++i)
        check_view<2>(v.view(i, w, w), Shape<2>{{m, k}}, [=](int const *g) { return (long)(i * m + g[0]) * k + g[1]; }, mk, "slice0");
      for (int i = 0; i < m; ++i)
        check_view<2>(v.view(w, i, w), Shape<2>{{n, k}}, [=](int const *g) { return (long)(g[0] * m + i) * k + g[1]; }, mk, "slice1");
      for (int i = 0; i < k; ++i)
        check_view<2>(v.view(w, w, i), Shape<2>{{n, m}}, [=](int const *g) { return (long)(g[0] * m + g[1]) * k + i; }, mk, "slice2");
    });
    par::add("maps of tensor lines " + d, [=]()
    {
      V v(sh, sp); v.fill(0); whole_domain_type w = vsip::whole_domain;
      for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j)
        check_view<1>(v.view(i, j, w), Shape<1>{{k}}, [=](int const *g) { return (long)(i * m + j) * k + g[0]; }, mk, "line01");
      for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j)
        check_view<1>(v.view(i, w, j), Shape<1>{{m}}, [=](int const *g) { return (long)(i * m + g[0]) * k + j; }, mk, "line02");
      for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j)
        check_view<1>(v.view(w, i, j), Shape<1>{{n}}, [=](int const *g) { return (long)(g[0] * m + i) * k + j; }, mk, "line12");
    });
    if (subsets) for (auto a : few(n)) for (auto b : few(m)) for (auto e : few(k))
    {
      if (!T_ && (a.f + b.f + e.f) % 2) continue;
      par::add("map of subtensor " + d + " (" + str(a) + " " + str(b) + " " + str(e) + ")", [=]()
      {
        V v(sh, sp); v.fill(0);
        check_view<3>(v.view(Domain<3>(dom(a), dom(b), dom(e))), Shape<3>{{a.n, b.n, e.n}},
                      [=](int const *g) { return (long)((a.f + g[0] * a.s) * m + b.f + g[1] * b.s) * k + e.f + g[2] * e.s; }, mk, "subset");
      });
    }
  }
}
typedef Block_dist B; typedef Cyclic_dist C; typedef Whole_dist W;
static void enumerate(bool t)
{
  T_ = t;
  std::vector<int> c = t ? std::vector<int>{1, 2, 3, 5} : std::vector<int>{1, 2, 3};
#if D_ == 1
  std::vector<Shape<1> > sh; for (int n = 1; n <= (t ? 16 : 10); ++n) sh.push_back({{n}}); for (int n : {17, 33, 64, 100}) sh.push_back({{n}});
  Direct<1, Map<B> >::all(sh, "block", c);
  Direct<1, Map<C> >::all(sh, "cyclic", c);
  Direct<1, Map<W> >::all(sh, "whole", c);
  Direct<1, Replicated_map<1> >::all(sh, "replicated", c);
  for (int n : {2, 5}) { pairs<1, Map<B>, Map<B> >({{n}}, c); pairs<1, Map<C>, Map<C> >({{n}}, c); pairs<1, Map<B>, Map<C> >({{n}}, c);
    pairs<1, Replicated_map<1>, Replicated_map<1> >({{n}}, c); pairs<1, Map<B>, Replicated_map<1> >({{n}}, c); }
  for (int n : {3, 5, 6}) { sub1<Map<B> >(n, c); sub1<Map<W> >(n, c); sub1<Replicated_map<1> >(n, c); }
#elif D_ == 2
  std::vector<Shape<2> > sh = {{{3, 4}}, {{5, 2}}, {{1, 7}}, {{6, 5}}, {{17, 9}}};
  Direct<2, Map<B, B> >::all(sh, "block block", c);
  Direct<2, Map<C, C> >::all(sh, "cyclic cyclic", {1, 2});
  Direct<2, Map<B, C> >::all(sh, "block cyclic", c);
  Direct<2, Map<C, W> >::all(sh, "cyclic whole", c);
  Direct<2, Map<W, B> >::all(sh, "whole block", c);
  Direct<2, Replicated_map<2> >::all(sh, "replicated", c);
  pairs<2, Map<B, B>, Map<B, B> >({{3, 4}}, c); pairs<2, Map<C, C>, Map<C, C> >({{3, 4}}, {1, 2});
  pairs<2, Map<B, W>, Map<B, W> >({{3, 4}}, c); pairs<2, Map<B, B>, Map<B, W> >({{3, 4}}, c);
#elif D_ == 21
  sub2<Map<B, B>, true>(3, 4, c, true); sub2<Map<B, W>, true>(4, 3, c, true); sub2<Map<W, B>, true>(3, 5, c, true);
  sub2<Map<C, C>, true>(4, 5, {1, 2}, false); sub2<Map<B, C>, true>(4, 5, c, false); sub2<Map<C, W>, true>(5, 3, c, false); sub2<Map<W, C>, true>(5, 3, c, false);
  trans2<Map<B, B> >(3, 4, c); trans2<Map<B, W> >(4, 3, c); trans2<Map<W, B> >(4, 3, c);
  trans2<Map<C, C> >(5, 3, {1, 2}); trans2<Map<B, C> >(5, 3, c); trans2<Replicated_map<2> >(3, 4, c);
  sub2<Replicated_map<2>, false>(3, 4, c, true);
#elif D_ == 3
  std::vector<Shape<3> > sh = {{{3, 2, 4}}, {{2, 5, 1}}};
  Direct<3, Map<B, B, B> >::all(sh, "block", c);
  Direct<3, Map<C, C, C> >::all(sh, "cyclic", {1, 2});
  Direct<3, Map<B, W, C> >::all(sh, "block whole cyclic", c);
  Direct<3, Map<W, C, B> >::all(sh, "whole cyclic block", c);
  Direct<3, Replicated_map<3> >::all(sh, "replicated", c);
  pairs<3, Map<B, B, B>, Map<B, B, B> >({{3, 2, 4}}, c);
#elif D_ == 31
  sub3<Map<B, B, B> >({{3, 2, 4}}, c, true);
  sub3<Map<C, C, C> >({{3, 2, 4}}, {1, 2}, false);
#else
  sub3<Map<B, W, W> >({{3, 2, 4}}, c, true); sub3<Map<W, B, W> >({{2, 3, 4}}, c, true); sub3<Map<W, W, B> >({{2, 3, 4}}, c, true);
  sub3<Map<B, C, W> >({{3, 4, 2}}, c, false); sub3<Map<W, C, B> >({{3, 4, 2}}, c, false); sub3<Map<C, W, B> >({{3, 4, 2}}, c, false);
  sub3<Replicated_map<3> >({{3, 2, 4}}, c, true);
#endif
}
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
