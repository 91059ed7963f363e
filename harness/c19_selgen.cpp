// C19: selection, generation, histograms, swaps, frequency swaps and windows.
#include "place.hpp"
#include <vsip/selgen.hpp>
#include <vsip/signal.hpp>
#include <ovxx/signal/freqswap.hpp>
#include <ovxx/signal/window.hpp>
using mc::tier;
PL(mcolsub, C2, ({n0 + 1, n1 + 2}), r.view()(Domain<2>(Domain<1>(1, 1, n[0]), Domain<1>(0, 1, n[1]))), FOR2((1 + i) * (n1 + 2) + j))
#define EACH(c) for (unsigned m = 0; m < (c); ++m)
template <typename P> static bool outside(P &d, char const *what) { return d.r.check("outside", what); }
template <typename P> static bool cell(P &d, long l, T w, char const *what)
{
  T g = d.get(l); d.accept(l); mc::outcome(mc::hash(&g, sizeof g));
  if (g == w) return true;
  mc::fail("value", "%s: element %ld is %s, expected %s", what, l, mc::str(g).c_str(), mc::str(w).c_str()); return false;
}
typedef list<wholev, strided, revv, rowline, column, diagonal, tensorline> VL;
typedef list<mrow, mcol, msub, mtrans, plane, mcolsub> ML;
template <template <typename> class F, typename... A> static void each(list<A...>) { int x[] = {(F<A>::go(), 0)...}; (void)x; }

#ifdef SELECT
struct Less { bool operator()(T a, T b) const { return a < b; } };
struct Both { bool operator()(T a, T b) const { return a == T(1) && b == T(1); } };
template <typename P> struct First
{
  static void go()
  {
    int N = tier(4, 5);
    for (int n = 1; n <= N; ++n) EACH(1u << (2 * n)) if (mc::next())
    {
      mc::desc("first, %s, %d elements, pattern %u", P::name(), n, m); mc::nontrivial();
      P a(n, 1); wholev b(n, 1); a.fill(1); b.fill(2);
      for (int i = 0; i < n; ++i) { a.set(i, T((m >> i) & 1)); b.set(i, T((m >> (n + i)) & 1)); }
      for (int k = 0; k < 2; ++k) for (int begin = 0; begin <= n + 2; ++begin)
      {
        index_type w = begin > n ? begin : n;
        for (int i = n; i-- > begin;) if (k ? a.get(i) < b.get(i) : a.get(i) == T(1) && b.get(i) == T(1)) w = i;
        index_type g = k ? first(begin, Less(), a.view(), b.view()) : first(begin, Both(), a.view(), b.view()); mc::step();
        mc::outcome(g);
        if (g != w) mc::fail("value", "first(%d) is %ld, expected %ld", begin, (long)g, (long)w);
      }
      outside(a, "first"); outside(b, "first");
    }
    // one or two hits in long vectors
    for (int n : {16, 17, 33, 100}) for (int h = 0; h < n; ++h) for (int begin : {0, 1, h - 1, h, h + 1, n - 1}) if (begin >= 0 && mc::next())
    {
      mc::desc("first, %s, %d elements, hit at %d and %d, from %d", P::name(), n, h, (h * 7 + 3) % n, begin); mc::nontrivial();
      P a(n, 1); wholev b(n, 1); a.fill(1); b.fill(2); int g = (h * 7 + 3) % n;
      for (int i = 0; i < n; ++i) { a.set(i, T(i == h || i == g)); b.set(i, T(1)); }
      index_type w = n; if (begin <= h) w = h; if (begin <= g && g < (int)w) w = g;
      index_type got = first(begin, Both(), a.view(), b.view()); mc::step();
      if (got != w) mc::fail("value", "first(%d) is %ld, expected %ld", begin, (long)got, (long)w);
    }
  }
};
template <typename I> static long lin(I i, int n1, int n2);
template <> long lin(Index<1> i, int, int) { return i[0]; }
template <> long lin(Index<2> i, int n1, int) { return i[0] * n1 + i[1]; }
template <> long lin(Index<3> i, int n1, int n2) { return (i[0] * n1 + i[1]) * n2 + i[2]; }
template <dimension_type D> static Index<D> idx(long l, int n1, int n2);
template <> Index<1> idx<1>(long l, int, int) { return Index<1>(l); }
template <> Index<2> idx<2>(long l, int n1, int) { return Index<2>(l / n1, l % n1); }
template <> Index<3> idx<3>(long l, int n1, int n2) { return Index<3>(l / n2 / n1, l / n2 % n1, l % n2); }
// a vector of indices, itself a part of a larger one or not
template <dimension_type D> struct Idx
{
  Vector<Index<D> > all; bool part; int n;
  Idx(int k, bool p) : all(2 * k + 3), part(p), n(k) { for (index_type i = 0; i < all.size(); ++i) all.put(i, idx<D>(77, 8, 8)); }
  int at(int i) const { return part ? 1 + 2 * i : i; }
  bool is(int p, Index<D> i) { Index<D> g = all.get(p); for (dimension_type d = 0; d < D; ++d) if (g[d] != i[d]) return false; return true; }
};
template <dimension_type D, typename V> static void ibool1(V v, std::vector<bool> const &w, int n1)
{
  int N = w.size();
  std::vector<int> sizes; for (int k = 1; k <= N + 1; ++k) if (N <= 4 || k == 1 || k >= N / 2) sizes.push_back(k);
  for (int k : sizes) for (int part = 0; part < 2; ++part)
  {
    Idx<D> x(k, part); length_type c;
    if (part) c = indexbool(v, x.all(Domain<1>(1, 2, k))); else c = indexbool(v, x.all(Domain<1>(k)));
    mc::step(); int want = 0;
    std::vector<int> touched(x.all.size(), 0);
    for (int i = 0; i < N; ++i) if (w[i]) { if (want < k) { touched[x.at(want)] = 1; if (!x.is(x.at(want), idx<D>(i, n1, 1))) mc::fail("value", "indexbool: index %d of %d is wrong", want, k); } ++want; }
    if ((int)c != want) mc::fail("value", "indexbool returns %ld, expected %d", (long)c, want);
    for (size_t i = 0; i < touched.size(); ++i) if (!touched[i] && !x.is(i, idx<D>(77, 8, 8))) { mc::fail("outside", "indexbool into %d indices wrote position %d", k, (int)i); break; }
  }
}
template <typename P> struct IBool
{
  static void go()
  {
    for (int n = 1; n <= tier(7, 10); ++n) EACH(1u << n) if (mc::next())
    {
      mc::desc("indexbool %s, %d elements, pattern %u", P::name(), n, m); mc::nontrivial();
      P a(n, 1); a.fill(1); std::vector<bool> w; for (int i = 0; i < n; ++i) { w.push_back((m >> i) & 1); a.set(i, T((m >> i) & 1 ? 1 + i % 2 : 0)); }
      ibool1<1>(a.view(), w, 1); outside(a, "indexbool");
    }
    for (int n : {16, 17, 33, 64, 100}) for (int k : {1, 2, 3, 5, 7, 16, 31}) for (int o = 0; o < 2; ++o) if (mc::next())
    {
      mc::desc("indexbool %s, %d elements, every %d-th set from %d", P::name(), n, k, o ? k - 1 : 0); mc::nontrivial();
      P a(n, 1); a.fill(1); std::vector<bool> w; for (int i = 0; i < n; ++i) { w.push_back(i % k == (o ? k - 1 : 0)); a.set(i, T(w[i])); }
      ibool1<1>(a.view(), w, 1); outside(a, "indexbool");
    }
  }
};
template <typename P> struct IBool2
{
  static void go()
  {
    static int const s[][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {2, 4}, {3, 3}};
    for (int c = 0; c < tier(7, 8); ++c) EACH(1u << (s[c][0] * s[c][1])) if (mc::next())
    {
      int n = s[c][0] * s[c][1];
      mc::desc("indexbool %s, %dx%d, pattern %u", P::name(), s[c][0], s[c][1], m); mc::nontrivial();
      P a(s[c][0], s[c][1]); a.fill(1); std::vector<bool> w; for (int i = 0; i < n; ++i) { w.push_back((m >> i) & 1); a.set(i, T((m >> i) & 1)); }
      ibool1<2>(a.view(), w, s[c][1]); outside(a, "indexbool");
    }
    for (int m : {3, 8, 17}) for (int n : {2, 9, 16}) for (int k : {1, 2, 3, 5, 7, 16, 31}) if (mc::next())
    {
      mc::desc("indexbool %s, %dx%d, every %d-th set", P::name(), m, n, k); mc::nontrivial();
      P a(m, n); a.fill(1); std::vector<bool> w; for (int i = 0; i < m * n; ++i) { w.push_back((i + 1) % k == 0); a.set(i, T(w[i])); }
      ibool1<2>(a.view(), w, n); outside(a, "indexbool");
    }
  }
};
// boolean vectors and expressions as sources
static void ibool_bool()
{
  for (int n = 1; n <= 6; ++n) EACH(1u << n) if (mc::next())
  {
    mc::desc("indexbool of bool and of an expression, %d elements, pattern %u", n, m); mc::nontrivial();
    Vector<bool> b(n); Vector<T> a(n), z(n, T(2)); std::vector<bool> w; for (int i = 0; i < n; ++i) { w.push_back((m >> i) & 1); b.put(i, w[i]); a.put(i, T(w[i] ? 3 : 1)); }
    ibool1<1>(b, w, 1); ibool1<1>(a > z, w, 1);
  }
}
template <dimension_type D, typename P> static void gs_list(int n1, int n2, P &a, std::vector<long> const &p)
{
      int k = p.size();
      for (int part = 0; part < 2; ++part)
      {
        Idx<D> x(k, part); for (int i = 0; i < k; ++i) x.all.put(x.at(i), idx<D>(p[i], n1, n2));
        a.fill(1);
        auto run = [&](auto ix)
        {
          Vector<T> g = gather(a.view(), ix); mc::step();
          if ((int)g.size() != k) mc::fail("value", "gather returns %ld elements, expected %d", (long)g.size(), k);
          else for (int i = 0; i < k; ++i) if (!(g.get(i) == a.get(p[i]))) { mc::fail("value", "gather: element %d is %s, expected %s", i, mc::str(g.get(i)).c_str(), mc::str(a.get(p[i])).c_str()); break; }
          outside(a, "gather");
          for (int s = 0; s < 2; ++s)
          {
            strided src(k, 1); src.fill(5); for (int i = 0; i < k; ++i) src.set(i, T(40 + 3 * i));
            a.fill(1); if (s) scatter(src.view(), ix, a.view()); else { Vector<T> t(k); t = src.view(); scatter(t, ix, a.view()); } mc::step();
            // with an index named several times, the position holds one of its values
            for (int i = 0; i < k; ++i) { bool ok = false; for (int j = 0; j < k; ++j) if (p[j] == p[i] && a.get(p[i]) == src.get(j)) ok = true; if (!ok) { mc::fail("value", "scatter: position %ld holds %s", p[i], mc::str(a.get(p[i])).c_str()); break; } }
            for (int i = 0; i < k; ++i) a.accept(p[i]);
            outside(a, "scatter"); outside(src, "scatter");
          }
        };
        if (part) run(x.all(Domain<1>(1, 2, k))); else run(x.all(Domain<1>(k)));
      }
}
template <dimension_type D, typename P> static void gs(int n0, int n1, int n2, P &a, int N, char const *name)
{
  for (int k = 1; k <= (N <= 4 ? 3 : tier(2, 3)); ++k)
  {
    long total = 1; for (int i = 0; i < k; ++i) total *= N;
    for (long c = 0; c < total && N < 13; ++c) if (mc::next())
    {
      mc::desc("gather and scatter %s %dx%dx%d, %d indices, list %ld", name, n0, n1, n2, k, c); mc::nontrivial();
      std::vector<long> p; long q = c; for (int i = 0; i < k; ++i) { p.push_back(q % N); q /= N; }
      gs_list<D>(n1, n2, a, p);
    }
  }
  // long lists: progressions through the elements, with and without repetition
  for (int k : {N / 2, N - 1, N, N + 1, 3 * N}) for (int s : {1, 2, 5, 7, N - 1}) for (int o : {0, N / 3}) if (k > 3 && mc::next())
  {
    mc::desc("gather and scatter %s %dx%dx%d, %d indices from %d in steps of %d", name, n0, n1, n2, k, o, s); mc::nontrivial();
    std::vector<long> p; for (int i = 0; i < k; ++i) p.push_back((o + (long)i * s) % N);
    gs_list<D>(n1, n2, a, p);
  }
}
template <typename P> struct GS1 { static void go() { for (int n : {1, 2, 3, 4, 5, 17, 33}) { P a(n, 1); gs<1>(n, 1, 1, a, n, P::name()); } } };
template <typename P> struct GS2 { static void go() { static int const s[][2] = {{1, 3}, {2, 2}, {3, 2}, {2, 4}, {5, 7}, {9, 4}}; for (auto &x : s) { P a(x[0], x[1]); gs<2>(x[0], x[1], 1, a, x[0] * x[1], P::name()); } } };
template <typename O> struct GS3
{
  typedef Root<3, T, Layout<3, O, dense, array> > RT;
  struct P : Base<RT> { P(std::vector<int> v) : Base<RT>(v) { int N = v[0] * v[1] * v[2]; for (int i = 0; i < N; ++i) this->pos.push_back(i); } auto view() { return this->r.view(); } };
  static void go() { P a({2, 2, 3}); std::string n = "order " + ord<O>::str(3); gs<3>(2, 2, 3, a, 12, n.c_str()); P b({3, 5, 4}); gs<3>(3, 5, 4, b, 60, n.c_str()); }
};
static void ramps()
{
  static T const v[] = {T(0), T(1), T(-3), T(2.5), T(100)};
  std::vector<int> lens; for (int i = 1; i <= 17; ++i) lens.push_back(i); for (int i : {32, 33, 64, 100, 257, 1000}) lens.push_back(i);
  for (int len : lens) for (T a : v) for (T b : v) if (mc::next())
  {
    mc::desc("ramp(%s,%s,%d)", mc::str(a).c_str(), mc::str(b).c_str(), len); mc::nontrivial();
    auto r = ramp(a, b, len); if ((int)r.size() != len) mc::fail("value", "ramp has %ld elements", (long)r.size());
    strided d(len, 1); d.fill(1); d.view() = r; wholev e(len, 1); e.fill(2); e.view() = e.view() * T(2) - ramp(a, b, len); mc::step(2);
    wholev f(len, 1); f.fill(2);
    for (int i = 0; i < len; ++i) { T w = a + T(i) * b; if (!(r.get(i) == w)) mc::fail("value", "ramp element %d is %s, expected %s", i, mc::str(r.get(i)).c_str(), mc::str(w).c_str()); if (!cell(d, i, w, "ramp")) break; if (!cell(e, i, f.get(i) * T(2) - w, "expression of ramp")) break; }
    outside(d, "ramp"); outside(e, "ramp");
  }
}
// clip and invclip: v over an alphabet around the thresholds
template <typename P, typename Q> static void clips(P &p, Q &q, int n, T lo, T mid, T up, T c, T d)
{
  static T const al[] = {T(-3), T(-1), T(0), T(1), T(2), T(3), T(5)};
  auto load = [&] { p.fill(1); for (int i = 0; i < n; ++i) p.set(i, al[i % 7]); };
  auto cl = [&](T t) { return t <= lo ? c : t < up ? t : d; };
  auto ic = [&](T t) { return t < lo ? t : t < mid ? c : t <= up ? d : t; };
  load(); q.fill(2); q.view() = clip(p.view(), lo, up, c, d); mc::step(); for (int i = 0; i < n; ++i) if (!cell(q, i, cl(p.get(i)), "clip")) break;
  outside(q, "clip"); outside(p, "clip");
  q.fill(2); q.view() = invclip(p.view(), lo, mid, up, c, d); mc::step(); for (int i = 0; i < n; ++i) if (!cell(q, i, ic(p.get(i)), "invclip")) break;
  outside(q, "invclip"); outside(p, "invclip");
  q.fill(2); { std::vector<T> o; for (int i = 0; i < n; ++i) o.push_back(q.get(i)); q.view() = clip(p.view() + T(1), lo, up, c, d) + invclip(q.view(), lo, mid, up, c, d); mc::step(); for (int i = 0; i < n; ++i) if (!cell(q, i, cl(p.get(i) + T(1)) + ic(o[i]), "expression of clips")) break; }
  p.view() = clip(p.view(), lo, up, c, d); mc::step(); for (int i = 0; i < n; ++i) if (!cell(p, i, cl(al[i % 7]), "clip in place")) break;
  load(); p.view() = invclip(p.view(), lo, mid, up, c, d); mc::step(); for (int i = 0; i < n; ++i) if (!cell(p, i, ic(al[i % 7]), "invclip in place")) break;
  outside(p, "clip in place");
}
template <typename P, typename Q> static void clip_all(int n0, int n1)
{
  static T const t[] = {T(-1), T(0), T(2), T(3)}; static T const c[] = {T(-7), T(0), T(9)};
  for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) for (int k = j; k < 4; ++k) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (mc::next())
  {
    mc::desc("clip %s to %s, thresholds %s %s %s, values %s %s", P::name(), Q::name(), mc::str(t[i]).c_str(), mc::str(t[j]).c_str(), mc::str(t[k]).c_str(), mc::str(c[a]).c_str(), mc::str(c[b]).c_str()); mc::nontrivial();
    P p(n0, n1); Q q(n0, n1); clips(p, q, n0 * n1, t[i], t[j], t[k], c[a], c[b]);
    if (a == 1 || b == 1) { int m0 = n0 * 5 + 1, m1 = n1 == 1 ? 1 : n1 * 3; P e(m0, m1); Q f(m0, m1); clips(e, f, m0 * m1, t[i], t[j], t[k], c[a], c[b]); }
  }
}
template <typename P> struct Clip { static void go() { clip_all<P, wholev>(7, 1); clip_all<wholev, P>(7, 1); } };
template <typename P> struct Clip2 { static void go() { clip_all<P, mrow>(2, 4); clip_all<mcol, P>(2, 4); } };
static void select_all()
{
  each<First>(VL()); each<IBool>(VL()); each<IBool2>(ML()); ibool_bool(); each<GS1>(VL()); each<GS2>(ML());
  each<GS3>(list<tuple<0, 1, 2>, tuple<0, 2, 1>, tuple<1, 0, 2>, tuple<1, 2, 0>, tuple<2, 0, 1>, tuple<2, 1, 0> >());
  ramps(); each<Clip>(list<wholev, strided, revv, column>()); each<Clip2>(list<mrow, mtrans, msub, plane>());
}
#endif

#ifdef SWAPS
template <typename A, typename B, typename D> struct Swap_
{
  static void one(int m, int n)
  {
    if (!mc::next()) return;
    mc::desc("swap %s with %s, %dx%d", A::name(), D::name(), m, n); mc::nontrivial();
    A a(m, n); D d(m, n); a.fill(1); d.fill(2); std::vector<T> x, y; for (int l = 0; l < m * n; ++l) { x.push_back(a.get(l)); y.push_back(d.get(l)); }
    vsip::swap(a.view(), d.view()); mc::step();
    for (int l = 0; l < m * n; ++l) if (!cell(a, l, y[l], "swap, first") || !cell(d, l, x[l], "swap, second")) break;
    outside(a, "swap, first"); outside(d, "swap, second");
  }
  static void go();
};
template <typename A, typename B, typename D> void Swap_<A, B, D>::go()
{
#if SWAPS == 1
  for (int n = 1; n <= 9; ++n) one(n, 1);
  for (int n : {16, 17, 33, 64, 100, 257}) one(n, 1);
#else
  static int const s[][2] = {{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 5}, {8, 9}, {16, 17}, {33, 8}}; for (auto &x : s) one(x[0], x[1]);
#endif
}
// library blocks: dense, aligned, in each dimension order
template <typename LA, typename LB, dimension_type D> static void swap_blocks()
{
  static int const s[][3] = {{1, 1, 1}, {2, 3, 2}, {3, 2, 4}, {1, 4, 3}, {3, 3, 3}, {9, 8, 5}, {17, 33, 1}, {2, 5, 16}};
  for (auto &x : s) if (mc::next())
  {
    mc::desc("swap blocks order %s %s and order %s %s, %s", ord<typename LA::order_type>::str(D).c_str(), pack_name<LA::packing>().c_str(), ord<typename LB::order_type>::str(D).c_str(), pack_name<LB::packing>().c_str(), show(D, x).c_str()); mc::nontrivial();
    typedef Strided<D, T, LA> BA; typedef Strided<D, T, LB> BB;
    BA ba(dom<D>(x)); BB bb(dom<D>(x)); typename V<D>::template of<T, BA>::type a(ba); typename V<D>::template of<T, BB>::type b(bb);
    for (Iter i(D, x); i.more(); i.next()) { at<D>::put(a, i.i, val<T>::of(i.lin + 1)); at<D>::put(b, i.i, val<T>::of(-i.lin - 50)); }
    vsip::swap(a, b); mc::step();
    for (Iter i(D, x); i.more(); i.next()) if (!(at<D>::get(a, i.i) == val<T>::of(-i.lin - 50)) || !(at<D>::get(b, i.i) == val<T>::of(i.lin + 1))) { mc::fail("value", "swap: element %ld holds %s and %s", i.lin, mc::str(at<D>::get(a, i.i)).c_str(), mc::str(at<D>::get(b, i.i)).c_str()); break; }
  }
}
static void swaps()
{
#if SWAPS == 1
  loopD<Swap_>(VL(), VL(), list<wholev>());
#elif SWAPS == 2
  loopD<Swap_>(ML(), ML(), list<mrow>());
#else
  storage_format_type const F = FMT == 1 ? split_complex : array;
  swap_blocks<Layout<2, row2_type, dense, F>, Layout<2, col2_type, dense, F>, 2>(); swap_blocks<Layout<2, row2_type, aligned_16, F>, Layout<2, row2_type, dense, F>, 2>();
  swap_blocks<Layout<2, col2_type, aligned_32, F>, Layout<2, row2_type, aligned_8, F>, 2>(); swap_blocks<Layout<2, col2_type, aligned_32, array>, Layout<2, col2_type, aligned_32, F>, 2>();
  swap_blocks<Layout<3, tuple<0, 1, 2>, dense, F>, Layout<3, tuple<2, 0, 1>, aligned_8, F>, 3>(); swap_blocks<Layout<3, tuple<1, 0, 2>, dense, F>, Layout<3, tuple<1, 0, 2>, dense, array>, 3>();
#endif
}
#endif

#ifdef FREQSWAP
static int from(int i, int n) { return (i + (n + 1) / 2) % n; }
template <typename A, typename B, typename D> struct Freq
{
  static void one(int m, int n, bool two)
  {
    if (!mc::next()) return;
    mc::desc("freqswap %s to %s, %dx%d", A::name(), D::name(), m, n); mc::nontrivial();
    A a(m, n); D d(m, n); a.fill(1); d.fill(2);
    auto src = [&](int l) { return two ? from(l / n, m) * n + from(l % n, n) : from(l, m); };
    d.view() = freqswap(a.view()); mc::step(); for (int l = 0; l < m * n; ++l) if (!cell(d, l, a.get(src(l)), "freqswap")) break;
    outside(d, "freqswap"); outside(a, "freqswap operand");
    d.fill(2); { std::vector<T> o; for (int l = 0; l < m * n; ++l) o.push_back(d.get(l)); d.view() = freqswap(a.view()) * T(2) + d.view(); mc::step(); for (int l = 0; l < m * n; ++l) if (!cell(d, l, a.get(src(l)) * T(2) + o[l], "expression of freqswap")) break; outside(d, "expression of freqswap"); }
    d.fill(2); d.view() = freqswap(a.view() + T(1)); mc::step(); for (int l = 0; l < m * n; ++l) if (!cell(d, l, a.get(src(l)) + T(1), "freqswap of an expression")) break;
    { std::vector<T> o; a.fill(3); for (int l = 0; l < m * n; ++l) o.push_back(a.get(l)); a.view() = freqswap(a.view()); mc::step(); for (int l = 0; l < m * n; ++l) if (!cell(a, l, o[src(l)], "freqswap in place")) break; outside(a, "freqswap in place"); }
    { std::vector<T> o; a.fill(3); for (int l = 0; l < m * n; ++l) o.push_back(a.get(l)); auto v = a.view(); v = freqswap(v); mc::step(); for (int l = 0; l < m * n; ++l) if (!cell(a, l, o[src(l)], "freqswap of a view in place")) break; outside(a, "freqswap in place"); }
    axis(a, d, m, n, std::integral_constant<bool, FREQSWAP == 2>());
  }
  static void axis(A &, D &, int, int, std::false_type) {}
  static void axis(A &a, D &d, int m, int n, std::true_type)
  {
    a.fill(1); d.fill(2); ovxx::signal::freqswap<vsip::row>(a.view(), d.view()); mc::step(); for (int l = 0; l < m * n; ++l) if (!cell(d, l, a.get(l / n * n + from(l % n, n)), "freqswap of rows")) break;
    outside(d, "freqswap of rows");
    d.fill(2); ovxx::signal::freqswap<vsip::col>(a.view(), d.view()); mc::step(); for (int l = 0; l < m * n; ++l) if (!cell(d, l, a.get(from(l / n, m) * n + l % n), "freqswap of columns")) break;
    outside(d, "freqswap of columns");
  }
  static void go()
  {
#if FREQSWAP == 1
    for (int n = 1; n <= tier(12, 20); ++n) one(n, 1, false);
    for (int n : {16, 17, 32, 33, 64, 65, 100, 257}) one(n, 1, false);
#else
    int k = tier(5, 6); for (int m = 1; m <= k; ++m) for (int n = 1; n <= k; ++n) one(m, n, true);
    static int const s[][2] = {{8, 9}, {16, 17}, {17, 16}, {33, 8}, {1, 64}, {65, 2}}; for (auto &x : s) one(x[0], x[1], true);
#endif
  }
};
static void freqswaps()
{
#if FREQSWAP == 1
  loopD<Freq>(list<wholev, strided, revv, column>(), VL(), list<wholev>());
#else
  loopD<Freq>(list<mrow, mcol, msub>(), ML(), list<mrow>());
#endif
}
#endif

#ifdef HISTO
// positions are taken off the boundaries of interior bins for floating-point types
static int bin(T min, T max, int num, T v)
{
  if (v < min) return 0;
  if (v >= max) return num - 1;
  return (int)std::floor((double(v) - double(min)) * (num - 2) / (double(max) - double(min)) + (std::is_integral<T>::value ? 0 : 1e-9)) + 1;
}
static std::vector<T> values(T min, T max, int num)
{
  std::vector<T> o = {T(min - 1), min, max, T(max + 3)}; double w = (double(max) - double(min)) / (num - 2);
  for (int b = 0; b < num - 2; ++b)
    if (std::is_integral<T>::value) { double x = double(min) + w * b; for (int k : {0, 1}) { T v = T(std::ceil(x) + k); if (v > min && v < max && (o.empty() || o.back() != v)) o.push_back(v); } }
    else if (b < 2 || b == num - 3) o.push_back(T(double(min) + w * (b + 0.5)));
  return o;
}
static std::vector<T> lims() { if (std::is_integral<T>::value) return {T(0), T(2), T(-4), T(7), T(11), T(100)}; return {T(0), T(2), T(-4.5), T(6.25), T(100)}; }
template <template <typename, typename> class V, typename P, typename F> static void hist_run(T min, T max, int num, P &p, int N, F shape)
{
  std::vector<T> al = values(min, max, num);
  // histories of calls: accumulate or not, each over data rotating through the alphabet
  for (int h = 0; h < 8; ++h)
  {
    Histogram<V, T> H(min, max, num); std::vector<int> w(num, 0);
    for (int k = 0; k < 3; ++k)
    {
      bool acc = (h >> k) & 1; if (!acc) std::fill(w.begin(), w.end(), 0);
      p.fill(k); for (int i = 0; i < N; ++i) { T v = al[(i * (k + 1) + k + h) % al.size()]; p.set(i, v); ++w[bin(min, max, num, v)]; }
      auto r = H(shape(p), acc); mc::step();
      if ((int)r.size() != num) { mc::fail("value", "histogram of %d bins has %ld", num, (long)r.size()); return; }
      for (int i = 0; i < num; ++i) if (r.get(i) != w[i]) { mc::fail("value", "histogram [%s,%s) in %d bins, call %d: bin %d holds %d, expected %d", mc::str(min).c_str(), mc::str(max).c_str(), num, k, i, (int)r.get(i), w[i]); return; }
      mc::outcome(w[num / 2] + w[0] * 100);
      outside(p, "histogram");
    }
  }
}
template <typename P> struct Hist1
{
  static void go()
  {
    std::vector<T> l = lims();
    for (T a : l) for (T b : l) if (a < b) for (int num = 3; num <= tier(9, 14); ++num) for (int n : {1, 7, 24, 129}) if (mc::next())
    { mc::desc("histogram %s, %d elements, [%s,%s) in %d bins", P::name(), n, mc::str(a).c_str(), mc::str(b).c_str(), num); mc::nontrivial(); P p(n, 1); hist_run<const_Vector>(a, b, num, p, n, [](P &q) { return q.view(); }); }
  }
};
template <typename P> struct Hist2
{
  static void go()
  {
    std::vector<T> l = lims();
    for (T a : l) for (T b : l) if (a < b) for (int num = 3; num <= tier(9, 14); ++num) if (mc::next())
    { mc::desc("histogram %s, 4x5, [%s,%s) in %d bins", P::name(), mc::str(a).c_str(), mc::str(b).c_str(), num); mc::nontrivial(); P p(4, 5); hist_run<const_Matrix>(a, b, num, p, 20, [](P &q) { return q.view(); }); }
  }
};
// every single value of the alphabet on its own
static void hist_single()
{
  std::vector<T> l = lims();
  for (T a : l) for (T b : l) if (a < b) for (int num = 3; num <= tier(9, 16); ++num) if (mc::next())
  {
    mc::desc("histogram of single values, [%s,%s) in %d bins", mc::str(a).c_str(), mc::str(b).c_str(), num); mc::nontrivial();
    std::vector<T> al = values(a, b, num); if (std::is_integral<T>::value) for (T v = a; v < b; ++v) al.push_back(v);
    for (T v : al)
    {
      Histogram<const_Vector, T> H(a, b, num); Vector<T> x(1, v); auto r = H(x); mc::step(); int w = bin(a, b, num, v);
      for (int i = 0; i < num; ++i) if (r.get(i) != (i == w)) { mc::fail("value", "histogram [%s,%s) in %d bins: %s is not counted in bin %d (bin %d holds %d)", mc::str(a).c_str(), mc::str(b).c_str(), num, mc::str(v).c_str(), w, i, (int)r.get(i)); break; }
    }
  }
}
#endif

#ifdef WINDOWS
static double const pi = 3.14159265358979323846;
static double i0(double x) { double s = 1, t = 1; for (int k = 1; k < 200; ++k) { t *= x * x / 4 / k / k; s += t; } return s; }
template <typename V> static void window(V const &v, int n, std::function<double(int)> f, double tol, char const *what)
{
  mc::step();
  if ((int)v.size() != n) { mc::fail("value", "%s of length %d has %ld elements", what, n, (long)v.size()); return; }
  for (int i = 0; i < n; ++i) { double g = v.get(i), w = f(i); mc::outcome(mc::hash(&g, sizeof g)); if (!(std::abs(g - w) <= tol)) { mc::fail("value", "%s(%d): element %d is %.9g, expected %.9g", what, n, i, g, w); return; } }
}
// the window whose transform is the Chebyshev polynomial (VSIPL definition)
static std::vector<double> chebyshev(int n, double ripple)
{
  typedef std::complex<double> Z;
  double dp = std::pow(10., -ripple / 20), df = std::acos(1 / std::cosh(std::acosh((1 + dp) / dp) / (n - 1.))) / pi, x0 = (3 - std::cos(2 * pi * df)) / (1 + std::cos(2 * pi * df));
  std::vector<Z> wf(n);
  for (int i = 0; i < n; ++i)
  {
    double f = double(i) / n, x = (x0 + 1) / 2 * std::cos(2 * pi * f) + (x0 - 1) / 2; Z w;
    if (std::abs(x) > 1) w = std::cosh((n - 1) / 2. * (std::log(Z(x) + std::sqrt(Z(x * x - 1))))); else w = std::cos((n - 1) / 2. * std::acos(x));
    w *= dp;
    if (n % 2 == 0) { w = w.real() * std::polar(1., -pi * f); if (i >= n / 2) w = -w; }
    wf[i] = w;
  }
  std::vector<double> wt(n), o(n);
  for (int k = 0; k < n; ++k) { Z s = 0; for (int i = 0; i < n; ++i) s += wf[i] * std::polar(1., -2 * pi * i * k / n); wt[k] = s.real(); }
  for (int k = 0; k < n; ++k) o[k] = wt[(k + (n + 1) / 2) % n] / wt[0];
  return o;
}
static void windows()
{
  int N = tier(80, 200);
  for (int n = 2; n <= N; ++n) if (mc::next())
  {
    mc::desc("windows of length %d", n); mc::nontrivial();
    auto bl = [n](int i) { return 0.42 - 0.5 * std::cos(2 * pi * i / (n - 1)) + 0.08 * std::cos(4 * pi * i / (n - 1)); };
    auto ha = [n](int i) { return 0.5 * (1 - std::cos(2 * pi * (i + 1) / (n + 1))); };
    window(vsip::blackman(n), n, bl, 2e-5, "blackman"); window(ovxx::signal::blackman<double>(n), n, bl, 1e-12, "blackman<double>");
    window(vsip::hanning(n), n, ha, 2e-5, "hanning"); window(ovxx::signal::hanning<double>(n), n, ha, 1e-12, "hanning<double>");
    for (double b : {0., 0.5, 1., 2.9, 3., 3.1, 4., 5.5, 8., 12.})
    {
      auto ka = [n, b](int i) { double c = 2. * i / (n - 1) - 1; if (c > 1) c = 1; return i0(b * std::sqrt(1 - c * c)) / i0(b); };
      char w[40]; snprintf(w, sizeof w, "kaiser beta %g", b);
      window(vsip::kaiser(n, b), n, ka, 1e-4, w); window(ovxx::signal::kaiser<double>(n, b), n, ka, 8e-5, w);
    }
    for (double r : {20., 40., 60., 100.})
    {
      std::vector<double> c = chebyshev(n, r); auto ch = [&](int i) { return c[i]; };
      char w[40]; snprintf(w, sizeof w, "cheby ripple %g", r);
      window(vsip::cheby(n, r), n, ch, 3e-3, w); window(ovxx::signal::cheby<double>(n, r), n, ch, 2e-4, w);
    }
  }
}
#endif
static void cases()
{
#if defined SELECT
  select_all();
#elif defined SWAPS
  swaps();
#elif defined FREQSWAP
  freqswaps();
#elif defined HISTO
  each<Hist1>(list<wholev, strided, revv, column, diagonal, tensorline>()); each<Hist2>(ML()); hist_single();
#elif defined WINDOWS
  windows();
#endif
}
int main(int argc, char **argv) { init(); return mc::run(argc, argv, cases); }
