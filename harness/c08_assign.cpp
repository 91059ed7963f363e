// C08: assignment between views of every pair of layouts, placements and element types.
#include "seq.hpp"
using namespace seq;
typedef Layout<D_, ORDER1, PACK1, FORMAT1> L1;
typedef Layout<D_, ORDER2, PACK2, FORMAT2> L2;
#ifdef DENSE1
typedef Root<D_, ET1, L1, Dense<D_, ET1, ORDER1> > R1;
#else
typedef Root<D_, ET1, L1> R1;
#endif
#ifdef DENSE2
typedef Root<D_, ET2, L2, Dense<D_, ET2, ORDER2> > R2;
#else
typedef Root<D_, ET2, L2> R2;
#endif

struct Pl { int n, f, s; };   // size of the root, first, stride
static std::vector<Pl> places(int n, int level)
{
  std::vector<Pl> o;
  o.push_back(Pl{n, 0, 1});
  o.push_back(Pl{n + 1, 1, 1});
  o.push_back(Pl{2 * n, 2 * n - 1, -2});
  if (level > 0) { o.push_back(Pl{n, n - 1, -1}); o.push_back(Pl{2 * n - 1, 0, 2}); }
  if (level > 1) { o.push_back(Pl{n + 2, 1, 1}); o.push_back(Pl{3 * n, 1, 3}); }
  return o;
}
struct Ids { std::vector<int> ids; int c; std::string s; };

// all ways to see `target` elements in a root of type RT: f(root, view, ids)
template <typename RT, dimension_type D> struct Views;

template <typename F, typename RT, typename X, typename M> void give(F &f, RT &r, X v, int D, int const *n, M m, std::string const &s, int c = -1)
{
  Ids ids; ids.c = c; ids.s = s;
  for (Iter i(D, n); i.more(); i.next())
  {
    int o[3] = {0, 0, 0}; m(i.i, o);
    long l = 0; for (unsigned k = 0; k < RT::D; ++k) l = l * r.n[k] + o[k];
    ids.ids.push_back(l);
  }
  f(r, v, ids);
}
template <bool B> struct If { template <typename... A> static void give(A &&...) {} };
template <> struct If<true> { template <typename F, typename RT, typename X, typename M> static void give(F &f, RT &r, X v, int D, int const *n, M m, std::string const &s) { ::give(f, r, v, D, n, m, s); } };
static std::string pls(Pl const *p, int D)
{ std::string s = "sub"; for (int d = 0; d < D; ++d) s += " " + std::to_string(p[d].f) + ":" + std::to_string(p[d].s); return s; }

#if D_ == 1
template <typename F, typename RT> void parts(F &f, RT &r, int const *n, std::false_type) {}
#ifdef PARTS
template <typename F, typename RT> void parts(F &f, RT &r, int const *n, std::true_type)
{
  auto id = [](int const *i, int *o) { o[0] = i[0]; };
  auto rv = [=](int const *i, int *o) { o[0] = n[0] - 1 - i[0]; };
  give(f, r, r.view().real(), 1, n, id, "real", 0);
  give(f, r, r.view().imag(), 1, n, id, "imag", 1);
  give(f, r, r.view()(Domain<1>(n[0] - 1, -1, n[0])).imag(), 1, n, rv, "reverse imag", 1);
}
#endif
template <typename RT, bool P, typename F> void views(int const *n, int level, F f)
{
  for (Pl p : places(n[0], level + 1))
  {
    RT r(&p.n);
    auto at = [=](int const *i, int *o) { o[0] = p.f + p.s * i[0]; };
    if (p.n == n[0] && p.s == 1) { If<!P>::give(f, r, r.view(), 1, n, at, "whole"); parts(f, r, n, std::integral_constant<bool, P>()); }
    If<!P>::give(f, r, r.view()(Domain<1>(p.f, p.s, n[0])), 1, n, at, pls(&p, 1));
  }
}
#elif D_ == 2
template <typename F, typename RT> void parts(F &f, RT &r, int const *n, std::false_type) {}
#ifdef PARTS
template <typename F, typename RT> void parts(F &f, RT &r, int const *n, std::true_type)
{
  auto id = [](int const *i, int *o) { o[0] = i[0]; o[1] = i[1]; };
  give(f, r, r.view().real(), 2, n, id, "real", 0);
  give(f, r, r.view().imag(), 2, n, id, "imag", 1);
}
#endif
template <typename RT, bool P, typename F> void views(int const *n, int level, F f)
{
#if TDIM == 1
  // rows, columns and diagonals as vectors
  for (Pl p : places(n[0], level))
    for (int k = 1; k < 3; ++k)
    {
      int a[] = {k, p.n}, b[] = {p.n, k};
      RT r(a), q(b);
      give(f, r, r.view().row(k - 1)(Domain<1>(p.f, p.s, n[0])), 1, n, [=](int const *i, int *o) { o[0] = k - 1; o[1] = p.f + p.s * i[0]; }, "row");
      give(f, q, q.view().col(k - 1)(Domain<1>(p.f, p.s, n[0])), 1, n, [=](int const *i, int *o) { o[1] = k - 1; o[0] = p.f + p.s * i[0]; }, "column");
      if (p.f == 0 && p.s == 1)
      {
        int c[] = {n[0] + k - 1, n[0]}, d[] = {n[0], n[0] + 1};
        RT s(c), t(d);
        give(f, r, r.view().row(k - 1), 1, n, [=](int const *i, int *o) { o[0] = k - 1; o[1] = i[0]; }, "whole row");
        give(f, q, q.view().col(k - 1), 1, n, [=](int const *i, int *o) { o[1] = k - 1; o[0] = i[0]; }, "whole column");
        give(f, q, q.view().transpose().row(k - 1), 1, n, [=](int const *i, int *o) { o[1] = k - 1; o[0] = i[0]; }, "row of the transpose");
        give(f, s, s.view().diag(0), 1, n, [=](int const *i, int *o) { o[0] = o[1] = i[0]; }, "diagonal");
        give(f, t, t.view().diag(k - 1), 1, n, [=](int const *i, int *o) { o[0] = i[0]; o[1] = i[0] + k - 1; }, "diagonal");
      }
    }
#else
  for (Pl p : places(n[0], level))
    for (Pl q : places(n[1], level))
    {
      int a[] = {p.n, q.n}, b[] = {q.n, p.n};
      RT r(a), t(b);
      Pl pq[] = {p, q};
      auto at = [=](int const *i, int *o) { o[0] = p.f + p.s * i[0]; o[1] = q.f + q.s * i[1]; };
      auto ta = [=](int const *i, int *o) { o[1] = p.f + p.s * i[0]; o[0] = q.f + q.s * i[1]; };
      bool whole = p.n == n[0] && p.s == 1 && q.n == n[1] && q.s == 1;
      if (whole)
      {
        { If<!P>::give(f, r, r.view(), 2, n, at, "whole"); If<!P>::give(f, t, t.view().transpose(), 2, n, ta, "transpose"); }
        parts(f, r, n, std::integral_constant<bool, P>());
      }
      {
        If<!P>::give(f, r, r.view()(Domain<2>(Domain<1>(p.f, p.s, n[0]), Domain<1>(q.f, q.s, n[1]))), 2, n, at, pls(pq, 2));
        If<!P>::give(f, t, t.view().transpose()(Domain<2>(Domain<1>(p.f, p.s, n[0]), Domain<1>(q.f, q.s, n[1]))), 2, n, ta, "transpose " + pls(pq, 2));
      }
    }
#endif
}
#else
template <typename RT, bool P, typename F> void views(int const *n, int level, F f)
{
  std::vector<Pl> p0 = places(n[0], 0), p1 = places(n[1], 0), p2 = places(n[2], 0);
  for (size_t x = 0; x < 9; ++x)
  {
    // a covering selection of placements: every pair of dimensions sees every combination
    Pl p = p0[x % 3], q = p1[x / 3], s = p2[(x + x / 3) % 3];
    int a[] = {p.n, q.n, s.n};
    RT r(a);
    Pl pqs[] = {p, q, s};
    auto at = [=](int const *i, int *o) { o[0] = p.f + p.s * i[0]; o[1] = q.f + q.s * i[1]; o[2] = s.f + s.s * i[2]; };
    if (x == 0)
    {
      give(f, r, r.view(), 3, n, at, "whole");
#ifdef PERM
      int b[] = {n[2], n[0], n[1]};
      RT t(b);
      give(f, t, t.view().template transpose<1, 2, 0>(), 3, n, [=](int const *i, int *o) { o[0] = i[2]; o[1] = i[0]; o[2] = i[1]; }, "permuted");
#endif
    }
    give(f, r, r.view()(Domain<3>(Domain<1>(p.f, p.s, n[0]), Domain<1>(q.f, q.s, n[1]), Domain<1>(s.f, s.s, n[2]))), 3, n, at, pls(pqs, 3));
  }
}
#endif
#ifndef TDIM
#define TDIM D_
#endif

// what arrives in the destination
template <typename T1, typename T2> struct conv { static T1 of(T2 v) { return T1(v); } };

template <typename RT, typename U> struct Acc
{
  static U get(RT &r, Ids const &d, long k) { return get(r, d, k, std::integral_constant<bool, std::is_same<U, typename RT::value_type>::value>()); }
  static void set(RT &r, Ids const &d, long k, U v) { set(r, d, k, v, std::integral_constant<bool, std::is_same<U, typename RT::value_type>::value>()); }
  static U get(RT &r, Ids const &d, long k, std::true_type) { return r.expect(d.ids[k]); }
  static U get(RT &r, Ids const &d, long k, std::false_type) { return r.expc(d.ids[k], d.c); }
  static void set(RT &r, Ids const &d, long k, U v, std::true_type) { r.set(d.ids[k], v); }
  static void set(RT &r, Ids const &d, long k, U v, std::false_type) { r.setc(d.ids[k], d.c, v); }
};

#ifndef PART1
#define PART1 false
#endif
#ifndef PART2
#define PART2 false
#endif

template <typename Q1, typename X1, typename Q2, typename X2>
void pair(Q1 &r1, X1 v1, Ids const &i1, Q2 &r2, X2 v2, Ids const &i2, int const *n)
{
  typedef typename X1::value_type U1; typedef typename X2::value_type U2;
  mc::desc("%s %s (%s) = %s %s (%s), %s elements", Q1::name().c_str(), show(D_, r1.n).c_str(), i1.s.c_str(), Q2::name().c_str(), show(D_, r2.n).c_str(), i2.s.c_str(), show(TDIM, n).c_str());
  long tot = i1.ids.size();
  if (tot > 1) mc::nontrivial();
  mc::state(mc::mix(mc::hash(&i1.ids[0], tot * sizeof(int)), mc::hash(&i2.ids[0], tot * sizeof(int))));
  for (int round = 0; round < 2; ++round)
  {
    r1.reset(100); r2.reset(round ? 57 : 0);
    if (round) { typename ovxx::view_of<typename X2::block_type>::const_type c2(v2); v1 = c2; }
    else v1 = v2;
    for (long k = 0; k < tot; ++k) Acc<Q1, U1>::set(r1, i1, k, conv<U1, U2>::of(Acc<Q2, U2>::get(r2, i2, k)));
    mc::step();
    if (!r1.check("assign", "the destination") || !r2.check("source", "the source")) return;
  }
  mc::outcome(r1.hash());
}
template <typename Q1, typename X1> void single(Q1 &r1, X1 v1, Ids const &i1, int const *n)
{
  typedef typename X1::value_type U1;
  mc::desc("%s %s (%s), %s elements: scalar and self-assignment", Q1::name().c_str(), show(D_, r1.n).c_str(), i1.s.c_str(), show(TDIM, n).c_str());
  long tot = i1.ids.size();
  r1.reset();
  U1 s = val<U1>::of(77);
  v1 = s;
  for (long k = 0; k < tot; ++k) Acc<Q1, U1>::set(r1, i1, k, s);
  if (!r1.check("scalar", "after assigning a scalar")) return;
  r1.reset(5);
  X1 w(v1);
  v1 = v1; v1 = w;
  r1.check("self", "after self-assignment");
  mc::step(3);
}
#if TDIM == 2
template <typename X> auto tr(X v) -> decltype(v.transpose()) { return v.transpose(); }
template <typename Q1, typename X1> void square(Q1 &r1, X1 v1, Ids const &i1, int const *n)
{
  typedef typename X1::value_type U1;
  mc::desc("%s %s (%s), %s elements: in-place transpose", Q1::name().c_str(), show(D_, r1.n).c_str(), i1.s.c_str(), show(TDIM, n).c_str());
  r1.reset(3);
  std::vector<U1> old; for (size_t k = 0; k < i1.ids.size(); ++k) old.push_back(Acc<Q1, U1>::get(r1, i1, k));
  v1 = tr(v1);
  for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[0]; ++j) Acc<Q1, U1>::set(r1, i1, i * n[0] + j, old[j * n[0] + i]);
  r1.check("inplace", "after transposing in place");
  mc::step();
}
#endif

static void enumerate()
{
  init();
  int lim = TDIM == 1 ? mc::tier(6, 10) : TDIM == 2 ? mc::tier(4, 5) : mc::tier(3, 3);
  int m[3] = {lim, TDIM > 1 ? lim : 1, TDIM > 2 ? lim : 1};
  int level = mc::tier(1, 2);
  auto shape = [&](int const *n, int level, int level2)
  {
    views<R1, PART1>(n, level, [&](auto &r1, auto v1, Ids const &i1)
    {
#ifdef SINGLE
      if (mc::next()) single(r1, v1, i1, n);
#if TDIM == 2
      if (n[0] == n[1] && mc::next()) square(r1, v1, i1, n);
#endif
#else
      views<R2, PART2>(n, level2, [&](auto &r2, auto v2, Ids const &i2)
      {
        if (mc::next()) pair(r1, v1, i1, r2, v2, i2, n);
      });
#endif
    });
  };
  for (Iter it(3, m); it.more(); it.next())
  {
    int n[3] = {it.i[0] + 1, it.i[1] + 1, it.i[2] + 1};
    if (TDIM == 3 && !mc::thorough() && (n[0] + n[1] + n[2]) % 2 == 1 && n[0] * n[1] * n[2] > 3) continue;
    shape(n, level, TDIM == 1 ? level : level - 1);
  }
  // larger shapes
  static int const l1[][3] = {{16, 1, 1}, {17, 1, 1}, {33, 1, 1}, {100, 1, 1}, {1025, 1, 1}}, l2[][3] = {{1, 17, 1}, {17, 1, 1}, {8, 9, 1}, {16, 16, 1}, {17, 33, 1}, {65, 5, 1}}, l3[][3] = {{4, 5, 6}, {9, 2, 8}, {1, 17, 3}};
  for (int k = 0; k < (TDIM == 1 ? 5 : TDIM == 2 ? 6 : 3); ++k) shape(TDIM == 1 ? l1[k] : TDIM == 2 ? l2[k] : l3[k], mc::tier(0, 1), 0);
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
