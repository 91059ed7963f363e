// C10: every reduction of every view over every value pattern of a small alphabet.
#include "seq.hpp"
using namespace seq;
typedef ET T;
typedef cplx<T>::real R;
#ifndef ORDER
#define ORDER row1_type
#endif
typedef Root<D_, T, Layout<D_, ORDER, PACK, FORMAT> > RR;
static double const tol = sizeof(R) == 8 ? 1e-12 : 2e-6;

template <typename U> struct alphabet { static std::vector<U> get() { return {U(2), U(-3), U(0), U(0.5)}; } };
template <> struct alphabet<int> { static std::vector<int> get() { return {6, -1, 0, 9}; } };
template <> struct alphabet<unsigned> { static std::vector<unsigned> get() { return {6, 4294967295u, 0, 9}; } };
template <> struct alphabet<bool> { static std::vector<bool> get() { return {true, false}; } };
template <typename U> struct alphabet<std::complex<U> >
{ static std::vector<std::complex<U> > get() { return {std::complex<U>(3, -4), std::complex<U>(0, 1), std::complex<U>(-2, 0), std::complex<U>(-1.5, 2)}; } };

static double num(double x) { return x; }
static std::complex<double> num(std::complex<float> x) { return x; }
static std::complex<double> num(std::complex<double> x) { return x; }
template <typename A, typename B> static void near(A got, B want, char const *what)
{
  mc::step(); mc::outcome(mc::hash(&got, sizeof got));
  if (!(std::abs(num(got) - want) <= tol * (1 + std::abs(want)))) mc::fail("value", "%s is %s, expected %s", what, mc::str(got).c_str(), mc::str(want).c_str());
}
template <dimension_type D> static long linear(Index<D> const &i, std::vector<int> const &n, bool &ok)
{ long l = 0; for (dimension_type d = 0; d < D; ++d) { ok &= i[d] < (index_type)n[d]; l = l * n[d] + i[d]; } return l; }
// m: the measure of every element
template <typename W, typename F> static void extremum(W v, std::vector<int> const &n, std::vector<double> const &m, bool max, F f, char const *what)
{
  Index<W::dim> i; for (dimension_type d = 0; d < W::dim; ++d) i[d] = 12345;
  auto r = f(v, i);
  double best = m[0]; for (double x : m) best = max ? std::max(best, x) : std::min(best, x);
  near(r, best, what);
  bool ok = true; long l = linear(i, n, ok);
  if (!ok) { mc::fail("index", "%s: index (%ld,...) is outside the view", what, (long)i[0]); return; }
  if (!(std::abs(m[l] - best) <= tol * (1 + std::abs(best)))) mc::fail("index", "%s: element %ld (row-major), where the measure is %g, for the extremum %g", what, l, m[l], best);
}
#define EXT(fn, mx, meas) { std::vector<double> m; for (auto x : e) m.push_back(meas); extremum(v, n, m, mx, [](W w, Index<W::dim> &i) { return fn(w, i); }, #fn); }

template <typename W, typename U> static void kinds(W v, std::vector<int> const &n, std::vector<U> const &e, U)   // real
{
  EXT(maxval, true, (double)x) EXT(minval, false, (double)x)
  if (std::is_signed<U>::value) { EXT(maxmgval, true, std::abs((double)x)) EXT(minmgval, false, std::abs((double)x)) }
  double s = 0, q = 0; for (auto x : e) { s += x; q += (double)x * x; }
  if (std::is_same<U, unsigned>::value) return;
  near(sumval(v), s, "sumval"); near(sumsqval(v), q, "sumsqval");
  bool in = std::is_integral<U>::value;
  near(meanval(v), in ? double(long(s) / long(e.size())) : s / e.size(), "meanval"); near(meansqval(v), in ? double(long(q) / long(e.size())) : q / e.size(), "meansqval");
}
template <typename W, typename U> static void kinds(W v, std::vector<int> const &n, std::vector<std::complex<U> > const &e, std::complex<U>)
{
  EXT(maxmgval, true, std::abs(std::complex<double>(x))) EXT(minmgval, false, std::abs(std::complex<double>(x)))
  EXT(maxmgsqval, true, std::norm(std::complex<double>(x))) EXT(minmgsqval, false, std::norm(std::complex<double>(x)))
  std::complex<double> s = 0, q = 0; double a = 0; for (auto x : e) { std::complex<double> z = x; s += z; q += z * z; a += std::norm(z); }
  near(sumval(v), s, "sumval"); near(sumsqval(v), q, "sumsqval"); near(meanval(v), s / double(e.size()), "meanval"); near(meansqval(v), a / e.size(), "meansqval");
}
template <typename W> static void kinds(W v, std::vector<int> const &, std::vector<bool> const &e, bool)
{
  bool all = true, any = false; double s = 0; for (bool x : e) { all &= x; any |= x; s += x; }
  if (alltrue(v) != all) mc::fail("value", "alltrue is %d", !all);
  if (anytrue(v) != any) mc::fail("value", "anytrue is %d", !any);
  near(sumval(v), s, "sumval"); mc::step(2);
}
template <typename W, typename U> static void bits(W v, std::vector<U> const &e, std::true_type)
{
  U all = ~U(), any = 0; for (U x : e) { all &= x; any |= x; }
  if (alltrue(v) != all) mc::fail("value", "alltrue is %s, expected %s", mc::str(alltrue(v)).c_str(), mc::str(all).c_str());
  if (anytrue(v) != any) mc::fail("value", "anytrue is %s, expected %s", mc::str(anytrue(v)).c_str(), mc::str(any).c_str());
  mc::step(2);
}
template <typename W, typename U> static void bits(W, std::vector<U> const &, std::false_type) {}

template <typename W> static void reduce(W v, std::vector<int> const &n, std::vector<typename W::value_type> const &e)
{
  typedef typename W::value_type U;
  kinds(v, n, e, U());
  bits(v, e, std::integral_constant<bool, std::is_integral<U>::value && !std::is_same<U, bool>::value>());
}
// expression forms of a view
template <typename W, typename U> static void expressions(W v, std::vector<int> const &n, std::vector<U> const &e, U)
{
  std::vector<U> f; for (U x : e) f.push_back(x + x * U(2));
  reduce(v + v * U(2), n, f);
}
template <typename W, typename U> static void expressions(W v, std::vector<int> const &n, std::vector<std::complex<U> > const &e, std::complex<U>)
{
  typedef std::complex<U> C;
  std::vector<C> f; for (C x : e) f.push_back(x + x * C(0, 2));
  reduce(v + v * C(0, 2), n, f);
  std::vector<U> re, im; for (C x : e) { re.push_back(x.real()); im.push_back(x.imag()); }
#ifndef NOREIM
  reduce(v.real(), n, re); reduce(v.imag(), n, im);
#endif
  std::vector<U> m; for (C x : e) m.push_back(std::norm(x));
  reduce(magsq(v), n, m);
}
template <typename W> static void expressions(W v, std::vector<int> const &n, std::vector<bool> const &e, bool)
{
  std::vector<bool> f; for (bool x : e) f.push_back(!x);
  reduce(!v, n, f);
}
template <typename W> static void pattern(W v, std::vector<int> const &n, long p, std::vector<T> const &al)
{
  long k = 1; for (int x : n) k *= x;
  std::vector<T> e;
  int q[3] = {n[0], n.size() > 1 ? n[1] : 1, n.size() > 2 ? n[2] : 1};
  for (Iter i(W::dim, q); i.more(); i.next()) { T x = al[p % al.size()]; p /= al.size(); e.push_back(x); at<W::dim>::put(v, i.i, x); }
  uint64_t h = 1; for (auto x : e) h = mc::mix(h, (uint64_t)(1000 + 100 * mc::mag(x)));
  mc::state(h);
  reduce(v, n, e);
  expressions(v, n, e, T());
}
template <typename W> static void all(W v, char const *what, std::vector<int> n)
{
  std::vector<T> al = alphabet<T>::get();
  long k = 1; for (int x : n) k *= x;
  int const full = D_ == 1 ? mc::tier(6, 7) : mc::tier(4, 6);
  if (k <= full)
  {
    long total = 1; for (int i = 0; i < k; ++i) total *= al.size();
    for (long p = 0; p < total; ++p)
    {
      if (!mc::next()) continue;
      mc::desc("%s, %s of %s, pattern %ld", RR::name().c_str(), what, show(n.size(), &n[0]).c_str(), p);
      if (k > 1) mc::nontrivial();
      pattern(v, n, p, al);
    }
  }
  else
    // every pair of positions holding other values than the rest
    for (long a = 0; a < k; ++a) for (long b = 0; b <= a; ++b)
      for (size_t u = 0; u < al.size(); ++u) for (size_t w = 0; w < al.size(); ++w)
      {
        size_t x = (u + 1) % al.size();
        if (w == x || (a == b && w != u)) continue;
        if (!mc::next()) continue;
        mc::desc("%s, %s of %s, %s at %ld, %s at %ld, else %s", RR::name().c_str(), what, show(n.size(), &n[0]).c_str(), mc::str(al[u]).c_str(), a, mc::str(al[w]).c_str(), b, mc::str(al[x]).c_str());
        mc::nontrivial();
        std::vector<T> e(k, al[x]); e[b] = al[w]; e[a] = al[u];
        int q[3] = {n[0], n.size() > 1 ? n[1] : 1, n.size() > 2 ? n[2] : 1};
        for (Iter i(W::dim, q); i.more(); i.next()) at<W::dim>::put(v, i.i, e[i.lin]);
        reduce(v, n, e);
        expressions(v, n, e, T());
      }
}
static std::vector<int> dims(Domain<1> a) { return {(int)a.size()}; }
static std::vector<int> dims(Domain<1> a, Domain<1> b) { return {(int)a.size(), (int)b.size()}; }
static std::vector<int> dims(Domain<1> a, Domain<1> b, Domain<1> c) { return {(int)a.size(), (int)b.size(), (int)c.size()}; }

#if D_ == 1
static void enumerate()
{
  init();
  int M = mc::tier(6, 8);
  for (int n = 1; n <= M; ++n)
  {
    int s[3] = {n, 1, 1}; RR r(s); auto v = r.view();
    all(v, "whole", {n});
    for (auto d : domains(n, 2)) all(v(d), ("sub-domain " + show(d)).c_str(), dims(d));
  }
#ifdef LONG
  // sums of long vectors are accumulated in blocks
  for (int n : {4095, 4096, 4097, 4100, 8191, 8192, 8193, 12293})
    for (int pl = 0; pl < 4; ++pl)
      for (int m = 0; m < mc::tier(40, 400); ++m)
      {
        if (!mc::next()) continue;
        mc::desc("%s, %d elements, placement %d, nonzero from position %d", RR::name().c_str(), n, pl, m);
        mc::nontrivial();
        int s[3] = {2 * n + 1, 1, 1}; RR r(s); auto v = r.view();
        Domain<1> d = pl == 0 ? Domain<1>(n) : pl == 1 ? Domain<1>(1, 2, n) : pl == 2 ? Domain<1>(n, -1, n) : Domain<1>(2 * n, -2, n);
        auto w = v(d);
        v = T(5);
        std::vector<T> e(n, T());
        // a few elements around the block boundaries
        int pos[] = {0, n - 1, 4095 - m, 4096 + m, 8191 - m, 8192 + m, n / 2, (m * 131) % n};
        for (int i = 0; i < 8; ++i) if (pos[i] >= 0 && pos[i] < n) e[pos[i]] = alphabet<T>::get()[(i + m) % 4];
        for (int i = 0; i < n; ++i) w.put(i, e[i]);
        reduce(w, dims(d), e);
        if (m % 8 == 0) expressions(w, dims(d), e, T());
      }
#endif
}
#elif D_ == 2
static void enumerate()
{
  init();
  int M = mc::tier(4, 5);
  for (int a = 1; a <= M; ++a) for (int b = 1; b <= M; ++b)
  {
    int s[3] = {a, b, 1}; RR r(s); auto v = r.view();
    all(v, "whole", {a, b}); all(v.transpose(), "transpose", {b, a});
    for (int i = 0; i < a; ++i) all(v.row(i), "row", {b});
    for (int i = 0; i < b; ++i) all(v.col(i), "column", {a});
    all(v.diag(0), "diagonal", {std::min(a, b)});
    if (a < 3 || b < 3) continue;
    for (auto d : domains(a, 1)) for (auto e : domains(b, 1)) all(v(Domain<2>(d, e)), ("sub-domain " + show(d) + "," + show(e)).c_str(), dims(d, e));
  }
#ifdef LONG
  for (int m = 0; m < mc::tier(24, 200); ++m)
  {
    if (!mc::next()) continue;
    mc::desc("%s, lines of a long matrix, position %d", RR::name().c_str(), m);
    int s[3] = {4098, 3, 1}, t[3] = {3, 4101, 1}; RR r(s), q(t); auto v = r.view(); auto w = q.view();
    v = T(7); w = T(7);
    std::vector<T> e(4098, T()), f(4101, T());
    e[m * 170 % 4098] = alphabet<T>::get()[0]; e[4097] = alphabet<T>::get()[1]; f[m * 170 % 4101] = alphabet<T>::get()[1]; f[4096] = alphabet<T>::get()[0];
    for (int i = 0; i < 4098; ++i) v.put(i, 1, e[i]);
    for (int i = 0; i < 4101; ++i) w.put(1, i, f[i]);
    reduce(v.col(1), {4098}, e); reduce(w.row(1), {4101}, f);
    reduce(v.transpose().row(1), {4098}, e);
    expressions(v.col(1), {4098}, e, T());
  }
#endif
}
#else
static void enumerate()
{
  init();
  int M = mc::tier(3, 3);
  for (int a = 1; a <= M; ++a) for (int b = 1; b <= M; ++b) for (int c = 1; c <= M; ++c)
  {
    if (mc::tier(1, 0) && a * b * c > 12 && !(a == 3 && b == 2 && c == 3)) continue;
    int s[3] = {a, b, c}; RR r(s); auto v = r.view();
    all(v, "whole", {a, b, c});
    all(v.template transpose<1, 2, 0>(), "permutation 120", {b, c, a}); all(v.template transpose<2, 1, 0>(), "permutation 210", {c, b, a});
    if (a == 3 && b == 2) { all(v(0, whole_domain, whole_domain), "slice", {b, c}); all(v(whole_domain, 1, whole_domain), "slice", {a, c}); all(v(whole_domain, whole_domain, 0), "slice", {a, b}); }
    if (a * b * c == 12) { Domain<1> d(a - 1, -1, a), e(b), f(0, c > 2 ? 2 : 1, (c + 1) / 2); all(v(Domain<3>(d, e, f)), "sub-domain", dims(d, e, f)); }
  }
}
#endif
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
