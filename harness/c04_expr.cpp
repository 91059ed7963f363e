// C04: expressions over distributed operands, reductions, element access: equal to the serial result on every rank.
// D_ dimensions; PART selects the map types of destination and operands.
#include "par.hpp"
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include <vsip/complex.hpp>
#include <vsip/impl/fns_userelt.hpp>
#include <cmath>
using namespace par;
#ifndef ET
# define ET double
#endif
typedef ET T;
static bool const CPX = !std::is_same<T, ovxx::scalar_of<T>::type>::value;
typedef ovxx::scalar_of<T>::type R;

template <typename X> auto el(X &v, int const *i, std::integral_constant<int, 1>) -> decltype(v(0)) { return v(i[0]); }
template <typename X> auto el(X &v, int const *i, std::integral_constant<int, 2>) -> decltype(v(0, 0)) { return v(i[0], i[1]); }
template <typename X> auto el(X &v, int const *i, std::integral_constant<int, 3>) -> decltype(v(0, 0, 0)) { return v(i[0], i[1], i[2]); }
template <dimension_type D> std::vector<Shape<D> > shapes(bool thorough);
template <> std::vector<Shape<1> > shapes<1>(bool t)
{ std::vector<Shape<1> > v; for (int n : t ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 11, 17} : std::vector<int>{1, 3, 5, 8, 17}) v.push_back(Shape<1>{{n}}); return v; }
template <> std::vector<Shape<2> > shapes<2>(bool t)
{ std::vector<Shape<2> > v = {{{3, 4}}, {{5, 2}}}; if (t) { v.push_back({{4, 4}}); v.push_back({{1, 5}}); } return v; }
template <> std::vector<Shape<3> > shapes<3>(bool t)
{ std::vector<Shape<3> > v = {{{2, 3, 4}}}; if (t) { v.push_back({{1, 2, 3}}); v.push_back({{4, 1, 5}}); } return v; }

// values of the operands: small, distinct, not monotonous
template <typename U> struct opv { static U a(long i) { return U(((i * 5) % 11) - 3); } static U b(long i) { return U(((i * 7 + 3) % 13) - 4); } };
template <typename U> struct opv<std::complex<U> >
{ static std::complex<U> a(long i) { return std::complex<U>(opv<U>::a(i), opv<U>::b(i + 2)); } static std::complex<U> b(long i) { return std::complex<U>(opv<U>::b(i), opv<U>::a(i + 1)); } };
static T A(long i) { return opv<T>::a(i); }
static T B(long i) { return opv<T>::b(i); }
static bool close_(double x, double y) { return std::abs(x - y) <= 1e-4 * (1 + std::abs(y)); }
static bool close_(std::complex<double> x, std::complex<double> y) { return std::abs(x - y) <= 1e-4 * (1 + std::abs(y)); }
template <typename X> std::complex<double> wide(X x) { return std::complex<double>(x); }
template <typename X> std::complex<double> wide(std::complex<X> x) { return std::complex<double>(x.real(), x.imag()); }

template <typename V, typename F> void set(V &v, F f)
{ typename V::local_type lv = v.view.local(); v.each([&](long i, int *, int *l) { acc<typename V::local_type>::put(lv, l, f(i)); }); }
template <typename V, typename F> void expect(char const *key, V &v, F f)
{
  typename V::local_type lv = v.view.local(); bool ok = true; unsigned long long h = 1;
  v.each([&](long i, int *g, int *l)
  {
    auto got = acc<typename V::local_type>::get(lv, l); auto want = f(i);
    std::complex<double> w = wide(got); h = fk::hash(&w, sizeof w, h);
    if (ok && !close_(wide(got), wide(want)))
    {
      std::ostringstream o; o << "element"; for (size_t d = 0; d < sizeof v.sh.n / sizeof v.sh.n[0]; ++d) o << (d ? "," : " ") << g[d];
      o << " is " << got << ", expected " << want; fk::fail(key, "%s", o.str().c_str()); ok = false;
    }
  });
  fk::outcome(h);
}
template <typename X, typename Y> void same(char const *key, X got, Y want)
{ if (!close_(wide(got), wide(want))) { std::ostringstream o; o << got << " instead of " << want; fk::fail(key, "%s", o.str().c_str()); } }

template <dimension_type D, typename OD, typename MD, typename OA, typename MA, typename OB, typename MB>
struct Expr
{
  typedef DV<D, T, OD, MD> Dst;
  typedef DV<D, T, OA, MA> VA;
  typedef DV<D, T, OB, MB> VB;
  typedef DV<D, R, OD, MD> RDst;
  static T junk(long i) { return T(1000 + i); }
  static void two(Shape<D> sh, Spec ds, Spec as, Spec bs)
  {
    Dst d(sh, ds); VA a(sh, as); VB b(sh, bs);
    set(a, A); set(b, B);
    set(d, junk); d.view = a.view + b.view; expect("a+b", d, [](long i) { return A(i) + B(i); });
    set(d, junk); d.view = b.view * a.view - T(2); expect("b*a-2", d, [](long i) { return A(i) * B(i) - T(2); });
    set(d, junk); d.view = (a.view - b.view) * (a.view + b.view); expect("(a-b)*(a+b)", d, [](long i) { return (A(i) - B(i)) * (A(i) + B(i)); });
    set(d, junk); d.view += a.view * b.view; expect("+= a*b", d, [](long i) { return junk(i) + A(i) * B(i); });
    set(d, junk); d.view = d.view + a.view; expect("d+a", d, [](long i) { return junk(i) + A(i); });
    set(d, junk); d.view -= b.view; expect("-= b", d, [](long i) { return junk(i) - B(i); });
    expect("operand", a, A); expect("operand", b, B);
    same("sum of an expression", sumval(a.view * b.view), total(sh, [](long i) { return wide(A(i) * B(i)); }));
  }
  template <typename F> static std::complex<double> total(Shape<D> sh, F f) { std::complex<double> s; for (long i = 0; i < sh.total(); ++i) s += f(i); return s; }
  static void more(Shape<D> sh, Spec ds, Spec as, Spec bs)
  {
    Dst d(sh, ds); VA a(sh, as); VB b(sh, bs); RDst r(sh, ds);
    set(a, A); set(b, B);
    set(d, junk); d.view = ma(a.view, b.view, a.view); expect("ma(a,b,a)", d, [](long i) { return A(i) * B(i) + A(i); });
    set(d, junk); d.view = ma(a.view, a.view, b.view); expect("ma(a,a,b)", d, [](long i) { return A(i) * A(i) + B(i); });
    set(d, junk); d.view = am(b.view, a.view, a.view); expect("am(b,a,a)", d, [](long i) { return (B(i) + A(i)) * A(i); });
    set(d, junk); d.view = am(a.view, b.view, T(3)); expect("am(a,b,3)", d, [](long i) { return (A(i) + B(i)) * T(3); });
    set(r, [](long) { return R(77); }); r.view = magsq(a.view - b.view); expect("magsq(a-b)", r, [](long i) { return std::norm(A(i) - B(i)); });
    set(d, junk); d.view *= T(2) + b.view; expect("*= 2+b", d, [](long i) { return junk(i) * (T(2) + B(i)); });
    set(d, junk); d.view = vsip::unary(&f1, a.view); expect("user function of a", d, [](long i) { return f1(A(i)); });
    set(d, junk); d.view = vsip::binary(&f2, a.view, b.view); expect("user function of a, b", d, [](long i) { return f2(A(i), B(i)); });
    set(d, junk); d.view = vsip::ternary(&f3, b.view, a.view, b.view); expect("user function of b, a, b", d, [](long i) { return f3(B(i), A(i), B(i)); });
    set(d, junk); d.view = vsip::unary(&f1, -a.view) - b.view; expect("user function of -a, minus b", d, [](long i) { return f1(-A(i)) - B(i); });
    set(d, junk); d.view = -a.view * b.view; expect("-a*b", d, [](long i) { return -A(i) * B(i); });
    set(d, junk); d.view = a.view + sq(-sq(b.view)); expect("a+sq(-sq(b))", d, [](long i) { return A(i) + B(i) * B(i) * B(i) * B(i); });
    ordered(d, a, b, std::integral_constant<bool, CPX>());
  }
  static T f1(T x) { return T(3) * x - T(5); }
  static T f2(T x, T y) { return x - T(2) * y; }
  static T f3(T x, T y, T z) { return x * y - z; }
  template <typename Dst, typename VA, typename VB> static void ordered(Dst &d, VA &a, VB &b, std::false_type)
  {
    set(d, junk); d.view = max(a.view, b.view); expect("max(a,b)", d, [](long i) { return wide(A(i)).real() > wide(B(i)).real() ? A(i) : B(i); });
    set(d, junk); d.view = ite(a.view > b.view, a.view, b.view * T(2)); expect("ite(a>b,a,2b)", d, [](long i) { return wide(A(i)).real() > wide(B(i)).real() ? A(i) : B(i) * T(2); });
  }
  template <typename Dst, typename VA, typename VB> static void ordered(Dst &d, VA &a, VB &b, std::true_type)
  {
    set(d, junk); d.view = conj(a.view) * b.view; expect("conj(a)*b", d, [](long i) { return std::conj(wide(A(i))) * wide(B(i)); });
    set(d, junk); d.view = cmplx_(a.view, b.view); expect("cmplx(real(a),imag(b))", d, [](long i) { return std::complex<double>(wide(A(i)).real(), wide(B(i)).imag()); });
    set(d, junk); part_real(d.view) = real_(a.view) + imag_(b.view);
    expect("real(d)=real(a)+imag(b)", d, [](long i) { return std::complex<double>(wide(A(i)).real() + wide(B(i)).imag(), wide(junk(i)).imag()); });
  }
  template <typename X, typename Y> static auto cmplx_(X x, Y y) -> decltype(cmplx(x.real(), y.imag())) { return cmplx(x.real(), y.imag()); }
  template <typename X> static auto part_real(X x) -> decltype(x.real()) { return x.real(); }
  template <typename X> static auto real_(X x) -> decltype(x.real()) { return x.real(); }
  template <typename X> static auto imag_(X x) -> decltype(x.imag()) { return x.imag(); }
  // without or with one operand
  static void one(Shape<D> sh, Spec ds, Spec as)
  {
    Dst d(sh, ds); VA a(sh, as); RDst r(sh, ds);
    set(a, A);
    set(d, junk); d.view = -a.view; expect("-a", d, [](long i) { return -A(i); });
    set(d, junk); d.view = a.view; expect("a", d, A);
    set(d, junk); d.view = T(2) * a.view + T(1); expect("2*a+1", d, [](long i) { return T(2) * A(i) + T(1); });
    set(d, junk); d.view = sq(a.view); expect("sq(a)", d, [](long i) { return A(i) * A(i); });
    set(r, [](long) { return R(77); }); r.view = mag(a.view); expect("mag(a)", r, [](long i) { return std::abs(wide(A(i))); });
    set(d, junk); d.view = T(5); expect("scalar", d, [](long) { return T(5); });
    set(d, junk); d.view = a.view * a.view + a.view; expect("a*a+a", d, [](long i) { return A(i) * A(i) + A(i); });
    set(d, junk); a.view += d.view; expect("a += d", a, [](long i) { return A(i) + junk(i); });
  }
};
template <typename V, typename I> void extremum_(int which, V v, I &i, R &m, std::false_type)
{ if (which == 0) m = maxval(v, i); else if (which == 1) m = minval(v, i); else if (which == 2) m = maxmgval(v, i); else m = minmgval(v, i); }
template <typename V, typename I> void extremum_(int which, V v, I &i, R &m, std::true_type)
{ if (which == 0) m = maxmgsqval(v, i); else if (which == 1) m = minmgsqval(v, i); else if (which == 2) m = maxmgval(v, i); else m = minmgval(v, i); }
template <typename VA, typename I> void extremum(int which, VA &a, I &i, R &m) { extremum_(which, a.view, i, m, std::integral_constant<bool, CPX>()); }
static double key_(int which, std::complex<double> v) { return which < 2 ? (CPX ? std::norm(v) : v.real()) : std::abs(v); }
template <typename Sh> void check_ext(int which, R m, Sh sh, long at)
{
  double best = key_(which, wide(A(0))); for (long i = 1; i < sh.total(); ++i) { double k = key_(which, wide(A(i))); best = which % 2 ? std::min(best, k) : std::max(best, k); }
  static char const *n[] = {"maximum", "minimum", "maximum magnitude", "minimum magnitude"};
  if (!close_(double(m), best)) fk::fail("extremum", "the %s is %g instead of %g", n[which], double(m), best);
  if (at < 0 || at >= sh.total()) fk::fail("extremum index", "the index of the %s is not in the view", n[which]);
  else if (!close_(key_(which, wide(A(at))), best)) fk::fail("extremum index", "the element at the index of the %s is %g instead of %g", n[which], key_(which, wide(A(at))), best);
}
template <typename VA, typename Sh> void idx(VA &a, Sh sh, std::integral_constant<int, 1>, int which)
{
  Index<1> i; R m; long n = sh.total();
  extremum(which, a, i, m);
  check_ext(which, m, sh, long(i[0]));
}
template <typename VA, typename Sh> void idx(VA &a, Sh sh, std::integral_constant<int, 2>, int which)
{ Index<2> i; R m; extremum(which, a, i, m); int g[3] = {(int)i[0], (int)i[1], 0}; bool in = g[0] < sh.n[0] && g[1] < sh.n[1]; check_ext(which, m, sh, in ? sh.lin(g) : -1); }
template <typename VA, typename Sh> void idx(VA &a, Sh sh, std::integral_constant<int, 3>, int which)
{ Index<3> i; R m; extremum(which, a, i, m); int g[3] = {(int)i[0], (int)i[1], (int)i[2]}; bool in = g[0] < sh.n[0] && g[1] < sh.n[1] && g[2] < sh.n[2]; check_ext(which, m, sh, in ? sh.lin(g) : -1); }
template <dimension_type D, typename O, typename M> struct Reduce
{
  typedef DV<D, T, O, M> VA;
  static void run(Shape<D> sh, Spec as)
  {
    VA a(sh, as); set(a, A); long n = sh.total();
    std::complex<double> s, ss; double ms = 0; for (long i = 0; i < n; ++i) { s += wide(A(i)); ss += wide(A(i)) * wide(A(i)); ms += std::norm(wide(A(i))); }
    same("sumval", sumval(a.view), s);
    same("meanval", meanval(a.view), s / double(n));
    same("sumsqval", sumsqval(a.view), ss);
    same("meansqval", meansqval(a.view), ms / n);
    same("sumval of an expression", sumval(a.view * T(2) - T(1)), 2. * s - double(n));
    for (int w = 0; w < 4; ++w) idx(a, sh, std::integral_constant<int, D>(), w);
    // reductions take part in every rank's program in the same way: the same again
    same("sumval", sumval(a.view), s);
    expect("operand", a, A);
  }
  static void logical(Shape<D> sh, Spec as, int p, long from)
  {
    typedef DV<D, bool, O, M> VB; typedef DV<D, int, O, M> VI;
    long n = sh.total();
    for (long at = from; at < (p < 2 ? std::min(n, from + 6) : 1); ++at)
    {
      auto f = [=](long i) { return p == 0 ? i == at : p == 1 ? i != at : p == 2; };
      bool all = true, any = false; int cnt = 0; for (long i = 0; i < n; ++i) { all &= f(i); any |= f(i); cnt += f(i); }
      VB b(sh, as); set(b, f);
      if (alltrue(b.view) != all) fk::fail("alltrue", "alltrue of a boolean view is %d", !all);
      if (anytrue(b.view) != any) fk::fail("anytrue", "anytrue of a boolean view is %d", !any);
      if ((int)sumval(b.view) != cnt) fk::fail("sumval", "sumval of a boolean view is %d instead of %d", (int)sumval(b.view), cnt);
      VI k(sh, as); set(k, [=](long i) { return f(i) ? 7 : i % 2 ? 5 : 3; });
      int band = -1, bor = 0; for (long i = 0; i < n; ++i) { int x = f(i) ? 7 : i % 2 ? 5 : 3; band &= x; bor |= x; }
      if (alltrue(k.view) != band) fk::fail("alltrue", "alltrue of an integer view is %d instead of %d", (int)alltrue(k.view), band);
      if (anytrue(k.view) != bor) fk::fail("anytrue", "anytrue of an integer view is %d instead of %d", (int)anytrue(k.view), bor);
    }
  }
  static void elements(Shape<D> sh, Spec as)
  {
    VA a(sh, as); set(a, A);
    for (long i = 0; i < sh.total(); ++i) { int g[3] = {0, 0, 0}; sh.at(i, g); T x = acc<typename VA::view_type>::get(a.view, g); if (!(x == A(i))) { std::ostringstream o; o << "get of element " << i << " gives " << x << " instead of " << A(i); fk::fail("get", "%s", o.str().c_str()); break; } }
    for (long i = 0; i < sh.total(); ++i)
    {
      int g[3] = {0, 0, 0}; sh.at(i, g); acc<typename VA::view_type>::put(a.view, g, B(i) + T(1));
      T x = acc<typename VA::view_type>::get(a.view, g); if (!(x == B(i) + T(1))) { fk::fail("put", "element %ld does not hold what was put", i); break; }
      expect("put", a, [=](long k) { return k <= i ? B(k) + T(1) : A(k); });
    }
    // expressions with single elements: every rank reads them, their owners write them
    std::integral_constant<int, D> dim; long n = sh.total();
    for (long i = 0; i < n; ++i)
    {
      int g[3] = {0, 0, 0}, h[3] = {0, 0, 0}; long j = (i + n / 2) % n; sh.at(i, g); sh.at(j, h);
      set(a, A);
      el(a.view, g, dim) = el(a.view, h, dim); el(a.view, h, dim) += T(3); el(a.view, g, dim) *= el(a.view, h, dim);
      expect("elements", a, [=](long k) { T b = A(j) + T(3); return i == j && k == i ? b * b : k == i ? A(j) * b : k == j ? b : A(k); });
      if (!(el(a.view, h, dim) - el(a.view, g, dim) == (i == j ? T() : (A(j) + T(3)) - A(j) * (A(j) + T(3))))) fk::fail("elements", "the difference of elements %ld and %ld is wrong", j, i);
    }
  }
};

// Expressions over generators, sub-views, lines, transposes, and vector-matrix products.
template <typename VD, typename VA, typename VB> struct Lines
{
  static T junk(long i) { return T(1000 + i); }
  static void ramps(Shape<1> sh, Spec ds, Spec as)
  {
    VD d(sh, ds); VA a(sh, as); set(a, A); length_type n = sh.n[0];
    set(d, junk); d.view = ramp(T(3), T(2), n); expect("ramp", d, [](long i) { return T(3) + T(2) * T(i); });
    set(d, junk); d.view = a.view + ramp(T(3), T(-2), n); expect("a+ramp", d, [](long i) { return A(i) + T(3) - T(2) * T(i); });
    set(d, junk); d.view = -ramp(T(1), T(4), n) * a.view; expect("-ramp*a", d, [](long i) { return -(T(1) + T(4) * T(i)) * A(i); });
    set(d, junk); d.view += T(2) * ramp(T(1), T(1), n); expect("+= 2*ramp", d, [](long i) { return junk(i) + T(2) * T(1 + i); });
  }
  static void subviews(Shape<1> sh, Spec ds, Spec as, Spec bs)
  {
    VD d(sh, ds); VA a(sh, as); VB b(sh, bs); set(a, A); set(b, B); long n = sh.n[0];
    for (long len = 1; len <= n; ++len) for (long off = 0; off + len <= n; off += std::max(1l, (n - len + 1) / 2))
    {
      Domain<1> dm(off, 1, len), em(n - len, 1, len), fm(0, 1, len);
      set(d, junk); d.view(dm) = a.view(em) + b.view(fm) * T(2);
      expect("d(dom)=a(dom)+b(dom)*2", d, [=](long i) { return i >= off && i < off + len ? A(i - off + n - len) + B(i - off) * T(2) : junk(i); });
      same("sumval of a sub-view", sumval(a.view(dm)), part(off, len));
    }
  }
  static std::complex<double> part(long off, long len) { std::complex<double> s; for (long i = 0; i < len; ++i) s += wide(A(off + i)); return s; }
};
// vmmul<0>: v(j) * m(i,j); vmmul<1>: v(i) * m(i,j). Over the mappings it supports; others are refused.
template <dimension_type W, typename VD, typename VA, typename VV> struct Vm
{
  static T junk(long i) { return T(1000 + i); }
  static void run(Shape<2> sh, Spec ds, Spec as, Spec vs)
  {
    Shape<1> vl = {{sh.n[1 - W]}};
    VD d(sh, ds); VA a(sh, as); VV v(vl, vs); set(a, A); set(v, B); long C = sh.n[1];
    auto at = [=](long i) { return B(W == 0 ? i % C : i / C); };
    set(d, junk);
    d.view = vmmul<W>(v.view, a.view);
    expect("vmmul", d, [=](long i) { return at(i) * A(i); });
    set(d, junk); d.view = vmmul<W>(v.view * T(2), a.view); expect("vmmul(2*v,m)", d, [=](long i) { return at(i) * A(i) * T(2); });
    set(d, junk); d.view = -vmmul<W>(v.view, a.view + T(1)) + a.view; expect("-vmmul(v,m+1)+m", d, [=](long i) { return -at(i) * (A(i) + T(1)) + A(i); });
    expect("operand", a, A); expect("operand", v, B);
  }
  // a vector distributed over the same number of processors in another order
  static void elsewhere(Shape<2> sh, Spec ds, Spec vs)
  {
    Shape<1> vl = {{sh.n[1 - W]}};
    VD d(sh, ds); VA a(sh, ds); VV v(vl, vs); set(a, A); set(v, B); long C = sh.n[1];
    set(d, junk);
    d.view = vmmul<W>(v.view, a.view);
    expect("vmmul-elsewhere", d, [=](long i) { return B(W == 0 ? i % C : i / C) * A(i); });
  }
};
template <typename VD, typename VA, typename VB> struct Planes
{
  static T junk(long i) { return T(1000 + i); }
  static void lines(Shape<2> sh, Spec ds, Spec as, Spec bs)
  {
    VD d(sh, ds); VA a(sh, as); VB b(sh, bs); set(a, A); set(b, B); long R = sh.n[0], C = sh.n[1];
    for (long r = 0; r < R; ++r)
    {
      set(d, junk); d.view.row(r) = a.view.row(R - 1 - r) + b.view.row(0) * T(2);
      expect("row=row+row*2", d, [=](long i) { return i / C == r ? A((R - 1 - r) * C + i % C) + B(i % C) * T(2) : junk(i); });
    }
    for (long c = 0; c < C; ++c)
    {
      set(d, junk); d.view.col(c) = a.view.col(C - 1 - c) - b.view.col(0);
      expect("col=col-col", d, [=](long i) { return i % C == c ? A(i - c + C - 1 - c) - B(i - c) : junk(i); });
    }
    set(d, junk); d.view.row(0) = a.view.row(R - 1); d.view.col(C - 1) = b.view.col(0);
    expect("row=row, then col=col", d, [=](long i) { return i % C == C - 1 ? B(i - C + 1) : i / C == 0 ? A((R - 1) * C + i) : junk(i); });
  }
  static void transposes(Shape<2> sh, Spec ds, Spec as, Spec bs)
  {
    Shape<2> tr = {{sh.n[1], sh.n[0]}}; long R = sh.n[0], C = sh.n[1];
    VD d(sh, ds); VA a(tr, as); VB b(sh, bs); set(a, A); set(b, B);
    auto at = [=](long i) { return A((i % C) * R + i / C); };
    set(d, junk); d.view = a.view.transpose(); expect("d=trans(a)", d, at);
    set(d, junk); d.view = a.view.transpose() + b.view; expect("d=trans(a)+b", d, [=](long i) { return at(i) + B(i); });
    set(a, A); d.view = b.view; a.view.transpose() = d.view * T(2); expect("trans(a)=d*2", a, [=](long i) { return B((i % R) * C + i / R) * T(2); });
  }
  static void blocks(Shape<2> sh, Spec ds, Spec as, Spec bs)
  {
    VD d(sh, ds); VA a(sh, as); VB b(sh, bs); set(a, A); set(b, B); long R = sh.n[0], C = sh.n[1];
    for (long r = 0; r < R; ++r) for (long c = 0; c < C; c += 2)
    {
      Domain<2> dm(Domain<1>(r, 1, R - r), Domain<1>(c, 1, C - c)), em(Domain<1>(0, 1, R - r), Domain<1>(0, 1, C - c));
      set(d, junk); d.view(dm) = a.view(em) - b.view(dm);
      expect("d(dom)=a(dom)-b(dom)", d, [=](long i) { return i / C >= r && i % C >= c ? A(i - r * C - c) - B(i) : junk(i); });
    }
  }
};

static std::vector<Spec> few(std::vector<Spec> const &v, bool th, size_t step)
{ if (th) return v; std::vector<Spec> o; for (size_t i = 0; i < v.size(); ++i) if (i % step == 0 || i + 1 == v.size()) o.push_back(v[i]); return o; }
template <dimension_type D, typename OD, typename MD, typename OA, typename MA, typename OB, typename MB> void combo(bool t, std::vector<int> contigs, size_t step)
{
  typedef Expr<D, OD, MD, OA, MA, OB, MB> E;
  std::vector<Spec> ds = few(specs<MD>(D, contigs, t), t, step), as = few(specs<MA>(D, contigs, t), t, step), bs = few(specs<MB>(D, contigs, t), t, step);
  for (auto sh : shapes<D>(t)) for (auto d : ds) for (auto a : as)
  {
    par::add("one operand: " + sh.str() + " " + show(d, D) + " <- " + show(a, D), [=]() { E::one(sh, d, a); });
    for (auto b : bs)
    {
      std::string s = sh.str() + " " + show(d, D) + " <- " + show(a, D) + ", " + show(b, D);
      par::add("two operands: " + s, [=]() { E::two(sh, d, a, b); });
      if (t || (d.pv + a.pv + b.pv) % 2 == 0) par::add("functions: " + s, [=]() { E::more(sh, d, a, b); });
    }
  }
}
template <dimension_type D, typename O, typename M> void single(bool t, std::vector<int> contigs)
{
  typedef Reduce<D, O, M> E;
  for (auto sh : shapes<D>(t)) for (auto a : specs<M>(D, contigs, true))
  {
    std::string s = sh.str() + " " + show(a, D);
    par::add("reductions of " + s, [=]() { E::run(sh, a); });
    for (int p = 0; p < 4; ++p) for (long from = 0; from < (p < 2 ? sh.total() : 1); from += 6)
      par::add("logical reductions " + std::to_string(p) + " " + std::to_string(from) + " of " + s, [=]() { E::logical(sh, a, p, from); });
    par::add("elements of " + s, [=]() { E::elements(sh, a); });
  }
}
// sub-views of views with a cyclic dimension are not supported (subset_map refuses them)
static bool divisible(Spec d, Spec a, Spec b, int D) { return (show(d, D) + show(a, D) + show(b, D)).find('c') == std::string::npos; }
template <typename OD, typename MD, typename OA, typename MA, typename OB, typename MB> void lines(bool t, std::vector<int> contigs, size_t step)
{
  typedef Lines<DV<1, T, OD, MD>, DV<1, T, OA, MA>, DV<1, T, OB, MB> > E;
  std::vector<Spec> ds = few(specs<MD>(1, contigs, t), t, step), as = few(specs<MA>(1, contigs, t), t, step), bs = few(specs<MB>(1, contigs, t), t, step);
  for (auto sh : shapes<1>(t)) for (auto d : ds) for (auto a : as)
  {
    par::add("ramps: " + sh.str() + " " + show(d, 1) + " <- " + show(a, 1), [=]() { E::ramps(sh, d, a); });
    for (auto b : bs) if (divisible(d, a, b, 1)) par::add("sub-views: " + sh.str() + " " + show(d, 1) + " <- " + show(a, 1) + ", " + show(b, 1), [=]() { E::subviews(sh, d, a, b); });
  }
}
template <typename OD, typename MD, typename OA, typename MA, typename OB, typename MB> void planes(bool t, std::vector<int> contigs, size_t step)
{
  typedef Planes<DV<2, T, OD, MD>, DV<2, T, OA, MA>, DV<2, T, OB, MB> > E;
  std::vector<Spec> ds = few(specs<MD>(2, contigs, t), t, step), as = few(specs<MA>(2, contigs, t), t, step), bs = few(specs<MB>(2, contigs, t), t, step);
  for (auto sh : shapes<2>(t)) for (auto d : ds) for (auto a : as) for (auto b : bs)
  {
    std::string s = sh.str() + " " + show(d, 2) + " <- " + show(a, 2) + ", " + show(b, 2);
    par::add("lines: " + s, [=]() { E::lines(sh, d, a, b); });
    par::add("transposes: " + s, [=]() { E::transposes(sh, d, a, b); });
    if (divisible(d, a, b, 2)) par::add("blocks: " + s, [=]() { E::blocks(sh, d, a, b); });
  }
}
template <dimension_type W, typename OD, typename MD, typename OA, typename MV> void vm(bool t, bool repl)
{
  typedef Vm<W, DV<2, T, OD, MD>, DV<2, T, OA, MD>, DV<1, T, row1_type, MV> > E;
  std::vector<int> c = t ? std::vector<int>{1, 2} : std::vector<int>{1};
  for (auto sh : shapes<2>(t)) for (auto d : specs<MD>(2, c, t)) for (auto v : specs<MV>(1, c, t))
  {
    // supported: a replicated vector over a matrix not distributed along it, or a vector distributed like the matrix
    std::string sd = show(d, 2), sv = show(v, 1);
    if (!repl && v.d[0].nsb == d.d[1 - W].nsb && v.pv != d.pv) { if ((int)v.d[0].nsb == par::np() && sh.n[1 - W] % par::np() == 0) par::add("vmmul elsewhere: " + sh.str() + " " + sd + " <- " + sv, [=]() { E::elsewhere(sh, d, v); }); continue; }
    if (repl ? sv != "repl(" + std::to_string(par::np()) + ")" : v.d[0].nsb != d.d[1 - W].nsb || v.pv != d.pv) continue;
    par::add("vmmul: " + sh.str() + " " + sd + " <- " + sv, [=]() { E::run(sh, d, d, v); });
  }
}
#if D_ == 1
typedef Map<Block_dist> MB_; typedef Map<Cyclic_dist> MC_; typedef Replicated_map<1> MR_; typedef row1_type O1;
static void enumerate(bool t)
{
  std::vector<int> c = t ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2};
# if PART == 5
  lines<O1, MB_, O1, MB_, O1, MR_>(t, c, 1); lines<O1, MB_, O1, MC_, O1, MB_>(t, c, 1); lines<O1, MR_, O1, MB_, O1, MB_>(t, c, 1);
# elif PART == 0
  combo<1, O1, MB_, O1, MB_, O1, MB_>(t, c, 1); combo<1, O1, MB_, O1, MC_, O1, MB_>(t, c, 1);
# elif PART == 1
  combo<1, O1, MB_, O1, MC_, O1, MR_>(t, c, 1); combo<1, O1, MC_, O1, MB_, O1, MC_>(t, c, 2);
# elif PART == 2
  combo<1, O1, MC_, O1, MC_, O1, MC_>(t, c, 2); combo<1, O1, MR_, O1, MB_, O1, MC_>(t, c, 1);
# elif PART == 3
  combo<1, O1, MR_, O1, MR_, O1, MR_>(t, c, 1); combo<1, O1, MB_, O1, MR_, O1, MR_>(t, c, 1); combo<1, O1, MR_, O1, MB_, O1, MR_>(t, c, 1);
# else
  single<1, O1, MB_>(t, c); single<1, O1, MC_>(t, c); single<1, O1, MR_>(t, c); single<1, O1, Map<Whole_dist> >(t, c);
# endif
}
#elif D_ == 2
typedef Map<Block_dist, Block_dist> M0; typedef Map<Cyclic_dist, Cyclic_dist> M1; typedef Map<Block_dist, Whole_dist> M2;
typedef Map<Whole_dist, Cyclic_dist> M3; typedef Replicated_map<2> M4;
static void enumerate(bool t)
{
  std::vector<int> c = {1, 2};
# if PART == 5
  typedef Map<Whole_dist, Block_dist> M5; typedef Map<Block_dist> V0; typedef Replicated_map<1> V4;
  vm<0, row2_type, M2, row2_type, V4>(t, true); vm<0, col2_type, M2, row2_type, V4>(t, true); vm<1, row2_type, M5, col2_type, V4>(t, true); vm<1, col2_type, M5, col2_type, V4>(t, true);
  vm<0, row2_type, M5, row2_type, V0>(t, false); vm<1, col2_type, M2, col2_type, V0>(t, false);
# elif PART == 4
  planes<row2_type, M0, col2_type, M2, row2_type, M4>(t, std::vector<int>{1}, 2); planes<row2_type, M4, row2_type, M0, col2_type, M0>(t, std::vector<int>{1}, 2); planes<col2_type, M2, row2_type, M2, row2_type, M3>(t, std::vector<int>{1}, 1);
# elif PART == 0
  combo<2, row2_type, M0, col2_type, M0, row2_type, M2>(t, c, 2); combo<2, col2_type, M2, row2_type, M3, row2_type, M4>(t, c, 1);
# elif PART == 1
  combo<2, row2_type, M1, row2_type, M2, col2_type, M3>(t, c, 3); combo<2, row2_type, M4, col2_type, M0, row2_type, M3>(t, c, 2);
# elif PART == 2
  combo<2, col2_type, M3, col2_type, M3, row2_type, M1>(t, c, 3); combo<2, row2_type, M0, row2_type, M4, col2_type, M4>(t, c, 2);
# else
  single<2, row2_type, M0>(t, c); single<2, col2_type, M1>(t, std::vector<int>{1}); single<2, col2_type, M2>(t, c); single<2, row2_type, M3>(t, c); single<2, col2_type, M4>(t, c);
# endif
}
#else
typedef Map<Block_dist, Whole_dist, Block_dist> M0; typedef Map<Whole_dist, Cyclic_dist, Block_dist> M1; typedef Map<Block_dist, Block_dist, Block_dist> M2; typedef Replicated_map<3> M4;
typedef tuple<2, 0, 1> O3; typedef row3_type P3;
static void enumerate(bool t)
{
  std::vector<int> c = {1, 2};
# if PART == 0
  combo<3, P3, M0, O3, M1, P3, M2>(t, c, 3);
# elif PART == 1
  combo<3, O3, M4, P3, M2, P3, M0>(t, c, 2);
# else
  single<3, P3, M0>(t, c); single<3, O3, M1>(t, c); single<3, P3, M2>(t, c); single<3, O3, M4>(t, c);
# endif
}
#endif
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
