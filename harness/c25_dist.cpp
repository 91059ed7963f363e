// C25: objects and functions applied to distributed views give the serial result.
#include "par.hpp"
#include <vsip/signal.hpp>
#include <vsip/solvers.hpp>
#include <vsip/selgen.hpp>
using namespace par;
typedef ET T;
typedef std::complex<double> Z;
template <typename U> struct cplx { static bool const value = false; typedef U real; };
template <typename U> struct cplx<std::complex<U> > { static bool const value = true; typedef U real; };
typedef cplx<T>::real R;
static long noise(long l, long salt) { unsigned long long h = (l * 2654435761ull + salt * 977 + 5) * 0x9E3779B97F4A7C15ull; return (long)((h >> 40) % 13) - 6; }
static R mkv(Z v, R) { return v.real(); }
static std::complex<R> mkv(Z v, std::complex<R>) { return std::complex<R>(v.real(), v.imag()); }
static Z zz(double x) { return x; }
static Z zz(Z x) { return x; }
static Z zz(std::complex<float> x) { return x; }
typedef std::vector<Z> VZ;
static VZ data(int n, long salt, bool c = cplx<T>::value) { VZ v(n); for (int i = 0; i < n; ++i) v[i] = Z(noise(i, salt), c ? noise(i, salt + 50) : 0); return v; }
template <typename W> static void load(W &w, VZ const &v) { auto lv = w.view.local(); typedef decltype(lv) L; w.each([&](long i, int *, int *l) { acc<L>::put(lv, l, mkv(v[i], typename W::view_type::value_type())); }); }
template <typename W> static bool near(W &w, VZ const &v, char const *key)
{
  w.check_extent(); auto lv = w.view.local(); typedef decltype(lv) L; bool ok = true;
  w.each([&](long i, int *, int *l)
  {
    auto got = acc<L>::get(lv, l); unsigned long long h = fk::hash(&got, sizeof got, 3); fk::outcome(h);
    if (ok && !(std::abs(zz(got) - v[i]) <= 2e-4 * (1 + std::abs(v[i])))) { ok = false; std::ostringstream o; o << got << ", expected " << v[i]; fk::fail(key, "element %ld is %s", i, o.str().c_str()); }
  });
  return ok;
}
template <typename S> static void scalar(S got, Z want, char const *key)
{
  fk::outcome(fk::hash(&got, sizeof got));
  if (!(std::abs(zz(got) - want) <= 2e-4 * (1 + std::abs(want)))) { std::ostringstream o; o << got << ", expected " << want; fk::fail(key, "the result is %s", o.str().c_str()); }
}
// replicated operands: on every rank (a rank outside the map has no copy to work on)
static bool every_rank(Spec const &s) { return !s.repl || s.d[0].nsb == np(); }
static Z cj(Z v) { return std::conj(v); }
template <typename U> static Vector<U> local(VZ const &v) { Vector<U> r(v.size()); for (size_t i = 0; i < v.size(); ++i) r.put(i, mkv(v[i], U())); return r; }

#if D_ == 1
struct More { template <typename P> bool operator()(P p, P q) const { return p > q; } };
template <typename MA, typename MB> struct One
{
  typedef DV<1, T, row1_type, MA> A; typedef DV<1, T, row1_type, MB> B;
  typedef DV<1, std::complex<R>, row1_type, MA> CA; typedef DV<1, std::complex<R>, row1_type, MB> CB;
  template <support_region_type S> static void conv(Spec x, Spec y, int m, int n, int d)
  {
    VZ h = data(m, 1), in = data(n, 2);
    int no = S == support_full ? (n + m - 2) / d + 1 : S == support_same ? (n - 1) / d + 1 : (n - m + d) / d, sh = S == support_full ? 0 : S == support_same ? m / 2 : m - 1;
    VZ w(no); for (int i = 0; i < no; ++i) for (int k = 0; k < m; ++k) { int j = i * d + sh - k; if (j >= 0 && j < n) w[i] += h[k] * in[j]; }
    A a(Shape<1>{{n}}, x); B b(Shape<1>{{no}}, y); load(a, in); A kk(Shape<1>{{m}}, x); load(kk, h); b.fill(700);
    Convolution<const_Vector, nonsym, S, T> c(kk.view, Domain<1>(n), d);
    c(a.view, b.view); near(b, w, "convolution"); near(a, in, "convolution input"); near(kk, h, "convolution kernel");
    b.fill(300); Convolution<const_Vector, nonsym, S, T> e(local<T>(h), Domain<1>(n), d); e(a.view, b.view); near(b, w, "convolution, local kernel");
    b.fill(300); e(local<T>(in), b.view); near(b, w, "convolution, local input");
    Vector<T> lo(no); e(a.view, lo); for (int i = 0; i < no; ++i) if (!(std::abs(zz(lo.get(i)) - w[i]) < 1e-3)) { fk::fail("convolution", "local output differs at %d", i); break; }
    // symmetric kernel
    VZ hs(2 * m - 1); for (int i = 0; i < 2 * m - 1; ++i) hs[i] = h[i < m ? i : 2 * m - 2 - i];
    if (S == support_full) { int q = (n + 2 * m - 3) / d + 1; B o(Shape<1>{{q}}, y); VZ ws(q); for (int i = 0; i < q; ++i) for (int k = 0; k < 2 * m - 1; ++k) { int j = i * d - k; if (j >= 0 && j < n) ws[i] += hs[k] * in[j]; }
      Convolution<const_Vector, sym_even_len_odd, S, T> s(kk.view, Domain<1>(n), d); s(a.view, o.view); near(o, ws, "symmetric convolution"); }
  }
  template <support_region_type S> static void corr(Spec x, Spec y, int m, int n)
  {
    VZ h = data(m, 3), in = data(n, 4); int no = S == support_full ? n + m - 1 : S == support_same ? n : n - m + 1, sh = S == support_full ? m - 1 : S == support_same ? m / 2 : 0;
    VZ w(no); for (int i = 0; i < no; ++i) for (int k = 0; k < m; ++k) { int j = i + k - sh; if (j >= 0 && j < n) w[i] += h[k] * cj(in[j]); }
    A a(Shape<1>{{n}}, x), r(Shape<1>{{m}}, x); B b(Shape<1>{{no}}, y); load(a, in); load(r, h); b.fill(700);
    Correlation<const_Vector, S, T> c((Domain<1>(m)), (Domain<1>(n)));
    c(biased, r.view, a.view, b.view); near(b, w, "correlation"); near(a, in, "correlation input"); near(r, h, "correlation reference");
    c(biased, r.view, a.view, b.view); near(b, w, "correlation again");
  }
  static void fir(Spec x, Spec y, int m, int n, int d)
  {
    VZ h = data(m, 5), in = data(2 * n, 6); int no = (n + d - 1) / d;
    Fir<T, nonsym, state_save> f(local<T>(h), n, d);
    std::vector<Z> all;
    int p = 0;
    for (int c = 0; c < 2; ++c)
    {
      A a(Shape<1>{{n}}, x); B b(Shape<1>{{no}}, y); load(a, VZ(in.begin() + c * n, in.begin() + (c + 1) * n)); b.fill(700);
      VZ w; for (; p < (c + 1) * n; p += d) { Z s = 0; for (int k = 0; k < m && k <= p; ++k) s += h[k] * in[p - k]; w.push_back(s); }
      length_type got = f(a.view, b.view);
      if (got != w.size()) fk::fail("fir", "%d outputs, expected %d", (int)got, (int)w.size());
      else if ((int)w.size() == no) near(b, w, "fir");
    }
  }
  static void iir(Spec x, Spec y, int n, int sections)
  {
    VZ co = data(5 * sections, 7), in = data(2 * n, 8), w(2 * n); for (auto &v : co) v *= 0.125;
    Matrix<T> b(sections, 3), a(sections, 2);
    for (int s = 0; s < sections; ++s) { for (int k = 0; k < 3; ++k) b.put(s, k, mkv(co[5 * s + k], T())); for (int k = 0; k < 2; ++k) a.put(s, k, mkv(co[5 * s + 3 + k], T())); }
    for (int i = 0; i < 2 * n; ++i) w[i] = in[i];
    for (int s = 0; s < sections; ++s) { VZ u = w; for (int i = 0; i < 2 * n; ++i) { Z v = 0; for (int k = 0; k < 3 && k <= i; ++k) v += co[5 * s + k] * u[i - k]; for (int k = 0; k < 2 && k < i; ++k) v -= co[5 * s + 3 + k] * w[i - 1 - k]; w[i] = v; } }
    Iir<T, state_save> f(b, a, n); Iir<T, state_no_save> g(b, a, n);
    for (int c = 0; c < 2; ++c)
    {
      A da(Shape<1>{{n}}, x); B db(Shape<1>{{n}}, y); VZ part(in.begin() + c * n, in.begin() + (c + 1) * n); load(da, part); db.fill(700);
      f(da.view, db.view); near(db, VZ(w.begin() + c * n, w.begin() + (c + 1) * n), "iir"); near(da, part, "iir input");
      if (c == 0) { db.fill(300); g(da.view, db.view); near(db, VZ(w.begin(), w.begin() + n), "iir without state"); }
    }
  }
  static void select(Spec x, Spec y, int n)
  {
    VZ in = data(n, 8), v2 = data(n, 9); A a(Shape<1>{{n}}, x); B b(Shape<1>{{n}}, y); load(a, in); load(b, v2);
    { Z s = 0; for (int i = 0; i < n; ++i) s += in[i] * v2[i]; scalar(dot(a.view, b.view), s, "dot"); }
    load(b, v2); { VZ w(n); Z s = 0; for (int i = 0; i < n; ++i) w[i] = s += in[i]; cumsum<0>(a.view, b.view); near(b, w, "cumsum"); }
    load(b, v2); vsip::swap(a.view, b.view); near(a, v2, "swap, first"); near(b, in, "swap, second");
    load(a, in); load(b, v2);
    { Vector<Index<1> > ix(4); int q[4] = {n - 1, 0, n / 2, 0}; for (int i = 0; i < 4; ++i) ix.put(i, Index<1>(q[i])); Vector<T> g = gather(a.view, ix); for (int i = 0; i < 4; ++i) scalar(g.get(i), in[q[i]], "gather");
      Vector<Index<1> > iy(2); iy.put(0, Index<1>(n - 1)); iy.put(1, Index<1>(0)); Vector<T> s(2); s.put(0, T(41)); s.put(1, T(n > 1 ? 42 : 41)); scatter(s, iy, b.view); VZ w = v2; w[n - 1] = 41; w[0] = n > 1 ? 42 : 41; near(b, w, "scatter"); }
    realonly(x, y, n, a, b, in, v2, std::integral_constant<bool, cplx<T>::value>());
  }
  static void swapped(Spec x, Spec y, int n)
  {
    VZ in = data(n, 8), w(n); A a(Shape<1>{{n}}, x); B b(Shape<1>{{n}}, y); load(a, in); b.fill(300);
    for (int i = 0; i < n; ++i) w[i] = in[(i + (n + 1) / 2) % n];
    b.view = freqswap(a.view); near(b, w, "freqswap"); near(a, in, "freqswap operand");
  }
  static void realonly(Spec, Spec, int, A &, B &, VZ const &, VZ const &, std::true_type) {}
  template <typename F> static void realonly(Spec x, Spec y, int n, A &a, B &b, VZ const &in, VZ const &v2, F)
  {
    load(a, in); load(b, v2);
    { Histogram<const_Vector, T> h(-3, 3, 5); Vector<int> r = h(a.view); std::vector<int> w(5); for (int i = 0; i < n; ++i) { double v = in[i].real(); ++w[v < -3 ? 0 : v >= 3 ? 4 : (int)std::floor((v + 3) / 2) + 1]; } for (int i = 0; i < 5; ++i) scalar(double(r.get(i)), w[i], "histogram"); }
    { int f = n; for (int i = n; i-- > 0;) if (in[i].real() > v2[i].real()) f = i; scalar(double(first(0, More(), a.view, b.view)), f, "first"); }
    { VZ w; for (int i = 0; i < n; ++i) { double v = in[i].real(); w.push_back(v <= -2 ? -9 : v < 2 ? v : 9); } b.view = clip(a.view, T(-2), T(2), T(-9), T(9)); near(b, w, "clip"); }
    { DV<1, bool, row1_type, MA> m(Shape<1>{{n}}, x); auto lv = m.view.local(); m.each([&](long i, int *, int *l) { lv.put(l[0], in[i].real() > 0); });
      Vector<Index<1> > ix(n); length_type c = indexbool(m.view, ix); int k = 0; for (int i = 0; i < n; ++i) if (in[i].real() > 0) { if (k < (int)c) scalar(double(ix.get(k)[0]), i, "indexbool"); ++k; } scalar(double(c), k, "indexbool count"); }
  }
  static void all(std::string const &name, bool t)
  {
    for (auto x : specs<MA>(1, {1, 2}, false)) for (auto y : specs<MB>(1, {1, 2}, false))
    {
      if (!every_rank(x) || !every_rank(y)) continue;
      std::string s = name + " " + show(x, 1) + " and " + show(y, 1);
#if PART == 0
      for (auto g : std::vector<std::vector<int> >{{3, 8, 1}, {2, 5, 2}, {1, 3, 1}, {4, 9, 3}})
      {
        int m = g[0], n = g[1], d = g[2]; std::string q = s + ", kernel " + std::to_string(m) + ", input " + std::to_string(n) + ", decimation " + std::to_string(d);
        par::add("convolution full " + q, [=]() { conv<support_full>(x, y, m, n, d); }); par::add("convolution same " + q, [=]() { conv<support_same>(x, y, m, n, d); }); par::add("convolution min " + q, [=]() { conv<support_min>(x, y, m, n, d); });
      }
#elif PART == 1
      for (auto g : std::vector<std::vector<int> >{{3, 8, 1}, {2, 5, 2}, {1, 3, 1}, {4, 9, 3}})
      {
        int m = g[0], n = g[1], d = g[2]; std::string q = s + ", kernel " + std::to_string(m) + ", input " + std::to_string(n) + ", decimation " + std::to_string(d);
        if (d == 1 || t) { par::add("correlation full " + q, [=]() { corr<support_full>(x, y, m, n); }); par::add("correlation same " + q, [=]() { corr<support_same>(x, y, m, n); }); par::add("correlation min " + q, [=]() { corr<support_min>(x, y, m, n); }); }
        if (m > d) par::add("fir " + q, [=]() { fir(x, y, m, n, d); });
      }
#elif PART == 2
      for (int n : {1, 4, 7}) for (int k : {1, 2}) par::add("iir " + s + " of " + std::to_string(n) + ", sections " + std::to_string(k), [=]() { iir(x, y, n, k); });
#else
      if (std::is_same<MA, MB>::value && show(x, 1) == show(y, 1)) for (int n : {1, 3, 6, 11}) par::add("freqswap " + s + " of " + std::to_string(n), [=]() { swapped(x, y, n); });
      for (int n : {1, 3, 6, 11}) par::add("selection " + s + " of " + std::to_string(n), [=]() { select(x, y, n); });
#endif
    }
  }
};
#else
typedef std::vector<Z> MZ;   // row-major
static MZ mul(MZ const &a, MZ const &b, int m, int k, int n, bool at = false, bool conj = false)
{ MZ c(m * n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < k; ++l) { Z v = at ? a[l * m + i] : a[i * k + l]; c[i * n + j] += (conj ? cj(v) : v) * b[l * n + j]; } return c; }
static MZ regular(int m, int n, long salt) { MZ a = data(m * n, salt); for (int i = 0; i < n && i < m; ++i) a[i * n + i] += 17.; return a; }
template <typename MA, typename OA, typename MB> struct Two
{
  typedef DV<2, T, OA, MA> A; typedef DV<2, T, row2_type, MB> B; typedef DV<2, T, col2_type, MA> X;
  static mat_op_type const OTHER = cplx<T>::value ? mat_herm : mat_trans;
  static void lu(Spec x, Spec y, int n, int p)
  {
    MZ a = regular(n, n, 1), s = data(n * p, 2);
    A da(Shape<2>{{n, n}}, x); B db(Shape<2>{{n, p}}, y); X dx(Shape<2>{{n, p}}, x); load(da, a);
    lud<T, by_reference> l(n); if (!l.decompose(da.view)) fk::fail("lu", "refused");
    load(db, mul(a, s, n, n, p)); dx.fill(300); l.template solve<mat_ntrans>(db.view, dx.view); near(dx, s, "lu solve"); near(db, mul(a, s, n, n, p), "lu operand");
    load(db, mul(a, s, n, n, p, true)); dx.fill(300); l.template solve<mat_trans>(db.view, dx.view); near(dx, s, "lu solve, transposed");
    B d2(Shape<2>{{n, p}}, y); load(dx, mul(a, s, n, n, p)); l.template solve<mat_ntrans>(dx.view, d2.view); near(d2, s, "lu solve, other order");
  }
  static void qr(Spec x, Spec y, int m, int n, int p)
  {
    MZ a = regular(m, n, 3), s = data(n * p, 4);
    A da(Shape<2>{{m, n}}, x); load(da, a);
    qrd<T, by_reference> q(m, n, qrd_saveq); if (!q.decompose(da.view)) fk::fail("qr", "refused");
    MZ aha = mul(a, a, n, m, n, true, true);
    B db(Shape<2>{{n, p}}, y); X dx(Shape<2>{{n, p}}, x);
    load(db, mul(aha, s, n, n, p)); dx.fill(300); q.covsol(db.view, dx.view); near(dx, s, "qr covsol");
    B dc(Shape<2>{{m, p}}, y); load(dc, mul(a, s, m, n, p)); dx.fill(300); q.lsqsol(dc.view, dx.view); near(dx, s, "qr lsqsol"); near(dc, mul(a, s, m, n, p), "qr operand");
    // Q^H A s = R s; R^-1 of it is s
    X dq(Shape<2>{{m, p}}, x); dq.fill(300); q.template prodq<OTHER, mat_lside>(dc.view, dq.view);
    X back(Shape<2>{{m, p}}, x); back.fill(100); q.template prodq<mat_ntrans, mat_lside>(dq.view, back.view); near(back, mul(a, s, m, n, p), "qr prodq there and back");
    if (m == n) { dx.fill(300); q.template rsol<mat_ntrans>(dq.view, T(1), dx.view); near(dx, s, "qr rsol"); }
    load(da, a); load(db, mul(aha, s, n, n, p)); dx.fill(300); covsol(da.view, db.view, dx.view); near(dx, s, "covsol");
    load(da, a); load(dc, mul(a, s, m, n, p)); dx.fill(300); llsqsol(da.view, dc.view, dx.view); near(dx, s, "llsqsol");
  }
  static void product(Spec x, Spec y, int m, int k, int n)
  {
    MZ a = data(m * k, 5), b = data(k * n, 6), c = data(m * n, 7), w = mul(a, b, m, k, n); for (int i = 0; i < m * n; ++i) w[i] = w[i] * 2. - c[i];
    A da(Shape<2>{{m, k}}, x); X db(Shape<2>{{k, n}}, x); B dc(Shape<2>{{m, n}}, y); load(da, a); load(db, b); load(dc, c);
    gemp<mat_ntrans, mat_ntrans>(T(2), da.view, db.view, T(-1), dc.view); near(dc, w, "gemp");
    B dt(Shape<2>{{k, m}}, y); dt.view = trans(da.view); MZ t(m * k); for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) t[j * m + i] = a[i * k + j]; near(dt, t, "trans");
    B dm(Shape<2>{{m, k}}, y); cumsum<0>(da.view, dm.view); MZ u(m * k); for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) u[i * k + j] = (j ? u[i * k + j - 1] : 0.) + a[i * k + j]; near(dm, u, "cumsum by rows");
    cumsum<1>(da.view, dm.view); for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) u[i * k + j] = (i ? u[(i - 1) * k + j] : 0.) + a[i * k + j]; near(dm, u, "cumsum by columns");
    MZ e = data(m * k, 8); load(dm, e); vsip::swap(da.view, dm.view); near(da, e, "swap, first"); near(dm, a, "swap, second");
  }
  static Matrix<T> local2(MZ const &v, int m, int n) { Matrix<T> r(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) r.put(i, j, mkv(v[i * n + j], T())); return r; }
  template <support_region_type S> static void conv2(Spec x, Spec y, int k0, int k1, int m, int n)
  {
    MZ h = data(k0 * k1, 1), a = data(m * n, 2); A da(Shape<2>{{m, n}}, x); load(da, a);
    Matrix<T> kernel = local2(h, k0, k1);
    {
      int o0 = S == support_full ? m + k0 - 1 : S == support_same ? m : m - k0 + 1, o1 = S == support_full ? n + k1 - 1 : S == support_same ? n : n - k1 + 1;
      int s0 = S == support_full ? 0 : S == support_same ? k0 / 2 : k0 - 1, s1 = S == support_full ? 0 : S == support_same ? k1 / 2 : k1 - 1;
      MZ w(o0 * o1); for (int i = 0; i < o0; ++i) for (int j = 0; j < o1; ++j) for (int p = 0; p < k0; ++p) for (int q = 0; q < k1; ++q)
      { int r = i + s0 - p, c = j + s1 - q; if (r >= 0 && r < m && c >= 0 && c < n) w[i * o1 + j] += h[p * k1 + q] * a[r * n + c]; }
      B db(Shape<2>{{o0, o1}}, y); db.fill(700); X dx(Shape<2>{{o0, o1}}, x); dx.fill(300);
      Convolution<const_Matrix, nonsym, S, T> c(kernel, Domain<2>(m, n), 1); c(da.view, db.view); near(db, w, "convolution"); near(da, a, "convolution input"); c(da.view, dx.view); near(dx, w, "convolution, other order");
    }
  }
  static void all(std::string const &name, bool t)
  {
    for (auto x : specs<MA>(2, {1}, false)) for (auto y : specs<MB>(2, {1}, false))
    {
      if (!every_rank(x) || !every_rank(y)) continue;
      std::string s = name + " " + show(x, 2) + " and " + show(y, 2);
#if PART == 0
      for (int n : {1, 3, 4}) for (int p : {1, 3}) par::add("lu " + s + ", " + std::to_string(n) + ", " + std::to_string(p) + " right-hand sides", [=]() { lu(x, y, n, p); });
#elif PART == 1
      for (auto g : std::vector<std::vector<int> >{{3, 3, 2}, {4, 2, 1}, {1, 1, 3}, {5, 3, 2}}) { int m = g[0], n = g[1], p = g[2]; par::add("qr " + s + ", " + std::to_string(m) + "x" + std::to_string(n) + ", " + std::to_string(p) + " right-hand sides", [=]() { qr(x, y, m, n, p); }); }
#elif PART == 3
      for (auto g : std::vector<std::vector<int> >{{2, 2, 4, 5}, {3, 1, 3, 4}})
      {
        int p = g[0], q = g[1], m = g[2], n = g[3]; std::string u = s + ", kernel " + std::to_string(p) + "x" + std::to_string(q) + ", input " + std::to_string(m) + "x" + std::to_string(n);
        par::add("convolution full " + u, [=]() { conv2<support_full>(x, y, p, q, m, n); }); par::add("convolution same " + u, [=]() { conv2<support_same>(x, y, p, q, m, n); }); par::add("convolution min " + u, [=]() { conv2<support_min>(x, y, p, q, m, n); });
      }
#else
      for (auto g : std::vector<std::vector<int> >{{3, 3, 2}, {4, 2, 5}, {1, 3, 1}}) { int m = g[0], n = g[1], p = g[2]; par::add("products " + s + ", " + std::to_string(m) + "x" + std::to_string(n) + "x" + std::to_string(p), [=]() { product(x, y, m, n, p); }); }
#endif
    }
  }
};
#endif
static void enumerate(bool t)
{
#if D_ == 1
  typedef Map<Block_dist> Bl; typedef Map<Cyclic_dist> Cy; typedef Replicated_map<1> Re;
  One<Bl, Bl>::all("block, block", t);
#if PART == 3
  One<Bl, Cy>::all("block, cyclic", t); One<Cy, Bl>::all("cyclic, block", t);
#endif
  One<Re, Bl>::all("replicated, block", t); One<Bl, Re>::all("block, replicated", t);
#else
  typedef Map<Block_dist, Block_dist> BB; typedef Map<Cyclic_dist, Cyclic_dist> CC; typedef Replicated_map<2> Re;
  Two<BB, row2_type, BB>::all("row, row", t); Two<BB, col2_type, CC>::all("column, row", t); Two<CC, row2_type, Re>::all("row, replicated", t); Two<Re, col2_type, BB>::all("replicated, row", t);
#endif
}
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
