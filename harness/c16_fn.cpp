// C16: every element-wise function and operator over every combination of a set of
// argument values, every kind of operand and destination.
#include "seq.hpp"
#include <ovxx/view/cast.hpp>
#include <limits>
using namespace seq;
typedef ET T;
typedef cplx<T>::real R;
typedef std::complex<float> CFL;
typedef std::complex<double> CDB;

template <typename U> static double eps(U) { return 0; }
static double eps(float) { return 3e-6; }
static double eps(double) { return 1e-13; }
template <typename U> static double eps(std::complex<U>) { return eps(U()); }
template <typename U> static bool same(U g, U w, double e, double scale)
{
  if (g == w) return true;
  if (e == 0) return false;
  if (w != w) return g != g;
  if (std::isinf((double)w) || std::isinf((double)g)) return false;
  return std::fabs((double)g - (double)w) <= e * (std::fabs((double)w) + scale) + 4. * std::numeric_limits<float>::denorm_min() * (sizeof(U) == 4);
}
template <typename U> static bool same(std::complex<U> g, std::complex<U> w, double e, double scale)
{
  double m = std::abs(w);
  if (m != m || std::isinf(m)) return g != g || std::isinf(std::abs(std::complex<double>(g)));
  return same(g.real(), w.real(), e, scale + m) && same(g.imag(), w.imag(), e, scale + m);
}

template <typename U> struct values
{ static std::vector<U> fin() { return {U(-3), U(-1), U(-0.75), U(-0.), U(0), U(0.25), U(0.5), U(1), U(1.5), U(2.5), U(7)}; }
  static std::vector<U> any() { auto v = fin(); for (U x : {std::numeric_limits<U>::infinity(), -std::numeric_limits<U>::infinity(), std::numeric_limits<U>::quiet_NaN(), std::numeric_limits<U>::denorm_min(), std::numeric_limits<U>::max()}) v.push_back(x); return v; }
  static std::vector<U> few() { return {U(-2), U(0.25), U(0), U(3)}; } };
template <> struct values<int> { static std::vector<int> fin() { return {-7, -1, 0, 1, 2, 3, 6, 1000, -65536}; } static std::vector<int> any() { return fin(); } static std::vector<int> few() { return {-2, 1, 0, 3}; } };
template <> struct values<bool> { static std::vector<bool> fin() { return {false, true}; } static std::vector<bool> any() { return fin(); } static std::vector<bool> few() { return fin(); } };
template <typename U> struct values<std::complex<U> >
{ typedef std::complex<U> C;
  static std::vector<C> fin() { return {C(3, -4), C(0, 1), C(-2, 0), C(-1.5, 2), C(0.25, 0.5), C(1, 0), C(0.5, -0.125)}; }
  static std::vector<C> any() { U i = std::numeric_limits<U>::infinity(), n = std::numeric_limits<U>::quiet_NaN(), d = std::numeric_limits<U>::denorm_min();
    return {C(1, 2), C(0, 0), C(i, 1), C(1, i), C(n, 1), C(1, n), C(d, 1), C(1, d), C(-i, n), C(0, 1)}; }
  static std::vector<C> few() { return {C(3, -4), C(0, 1), C(-1.5, 0), C(0.5, 2)}; } };

// A vector operand of a given element type.  Kind 0 owns a whole view, kind 1 is a part.
template <typename U, int KIND> struct Opd
{
  typedef Root<1, U, Layout<1, row1_type, dense, cplx<U>::value ? FORMAT : array> > RR;
  int m[3]; RR r; Domain<1> d;
  static int len(int n) { return KIND ? 2 * n + 1 : n; }
  Opd(int n, long salt) : m{len(n), 1, 1}, r(m), d(KIND == 0 ? Domain<1>(n) : salt % 2 ? Domain<1>(2 * n - 1, -2, n) : Domain<1>(1, 2, n)) { r.reset(salt); }
  typename RR::view_type view(std::integral_constant<int, 0>) { return r.view(); }
  typename RR::view_type::subview_type view(std::integral_constant<int, 1>) { return r.view()(d); }
  auto view() -> decltype(view(std::integral_constant<int, KIND>())) { return view(std::integral_constant<int, KIND>()); }
  long lin(int i) const { return (long)d.first() + (long)i * d.stride(); }
  U get(int i) { long p = r.pos(lin(i)); return RR::mk(r.raw(p, 0), r.C() > 1 ? r.raw(p, 1) : typename RR::R()); }
  void set(int i, U v) { long p = r.pos(lin(i)); for (int c = 0; c < r.C(); ++c) { r.raw(p, c) = comp(v, c); r.exp_raw(p, c) = comp(v, c); } }
  // memory outside of the elements is unchanged
  bool rest(char const *key, char const *what)
  {
    for (int i = 0; i < (int)d.length(); ++i) { long p = r.pos(lin(i)); for (int c = 0; c < r.C(); ++c) r.exp_raw(p, c) = r.raw(p, c); }
    return bits(key, what);
  }
  bool bits(char const *key, char const *what)
  {
    for (long p = -RR::GUARD; p < r.total + RR::GUARD; ++p)
      for (int c = 0; c < r.C(); ++c)
      {
        typename RR::R g = r.raw(p, c), w = r.exp_raw(p, c);
        if (memcmp(&g, &w, sizeof g)) { mc::fail(key, "%s: storage position %ld holds %s instead of %s", what, p, mc::str(g).c_str(), mc::str(w).c_str()); return false; }
      }
    return true;
  }
};


// want(i) is the reference; e the expression view
template <typename Q, typename E, typename W, typename S> static void check(char const *name, E const &e, int n, W want, S scale)
{
  typedef typename E::value_type Qv;
  if (e.size() != (length_type)n) { mc::fail("size", "%s has %ld elements, expected %d", name, (long)e.size(), n); return; }
  Opd<Q, SUBKIND> d(n, 5);
  d.view() = e;
  mc::step();
  int bad = 0;
  for (int i = 0; i < n; ++i)
  {
    Q w = Q(want(i)), g = d.get(i);
    if (!same(g, w, eps(R()), scale(i))) { if (!bad++) mc::fail("value", "%s: element %d is %s, expected %s", name, i, mc::str(g).c_str(), mc::str(w).c_str()); }
    Qv x = e.get(i);
    if (!same(Q(x), w, eps(R()), scale(i))) { if (!bad++) mc::fail("get", "%s: get(%d) is %s, expected %s", name, i, mc::str(Q(x)).c_str(), mc::str(w).c_str()); }
    mc::outcome(mc::hash(&g, sizeof g));
  }
  d.rest("outside", name);
}

template <typename U> static double mg(U x) { double m = (double)std::abs(CDB((double)comp(x, 0), cplx<U>::value ? (double)comp(x, 1) : 0.)); return m != m || std::isinf(m) ? 0 : m; }

// unary: V the expression over view a, S the reference over scalar x
#define U1(NAME, RES, SET, VE, SE) \
  if (mc::next()) { mc::desc("%s, %s operand", NAME, SUBKIND ? "strided" : "whole"); mc::nontrivial(); \
    auto vals = values<T>::SET(); int n = vals.size(); Opd<T, SUBKIND> A(n, 2); for (int i = 0; i < n; ++i) A.set(i, vals[i]); auto a = A.view(); \
    check<RES>(NAME, VE, n, [&](int i) { T x = vals[i]; (void)x; return RES(SE); }, [&](int i) { return 0.; }); A.bits("operand", NAME); }
// binary over two element types: view-view, view-scalar, scalar-view
#define B1_(NAME, TA, TB, RES, SETA, SETB, VE, SE, FORM) \
  if (mc::next()) { mc::desc("%s(%s), %s operands, form %d", NAME, #TA "," #TB, SUBKIND ? "strided" : "whole", FORM); mc::nontrivial(); \
    auto va = values<TA>::SETA(); auto vb = values<TB>::SETB(); int na = va.size(), nb = vb.size(); \
    if (FORM == 0) { int n = na * nb; Opd<TA, SUBKIND> A(n, 2); Opd<TB, SUBKIND> B(n, 3); for (int i = 0; i < n; ++i) { A.set(i, va[i / nb]); B.set(i, vb[i % nb]); } \
      auto a = A.view(); auto b = B.view(); \
      check<RES>(NAME, VE, n, [&](int i) { TA x = va[i / nb]; TB y = vb[i % nb]; return RES(SE); }, [&](int i) { return mg(va[i / nb]) * mg(vb[i % nb]) + mg(vb[i % nb]) + mg(va[i / nb]); }); \
      A.bits("operand", NAME); B.bits("operand", NAME); } \
    if (FORM == 1) { Opd<TA, SUBKIND> A(na, 2); for (int i = 0; i < na; ++i) A.set(i, va[i]); auto a = A.view(); \
      for (int j = 0; j < nb; ++j) { TB b = vb[j]; \
        check<RES>(NAME, VE, na, [&](int i) { TA x = va[i]; TB y = b; return RES(SE); }, [&](int i) { return mg(va[i]) * mg(b) + mg(b) + mg(va[i]); }); } A.bits("operand", NAME); } \
    if (FORM == 2) { Opd<TB, SUBKIND> B(nb, 3); for (int i = 0; i < nb; ++i) B.set(i, vb[i]); auto b = B.view(); \
      for (int j = 0; j < na; ++j) { TA a = va[j]; \
        check<RES>(NAME, VE, nb, [&](int i) { TA x = a; TB y = vb[i]; return RES(SE); }, [&](int i) { return mg(vb[i]) * mg(a) + mg(a) + mg(vb[i]); }); } B.bits("operand", NAME); } }
#define B2(NAME, TA, TB, RES, SETA, SETB, VE, SE) B1_(NAME, TA, TB, RES, SETA, SETB, VE, SE, 0) B1_(NAME, TA, TB, RES, SETA, SETB, VE, SE, 1) B1_(NAME, TA, TB, RES, SETA, SETB, VE, SE, 2)
#define B2v(NAME, TA, TB, RES, SETA, SETB, VE, SE) B1_(NAME, TA, TB, RES, SETA, SETB, VE, SE, 0)
// ternary: FORM bit k set: argument k is a scalar
#define T1_(NAME, TA, RES, SETA, VE, SE, FORM, DA, DB, DC) \
  if (mc::next()) { mc::desc("%s, %s operands, scalar arguments %d", NAME, SUBKIND ? "strided" : "whole", FORM); mc::nontrivial(); \
    auto va = values<TA>::SETA(); auto vb = values<T>::few(); auto vc = values<T>::few(); int na = va.size(), nb = vb.size(), nc = vc.size(), n = na * nb * nc; \
    for (int s = 0; s < (FORM ? n : 1); ++s) { \
      auto fa = [&](int i) { return va[(FORM & 1 ? s : i) / (nb * nc)]; }; auto fb = [&](int i) { return vb[(FORM & 2 ? s : i) / nc % nb]; }; auto fc = [&](int i) { return vc[(FORM & 4 ? s : i) % nc]; }; \
      Opd<TA, SUBKIND> A(n, 2); Opd<T, SUBKIND> B(n, 3); Opd<T, SUBKIND> C(n, 4); for (int i = 0; i < n; ++i) { A.set(i, fa(i)); B.set(i, fb(i)); C.set(i, fc(i)); } \
      auto a = DA; auto b = DB; auto c = DC; \
      check<RES>(NAME, VE, n, [&](int i) { TA x = fa(i); T y = fb(i); T z = fc(i); return RES(SE); }, [&](int i) { return (1 + mg(fa(i))) * (1 + mg(fb(i))) * (1 + mg(fc(i))); }); \
      A.bits("operand", NAME); B.bits("operand", NAME); C.bits("operand", NAME); } }
#define T3(NAME, TA, RES, SETA, VE, SE) \
  T1_(NAME, TA, RES, SETA, VE, SE, 0, A.view(), B.view(), C.view()) T1_(NAME, TA, RES, SETA, VE, SE, 1, fa(0), B.view(), C.view()) \
  T1_(NAME, TA, RES, SETA, VE, SE, 2, A.view(), fb(0), C.view()) T1_(NAME, TA, RES, SETA, VE, SE, 4, A.view(), B.view(), fc(0)) \
  T1_(NAME, TA, RES, SETA, VE, SE, 3, fa(0), fb(0), C.view()) T1_(NAME, TA, RES, SETA, VE, SE, 5, fa(0), B.view(), fc(0)) \
  T1_(NAME, TA, RES, SETA, VE, SE, 6, A.view(), fb(0), fc(0))
// compound assignment; the destination is also an operand in form 1
#define CA(NAME, OP, TB, SETB) \
  for (int form = 0; form < 4; ++form) if (mc::next()) { mc::desc("%s %s, %s operands, form %d", NAME, #TB, SUBKIND ? "strided" : "whole", form); mc::nontrivial(); \
    auto va = values<T>::fin(); auto vb = values<TB>::SETB(); int na = va.size(), nb = vb.size(), n = na * nb; \
    Opd<T, SUBKIND> A(n, 2); Opd<TB, SUBKIND> B(n, 3); \
    for (int j = 0; j < (form == 1 ? nb : 1); ++j) { \
      for (int i = 0; i < n; ++i) { A.set(i, va[i / nb]); B.set(i, vb[i % nb]); } \
      auto a = A.view(); auto b = B.view(); \
      if (form == 0) a OP b; else if (form == 1) a OP vb[j]; else if (form == 2) a OP -b; else a OP (b * TB(2)); mc::step(); \
      for (int i = 0; i < n; ++i) { T x = va[i / nb]; TB y = form == 1 ? vb[j] : form == 2 ? TB(-vb[i % nb]) : form == 3 ? TB(vb[i % nb] * TB(2)) : vb[i % nb]; x OP y; T g = A.get(i); \
        if (!same(g, x, eps(R()), 2 * (mg(va[i / nb]) + 1) * (mg(y) + 1))) { mc::fail("value", "%s: element %d is %s, expected %s", NAME, i, mc::str(g).c_str(), mc::str(x).c_str()); break; } } \
      A.rest("outside", NAME); B.bits("operand", NAME); } }

#ifdef REALS
static void cases()
{
  U1("acos", T, any, acos(a), std::acos(x)) U1("asin", T, any, asin(a), std::asin(x)) U1("atan", T, any, atan(a), std::atan(x))
  U1("ceil", T, any, ceil(a), std::ceil(x)) U1("cos", T, fin, cos(a), std::cos(x)) U1("cosh", T, fin, cosh(a), std::cosh(x))
  U1("euler", std::complex<T>, fin, euler(a), std::complex<T>(std::cos(x), std::sin(x)))
  U1("exp", T, any, exp(a), std::exp(x)) U1("exp10", T, fin, exp10(a), std::pow(10., (double)x)) U1("floor", T, any, floor(a), std::floor(x))
  U1("is_finite", bool, any, is_finite(a), std::isfinite(x)) U1("is_nan", bool, any, is_nan(a), std::isnan(x)) U1("is_normal", bool, any, is_normal(a), std::isnormal(x))
  U1("log", T, any, log(a), std::log(x)) U1("log10", T, any, log10(a), std::log10(x)) U1("mag", T, any, mag(a), std::fabs(x)) U1("magsq", T, fin, magsq(a), x * x)
  U1("neg", T, any, neg(a), -x) U1("recip", T, any, recip(a), T(1) / x) U1("rsqrt", T, any, rsqrt(a), T(1) / std::sqrt(x)) U1("sin", T, fin, sin(a), std::sin(x))
  U1("sinh", T, fin, sinh(a), std::sinh(x)) U1("sq", T, fin, sq(a), x * x) U1("sqrt", T, any, sqrt(a), std::sqrt(x)) U1("tan", T, fin, tan(a), std::tan(x)) U1("tanh", T, any, tanh(a), std::tanh(x))
  U1("unary plus", T, any, +a, x) U1("unary minus", T, any, -a, -x) U1("view", T, any, a, x)
  B2("add", T, T, T, any, any, add(a, b), x + y) B2("+", T, T, T, any, any, a + b, x + y) B2("sub", T, T, T, any, any, sub(a, b), x - y) B2("-", T, T, T, any, any, a - b, x - y)
  B2("mul", T, T, T, any, any, mul(a, b), x * y) B2("*", T, T, T, any, any, a * b, x * y) B2("div", T, T, T, any, any, div(a, b), x / y) B2("/", T, T, T, any, any, a / b, x / y)
  B2("atan2", T, T, T, any, any, atan2(a, b), std::atan2(x, y)) B2("fmod", T, T, T, fin, fin, fmod(a, b), std::fmod(x, y)) B2("hypot", T, T, T, fin, fin, hypot(a, b), std::sqrt((double)x * x + (double)y * y))
  B2("pow", T, T, T, fin, fin, pow(a, b), std::pow(x, y))
  B2("max", T, T, T, fin, fin, max(a, b), (x > y ? x : y)) B2("min", T, T, T, fin, fin, min(a, b), (x < y ? x : y))
  B2("maxmg", T, T, T, fin, fin, maxmg(a, b), std::max(std::fabs(x), std::fabs(y))) B2("minmg", T, T, T, fin, fin, minmg(a, b), std::min(std::fabs(x), std::fabs(y)))
  B2("maxmgsq", T, T, T, fin, fin, maxmgsq(a, b), std::max(x * x, y * y)) B2("minmgsq", T, T, T, fin, fin, minmgsq(a, b), std::min(x * x, y * y))
  B2("eq", T, T, bool, any, any, eq(a, b), x == y) B2("ne", T, T, bool, any, any, ne(a, b), x != y) B2("lt", T, T, bool, any, any, lt(a, b), x < y)
  B2("le", T, T, bool, any, any, le(a, b), x <= y) B2("gt", T, T, bool, any, any, gt(a, b), x > y) B2("ge", T, T, bool, any, any, ge(a, b), x >= y)
  B2("==", T, T, bool, any, any, a == b, x == y) B2("!=", T, T, bool, any, any, a != b, x != y) B2("<", T, T, bool, any, any, a < b, x < y)
  B2("<=", T, T, bool, any, any, a <= b, x <= y) B2(">", T, T, bool, any, any, a > b, x > y) B2(">=", T, T, bool, any, any, a >= b, x >= y)
  B2("int + real", int, T, T, few, fin, a + b, T(x) + y) B2("int * real", int, T, T, few, fin, a * b, T(x) * y) B2("real - int", T, int, T, fin, few, a - b, x - T(y)) B2("real / int", T, int, T, fin, few, a / b, x / T(y))
  B2("real + complex", T, std::complex<T>, std::complex<T>, fin, fin, a + b, x + y) B2("real * complex", T, std::complex<T>, std::complex<T>, fin, fin, a * b, x * y)
  B2("real - complex", T, std::complex<T>, std::complex<T>, fin, fin, a - b, x - y) B2("complex / real", std::complex<T>, T, std::complex<T>, few, few, a / (b + T(8)), x / (y + T(8)))
  B2("complex - real", std::complex<T>, T, std::complex<T>, fin, fin, a - b, x - y)
  B2("float + double", float, double, double, fin, fin, a + b, double(x) + y) B2("double * float", double, float, double, fin, fin, a * b, x * double(y)) B2("double - float", double, float, double, fin, fin, a - b, x - double(y))
  T3("am", T, T, few, am(a, b, c), (x + y) * z) T3("expoavg", T, T, few, expoavg(a, b, c), x * y + (1 - x) * z) T3("ma", T, T, few, ma(a, b, c), x * y + z)
  T3("msb", T, T, few, msb(a, b, c), x * y - z) T3("sbm", T, T, few, sbm(a, b, c), (x - y) * z)
  CA("+=", +=, T, fin) CA("-=", -=, T, fin) CA("*=", *=, T, fin) CA("/=", /=, T, fin) CA("+= int", +=, int, few) CA("*= int", *=, int, few)
  U1("impl_conj", T, any, impl_conj(a), x) U1("impl_real", T, any, impl_real(a), x) U1("impl_imag", T, fin, impl_imag(a), 0)
  U1("view_cast int", int, few, ovxx::view_cast<int>(a), (int)x) U1("view_cast double", double, fin, ovxx::view_cast<double>(a), x) U1("view_cast float", float, fin, ovxx::view_cast<float>(a), x)
}
#endif
#ifdef ITES
static void cases()
{
  T1_("ite", bool, T, few, ite(a, b, c), (x ? y : z), 0, A.view(), B.view(), C.view()) T1_("ite", bool, T, few, ite(a, b, c), (x ? y : z), 2, A.view(), fb(0), C.view())
  T1_("ite", bool, T, few, ite(a, b, c), (x ? y : z), 4, A.view(), B.view(), fc(0)) T1_("ite", bool, T, few, ite(a, b, c), (x ? y : z), 6, A.view(), fb(0), fc(0))
  T1_("ite of a comparison", T, T, few, ite(a > b, b, c), (x > y ? y : z), 0, A.view(), B.view(), C.view()) T1_("ite of expressions", T, T, few, ite(a != b, b + c, a * c), (x != y ? y + z : x * z), 0, A.view(), B.view(), C.view())
}
#endif
#ifdef COMPLEXES
static void cases()
{
  typedef R U;
  U1("arg", U, fin, arg(a), std::atan2(x.imag(), x.real())) U1("conj", T, fin, conj(a), T(x.real(), -x.imag())) U1("cos", T, fin, cos(a), std::cos(x)) U1("cosh", T, fin, cosh(a), std::cosh(x))
  U1("exp", T, fin, exp(a), std::exp(x)) U1("imag", U, fin, imag(a), x.imag()) U1("real", U, fin, real(a), x.real())
  U1("is_finite", bool, any, is_finite(a), std::isfinite(x.real()) && std::isfinite(x.imag())) U1("is_nan", bool, any, is_nan(a), std::isnan(x.real()) || std::isnan(x.imag()))
  U1("is_normal", bool, any, is_normal(a), std::isnormal(x.real()) && std::isnormal(x.imag()))
  U1("log", T, fin, log(a), std::log(x)) U1("log10", T, fin, log10(a), std::log10(x)) U1("mag", U, fin, mag(a), std::abs(x)) U1("magsq", U, fin, magsq(a), x.real() * x.real() + x.imag() * x.imag())
  U1("neg", T, fin, neg(a), -x) U1("recip", T, fin, recip(a), T(1) / x) U1("rsqrt", T, fin, rsqrt(a), T(1) / std::sqrt(x)) U1("sin", T, fin, sin(a), std::sin(x)) U1("sinh", T, fin, sinh(a), std::sinh(x))
  U1("sq", T, fin, sq(a), x * x) U1("sqrt", T, fin, sqrt(a), std::sqrt(x)) U1("tan", T, fin, tan(a), std::tan(x)) U1("tanh", T, fin, tanh(a), std::tanh(x))
  U1("unary plus", T, fin, +a, x) U1("unary minus", T, fin, -a, -x) U1("view", T, fin, a, x)
  U1("impl_conj", T, fin, impl_conj(a), std::conj(x)) U1("impl_real", U, fin, impl_real(a), x.real()) U1("impl_imag", U, fin, impl_imag(a), x.imag())
  B2("add", T, T, T, fin, fin, add(a, b), x + y) B2("+", T, T, T, fin, fin, a + b, x + y) B2("sub", T, T, T, fin, fin, sub(a, b), x - y) B2("-", T, T, T, fin, fin, a - b, x - y)
  B2("mul", T, T, T, fin, fin, mul(a, b), x * y) B2("*", T, T, T, fin, fin, a * b, x * y) B2("div", T, T, T, fin, fin, div(a, b), x / y) B2("/", T, T, T, fin, fin, a / b, x / y)
  B2("jmul", T, T, T, fin, fin, jmul(a, b), x * std::conj(y)) B2("pow", T, T, T, fin, few, pow(a, b), std::pow(x, y))
  B2("maxmg", T, T, U, fin, fin, maxmg(a, b), std::max(std::abs(x), std::abs(y))) B2("minmg", T, T, T, fin, fin, minmg(a, b), T(std::min(std::abs(x), std::abs(y))))
  B2("maxmgsq", T, T, U, fin, fin, maxmgsq(a, b), std::max(std::norm(x), std::norm(y))) B2("minmgsq", T, T, U, fin, fin, minmgsq(a, b), std::min(std::norm(x), std::norm(y)))
  B2("eq", T, T, bool, fin, fin, eq(a, b), x == y) B2("ne", T, T, bool, fin, fin, ne(a, b), x != y) B2("==", T, T, bool, fin, fin, a == b, x == y) B2("!=", T, T, bool, fin, fin, a != b, x != y)
  B2("complex + real", T, U, T, fin, fin, a + b, x + y) B2("real - complex", U, T, T, fin, fin, a - b, x - y) B2("complex * real", T, U, T, fin, fin, a * b, x * y) B2("real / complex", U, T, T, fin, fin, a / b, x / y)
  B2v("mag of both", T, T, U, fin, fin, mag(a) + mag(b), std::abs(x) + std::abs(y)) B2v("real and imag", T, T, U, fin, fin, real(a) * imag(b), x.real() * y.imag())
  T3("am", T, T, few, am(a, b, c), (x + y) * z) T3("expoavg", T, T, few, expoavg(a, b, c), x * y + (T(1) - x) * z) T3("ma", T, T, few, ma(a, b, c), x * y + z)
  T3("msb", T, T, few, msb(a, b, c), x * y - z) T3("sbm", T, T, few, sbm(a, b, c), (x - y) * z)
  CA("+=", +=, T, fin) CA("-=", -=, T, fin) CA("*=", *=, T, fin) CA("/=", /=, T, fin) CA("+= real", +=, U, few) CA("*= real", *=, U, few) CA("-= real", -=, U, few)
}
#endif
#ifdef INTS
static void cases()
{
  U1("bnot", T, fin, bnot(a), ~x) U1("mag", T, fin, mag(a), std::abs(x)) U1("magsq", T, few, magsq(a), x * x) U1("neg", T, fin, neg(a), -x) U1("sq", T, few, sq(a), x * x) U1("minus", T, fin, -a, -x) U1("plus", T, fin, +a, x)
  B2("+", T, T, T, fin, fin, a + b, x + y) B2("-", T, T, T, fin, fin, a - b, x - y) B2("*", T, T, T, few, few, a * b, x * y) B2("/", T, T, T, fin, fin, a / (b * 2 + 1), x / (y * 2 + 1))
  B2("add", T, T, T, fin, fin, add(a, b), x + y) B2("sub", T, T, T, fin, fin, sub(a, b), x - y) B2("mul", T, T, T, few, few, mul(a, b), x * y)
  B2("band", T, T, T, fin, fin, band(a, b), x & y) B2("bor", T, T, T, fin, fin, bor(a, b), x | y) B2("bxor", T, T, T, fin, fin, bxor(a, b), x ^ y)
  B2("&", T, T, T, fin, fin, a & b, x & y) B2("|", T, T, T, fin, fin, a | b, x | y) B2("^", T, T, T, fin, fin, a ^ b, x ^ y)
  B2("land", T, T, bool, fin, fin, land(a, b), x && y) B2("lor", T, T, bool, fin, fin, lor(a, b), x || y) B2("lxor", T, T, bool, fin, fin, lxor(a, b), !x != !y)
  B2("max", T, T, T, fin, fin, max(a, b), std::max(x, y)) B2("min", T, T, T, fin, fin, min(a, b), std::min(x, y))
  B2("eq", T, T, bool, fin, fin, eq(a, b), x == y) B2("ne", T, T, bool, fin, fin, ne(a, b), x != y) B2("lt", T, T, bool, fin, fin, lt(a, b), x < y) B2("le", T, T, bool, fin, fin, le(a, b), x <= y)
  B2("gt", T, T, bool, fin, fin, gt(a, b), x > y) B2("ge", T, T, bool, fin, fin, ge(a, b), x >= y)
  T3("am", T, T, few, am(a, b, c), (x + y) * z) T3("ma", T, T, few, ma(a, b, c), x * y + z) T3("msb", T, T, few, msb(a, b, c), x * y - z) T3("sbm", T, T, few, sbm(a, b, c), (x - y) * z)
  CA("+=", +=, T, fin) CA("-=", -=, T, fin) CA("*=", *=, T, few) CA("&=", &=, T, fin) CA("|=", |=, T, fin) CA("^=", ^=, T, fin)
}
#endif
#ifdef BOOLS
static void cases()
{
  U1("lnot", bool, fin, lnot(a), !x)
  B2("land", T, T, bool, fin, fin, land(a, b), x && y) B2("lor", T, T, bool, fin, fin, lor(a, b), x || y) B2("lxor", T, T, bool, fin, fin, lxor(a, b), x != y)
  B2("&&", T, T, bool, fin, fin, a && b, x && y) B2("||", T, T, bool, fin, fin, a || b, x || y) B2("^", T, T, bool, fin, fin, a ^ b, x != y)
  B2("==", T, T, bool, fin, fin, a == b, x == y) B2("!=", T, T, bool, fin, fin, a != b, x != y) B2("&", T, T, bool, fin, fin, a & b, x && y) B2("|", T, T, bool, fin, fin, a | b, x || y)
}
#endif
int main(int argc, char **argv) { init(); return mc::run(argc, argv, cases); }
