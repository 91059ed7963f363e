// C16: every expression tree up to depth two (with every kind of leaf), further fused
// shapes, over every placement of operands and destination; user element functions;
// conversions on assignment.
#include "seq.hpp"
using namespace seq;
typedef ET T;
typedef cplx<T>::real R;
static double const tol = sizeof(R) == 8 ? 1e-12 : 4e-6;

static int const NOP = 4;
static T leafval(int op, int i) { static long const m[NOP] = {3, 5, 7, 2}; long k = (i * m[op] + op * 11) % 9 - 4; if (k == 0) k = 5; return val<T>::of(k) * T(op == 3 ? 0.5 : 0.25); }

// operands: views with the elements' row-major values; a view, the values, and the root for checking
template <typename Q> static double nrm(Q x) { return std::abs(std::complex<double>(comp(x, 0), cplx<Q>::value ? comp(x, 1) : 0)); }
template <typename RR> static void check_result(RR &d, std::vector<long> const &pos, std::vector<typename RR::value_type> const &want, std::vector<double> const &scale, char const *what)
{
  for (size_t l = 0; l < pos.size(); ++l)
  {
    long p = d.pos(pos[l]);
    typename RR::value_type g = RR::mk(d.raw(p, 0), d.C() > 1 ? d.raw(p, 1) : typename RR::R());
    if (!(nrm(g - want[l]) <= tol * (1 + scale[l]))) { mc::fail("value", "%s: element %ld is %s, expected %s", what, (long)l, mc::str(g).c_str(), mc::str(want[l]).c_str()); return; }
    for (int c = 0; c < d.C(); ++c) d.exp_raw(p, c) = d.raw(p, c);
  }
  d.check("outside", what);
}

// A placed view: a view type over a root, with the row-major list of root positions
#ifndef ORDER_A
#define ORDER_A row2_type
#define ORDER_B col2_type
#define ORDER_D row2_type
#endif
template <typename O> using RT = Root<DIM, T, Layout<DIM, O, PACK, FORMAT> >;

static void sizes_of(int c, int *n) { static int const s1[] = {1, 2, 3, 4, 5, 8, 17, 64}; static int const s2[][3] = {{1, 1, 1}, {1, 4, 1}, {4, 1, 3}, {3, 5, 2}, {4, 4, 3}, {5, 3, 2}, {2, 8, 2}, {9, 17, 3}}; for (int k = 0; k < 3; ++k) n[k] = DIM == 1 ? (k ? 1 : s1[c]) : k < DIM ? s2[c][k] : 1; }

struct Setup
{
  int n[3]; long count;
  RT<ORDER_A> a; RT<ORDER_B> b; RT<ORDER_A> c; RT<ORDER_D> d;
  std::vector<long> pos;
  static int *sz(int c) { static int n[3]; sizes_of(c, n); return n; }
  explicit Setup(int cs) : a(sz(cs)), b(sz(cs)), c(sz(cs)), d(sz(cs))
  { sizes_of(cs, n); count = a.count; for (long l = 0; l < count; ++l) pos.push_back(l); fill(); }
  void fill() { fill(a, 0); fill(b, 1); fill(c, 2); d.reset(9); }
  template <typename RR> void fill(RR &r, int op) { r.reset(op); for (long l = 0; l < r.count; ++l) { r.set(l, leafval(op, l)); long p = r.pos(l); for (int k = 0; k < r.C(); ++k) r.raw(p, k) = r.exp_raw(p, k); } }
  template <typename F> void reference(F f, std::vector<T> &w, std::vector<double> &s)
  { for (long l = 0; l < count; ++l) { double sc = 0; w.push_back(f(leafval(0, l), leafval(1, l), leafval(2, l), sc)); s.push_back(sc + nrm(w.back())); } }
  void operands(char const *what) { a.check("operand", what); b.check("operand", what); c.check("operand", what); }
};
// tracks the magnitude of intermediate values, so that cancellation does not matter
struct Tr { T v; double m; Tr(T x) : v(x), m(nrm(x)) {} Tr(T x, double k) : v(x), m(k) {} };
static Tr operator+(Tr x, Tr y) { return Tr(x.v + y.v, x.m + y.m); }
static Tr operator-(Tr x, Tr y) { return Tr(x.v - y.v, x.m + y.m); }
static Tr operator*(Tr x, Tr y) { return Tr(x.v * y.v, x.m * y.m); }
static Tr operator/(Tr x, Tr y) { double k = nrm(y.v); return Tr(x.v / y.v, (x.m / k) * (y.m / k)); }
static Tr operator-(Tr x) { return Tr(-x.v, x.m); }
static Tr operator+(Tr x) { return x; }
static Tr sq(Tr x) { return x * x; }
using vsip::sq;
static Tr ma(Tr x, Tr y, Tr z) { return x * y + z; }
static Tr am(Tr x, Tr y, Tr z) { return (x + y) * z; }
static Tr sbm(Tr x, Tr y, Tr z) { return (x - y) * z; }
static Tr msb(Tr x, Tr y, Tr z) { return x * y - z; }
static Tr expoavg(Tr x, Tr y, Tr z) { return x * y + (Tr(T(1)) - x) * z; }
using vsip::ma; using vsip::am; using vsip::sbm; using vsip::msb; using vsip::expoavg;
static Tr mul(Tr x, Tr y) { return x * y; }
static Tr add(Tr x, Tr y) { return x + y; }
using vsip::mul; using vsip::add;
static T const S1 = val<T>::of(3) * T(0.5), S2 = val<T>::of(-2);

// one expression: EXPR in terms of a, b, c, s, t over views or Tr
template <typename V, typename W> static void evaluate(char const *name, Setup &s, V ve, W se, int mode)
{
  auto d = s.d.view(); auto a = s.a.view(); auto b = s.b.view(); auto c = s.c.view();
  s.fill();
  std::vector<T> w; std::vector<double> sc;
  for (long l = 0; l < s.count; ++l)
  {
    Tr r = se(Tr(leafval(0, l)), Tr(leafval(1, l)), Tr(leafval(2, l)), Tr(S1), Tr(S2));
    T old = s.d.expect(l); double m = r.m;
    if (mode == 1) { r = Tr(old) + r; } if (mode == 2) { r = Tr(old) * r; } if (mode == 3) r = Tr(old) - r;
    w.push_back(r.v); sc.push_back(r.m);
  }
  if (mode == 0) d = ve(a, b, c, S1, S2); else if (mode == 1) d += ve(a, b, c, S1, S2); else if (mode == 2) d *= ve(a, b, c, S1, S2); else d -= ve(a, b, c, S1, S2);
  mc::step();
  check_result(s.d, s.pos, w, sc, name);
  s.operands(name);
  // reading single elements of the expression
  if (mode == 0)
  {
    auto e = ve(a, b, c, S1, S2);
    long k = 0;
    for (Iter it(DIM, s.n); it.more(); it.next()) { T g = at<DIM>::get(e, it.i); if (!(nrm(g - w[k]) <= tol * (1 + sc[k]))) { mc::fail("get", "%s: get of element %ld is %s, expected %s", name, k, mc::str(g).c_str(), mc::str(w[k]).c_str()); break; } ++k; }
    mc::step();
  }
  mc::outcome(s.d.hash());
}
#ifndef MODES
#define MODES 2
#endif
#define E(EXPR) \
  if (mc::next()) { mc::desc("%d-D %s, every size", DIM, #EXPR); mc::nontrivial(); \
    for (int cs = 0; cs < 8; ++cs) { Setup su(cs); mc::more(", size %s", show(DIM, su.n).c_str()); for (int m = 0; m < MODES; ++m) \
      evaluate(#EXPR, su, [](auto const &a, auto const &b, auto const &c, T s, T t) { (void)a; (void)b; (void)c; return EXPR; }, [](Tr a, Tr b, Tr c, Tr s, Tr t) { return EXPR; }, m); } }

#define LEAFS(M, OP) M(OP, a) M(OP, s) M(OP, -b) M(OP, sq(b)) M(OP, (a + b)) M(OP, (a - s)) M(OP, (a * b)) M(OP, (s * b)) M(OP, (b / s)) M(OP, (a * b + c))
#define RIGHT(OP, L) E(L OP c) E(L OP t) E(L OP (-c)) E(L OP (b + c)) E(L OP (c - t)) E(L OP (b * c)) E(L OP (c * t)) E(L OP (t / c)) E(L OP (b * c + a))
#define RIGHT_S(OP, L) E(L OP c) E(L OP (-c)) E(L OP (b + c)) E(L OP (c - t)) E(L OP (b * c)) E(L OP (c * t)) E(L OP (t / c)) E(L OP (b * c + a))

static void cases()
{
#if defined PLUS
  RIGHT(+, a) RIGHT_S(+, s) RIGHT(+, (-b)) RIGHT(+, sq(b)) RIGHT(+, (a + b)) RIGHT(+, (a - s)) RIGHT(+, (a * b)) RIGHT(+, (s * b)) RIGHT(+, (b / s)) RIGHT(+, (a * b + c)) RIGHT(+, (a + b * c))
#elif defined MINUS
  RIGHT(-, a) RIGHT_S(-, s) RIGHT(-, (-b)) RIGHT(-, sq(b)) RIGHT(-, (a + b)) RIGHT(-, (a - s)) RIGHT(-, (a * b)) RIGHT(-, (s * b)) RIGHT(-, (b / s)) RIGHT(-, (a * b + c)) RIGHT(-, (a + b * c))
#elif defined TIMES
  RIGHT(*, a) RIGHT_S(*, s) RIGHT(*, (-b)) RIGHT(*, sq(b)) RIGHT(*, (a + b)) RIGHT(*, (a - s)) RIGHT(*, (a * b)) RIGHT(*, (s * b)) RIGHT(*, (b / s)) RIGHT(*, (a * b + c)) RIGHT(*, (a + b * c))
#else
  E(a) E(-a) E(+a) E(a + b) E(a - b) E(a * b) E(b / a) E(a + s) E(s - a) E(s * a) E(a / s) E(s / a) E(sq(a)) E(a / b + c)
  E(a * b + c) E(a + b * c) E(a * b + b * c) E(a * s + c) E(s * a + c) E(a + b * s) E(s + a * b) E(a * b + s) E(s * a + t * b) E(a * s + b * t)
  E((a * b + c) * b + a) E(a + (b * c + b)) E((a * b) * (b * c) + (a * c) * c) E(a * (b + c * (a + b * c))) E((a * b + c * a) + (b * c + a * a)) E(((a + b) * c + s) * t + a * (b - c) * s)
  E(a * b + c * s + t * a) E((a * b + c) + (a + b * c)) E(-(a * b + c)) E(-(a + b) * -(b + c)) E(sq(a * b + c)) E((a + b) / (sq(c) + s))
  E(ma(a, b, c)) E(am(a, b, c)) E(sbm(a, b, c)) E(msb(a, b, c)) E(expoavg(a, b, c)) E(ma(a, s, c)) E(ma(s, b, c)) E(ma(a, b, t)) E(am(a, s, c)) E(am(a, b, t)) E(sbm(s, b, c)) E(msb(a, b, t)) E(expoavg(s, b, c))
  E(ma(a + b, b * c, c - s)) E(am(a, b, c) + ma(b, c, a)) E(ma(a, b, ma(b, c, am(a, b, c)))) E(mul(a, b) + c) E(add(mul(a, b), c)) E(mul(add(a, b), c)) E(a * a + a) E(a * a + a * a)
#endif
}
int main(int argc, char **argv) { init(); return mc::run(argc, argv, cases); }
