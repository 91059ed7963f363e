// C16: expressions over every placement of operands and destination (parts, lines, planes,
// transposes, components); conversions on assignment; user element functions; operands that
// are also the destination.
#include "place.hpp"
#include <ovxx/view/cast.hpp>
template <typename P, typename F, typename S> static bool check(P &d, char const *what, F want, S)
{
  for (size_t l = 0; l < d.pos.size(); ++l)
  {
    auto w = want(l); auto g = d.get(l);
    if (!(nrm(g - w) <= tol * (1 + 4 * nrm(w) + 64))) { mc::fail("value", "%s: element %d is %s, expected %s", what, (int)l, mc::str(g).c_str(), mc::str(w).c_str()); return false; }
    mc::outcome(mc::hash(&g, sizeof g));
    d.accept(l);
  }
  mc::step();
  return d.r.check("outside", what);
}
static T twice(T x) { return x * T(2) + T(1); }
static T mix2(T x, T y) { return x * T(3) - y; }
static T mix3(T x, T y, T z) { return x * T(3) - y + z * T(0.5); }
struct Scale { T k; T operator()(T x) const { return x * k; } };
struct Lin { T k; typedef T result_type; typedef T first_argument_type; typedef T second_argument_type; T operator()(T x, T y) const { return x * k + y; } };
struct Lin3 { T k; T operator()(T x, T y, T z) const { return x * k + y - z; } };

template <typename PA, typename PB, typename PD> static void pair(int n0, int n1)
{
  if (!mc::next()) return;
  mc::desc("%s = f(%s, %s), %dx%d", PD::name(), PA::name(), PB::name(), n0, n1); mc::nontrivial();
  PA pa(n0, n1); PB pb(n0, n1); PD pd(n0, n1);
  T const s = val<T>::of(3) * T(0.5);
  auto go = [&](char const *what, auto run, auto ref)
  {
    pa.fill(1); pb.fill(2); pd.fill(3);
    std::vector<T> w; for (size_t l = 0; l < pd.pos.size(); ++l) w.push_back(ref(pa.get(l), pb.get(l), pd.get(l)));
    auto a = pa.view(); auto b = pb.view(); auto d = pd.view();
    run(a, b, d);
    check(pd, what, [&](long l) { return w[l]; }, 0);
    pa.r.check("operand", what); pb.r.check("operand", what);
  };
#define G(WHAT, RUN, REF) go(WHAT, [&](auto &a, auto &b, auto &d) { RUN; }, [&](T a, T b, T d) { (void)a; (void)b; (void)d; return T(REF); });
  G("d = a", d = a, a) G("d = a + b", d = a + b, a + b) G("d = a * s + b", d = a * s + b, a * s + b) G("d = s", d = s, s)
#ifndef LIGHT
  G("d += a", d += a, d + a) G("d -= a * b", d -= a * b, d - a * b) G("d *= s", d *= s, d * s) G("d = d * a + b", d = d * a + b, d * a + b) G("d = ma(a, b, d)", d = ma(a, b, d), a * b + d)
  G("d = sq(a) - b", d = sq(a) - b, a * a - b) G("d /= s", d /= s, d / s) G("d += s", d += s, d + s) G("d = -a", d = -a, -a)
  G("d = unary(f, a)", d = unary(twice, a), twice(a)) G("d = binary(f, a, b)", d = binary(mix2, a, b), mix2(a, b)) G("d = ternary(f, a, b, d)", d = ternary(mix3, a, b, d), mix3(a, b, d))
  G("d = unary<T>(object, a) + b", d = unary<T>(Scale{T(7)}, a) + b, a * T(7) + b) G("d = binary<T>(object, a, b)", (d = binary<T>(Lin{T(5)}, a, b)), a * T(5) + b) G("d = binary(object, b, a)", (d = binary(Lin{T(2)}, b, a)), b * T(2) + a)
  G("d += ternary<T>(object)", (d += ternary<T>(Lin3{T(5)}, a, b, a)), d + a * T(5) + b - a)
#endif
}
template <typename PA, typename PB, typename PD> static void sizes1() { static int const s[] = {1, 2, 3, 7, 16, 33, 100}; for (int n : s) pair<PA, PB, PD>(n, 1); }
template <typename PA, typename PB, typename PD> static void sizes2() { static int const s[][2] = {{1, 1}, {1, 5}, {4, 1}, {3, 4}, {4, 4}, {5, 3}, {9, 17}}; for (auto &x : s) pair<PA, PB, PD>(x[0], x[1]); }
template <typename A, typename B, typename D> struct In1 { static void go() { sizes1<A, B, D>(); } };
template <typename A, typename B, typename D> struct In2 { static void go() { sizes2<A, B, D>(); } };

// conversions: the value of the expression converted to the destination's element type
template <typename Q, typename U> struct conv { static Q of(U x) { return Q(x); } };
#ifdef CONVERSIONS
template <typename Q> static double dist(Q a, Q b) { return nrm(a - b); }
static double dist(bool a, bool b) { return a != b; }
template <typename Q, typename O> static void convert(char const *what)
{
  for (int sub = 0; sub < 2; ++sub) if (mc::next())
  {
    mc::desc("%s%s", what, sub ? ", parts" : ""); mc::nontrivial();
    int n[3] = {9, 1, 1};
    typedef Root<1, O, Layout<1, row1_type, dense, array> > RO; typedef Root<1, Q, Layout<1, row1_type, dense, array> > RQ;
    RO a(n); RQ d(n);
    auto val1 = [](int i) { return O(i * 7 % 9 - 4) * O(0.75); };
    for (int i = 0; i < 9; ++i) { a.set(i, val1(i)); long p = a.pos(i); for (int c = 0; c < a.C(); ++c) a.raw(p, c) = a.exp_raw(p, c); }
    auto va = a.view(); auto vd = d.view();
    auto run = [&](char const *w, auto f, auto ref)
    {
      d.reset(4); f(); mc::step();
      for (int i = 0; i < 9; ++i)
      {
        bool in = !sub || i % 2 == 0; long p = d.pos(i);
        if (in) { Q want = ref(sub ? 8 - i : i, i); Q g = RQ::mk(d.raw(p, 0), d.C() > 1 ? d.raw(p, 1) : typename RQ::R()); if (!(dist(g, want) <= 1e-5)) mc::fail("value", "%s %s: element %d is %s, expected %s", what, w, i, mc::str(g).c_str(), mc::str(want).c_str());
          for (int c = 0; c < d.C(); ++c) d.exp_raw(p, c) = d.raw(p, c); }
      }
      d.check("outside", w); a.check("operand", w);
    };
    Domain<1> ds(0, 2, 5), as(8, -2, 5);
    if (!sub)
    {
      run("d = a", [&] { vd = va; }, [&](int i, int) { return Q(val1(i)); });
      run("d = a + a", [&] { vd = va + va; }, [&](int i, int) { return Q(O(val1(i) + val1(i))); });
      run("d = s", [&] { vd = O(2.75); }, [&](int, int) { return Q(O(2.75)); });
      run("d = a * s", [&] { vd = va * O(0.75); }, [&](int i, int) { return Q(O(val1(i) * O(0.75))); });
    }
    else
    {
      run("d = a", [&] { vd(ds) = va(as); }, [&](int i, int) { return Q(val1(i)); });
      run("d = -a", [&] { vd(ds) = -va(as); }, [&](int i, int) { return Q(-val1(i)); });
      run("d = s", [&] { vd(ds) = O(-3.5); }, [&](int, int) { return Q(O(-3.5)); });
    }
  }
}
#endif

#ifdef CONVERSIONS
// operands of two types: the result has their promoted type
template <typename A, typename B, typename F, typename G> static void both(char const *what, F f, G g)
{
  if (!mc::next()) return;
  mc::desc("%s", what); mc::nontrivial();
  Vector<A> a(9); Vector<B> b(9); for (int i = 0; i < 9; ++i) { a.put(i, A(A(i * 5 % 9 - 3) / A(4) * A(1.1))); b.put(i, B(B(i * 7 % 9 + 1) / B(3) * B(0.7))); }
  auto e = f(a, b); typedef typename decltype(e)::value_type Q; Vector<Q> d(9, Q()); d = e; mc::step();
  for (int i = 0; i < 9; ++i) { Q w = g(a.get(i), b.get(i)); Q v = d.get(i), u = e.get(i); if (!(nrm(v - w) <= 1e-12 * (1 + nrm(w))) || !(nrm(u - w) <= 1e-12 * (1 + nrm(w)))) { mc::fail("value", "%s: element %d is %s, expected %s", what, i, mc::str(v).c_str(), mc::str(w).c_str()); break; } }
}
#define BOTH(w, x, y) both<A, B>((std::string(n) + " " + w).c_str(), [](auto a, auto b) { return x; }, [](auto a, auto b) { typedef typename vsip::Promotion<decltype(a), decltype(b)>::type P; return P(y); })
template <typename A, typename B> static void mixed(char const *n)
{
  BOTH("+", a + b, P(a) + P(b)); BOTH("-", a - b, P(a) - P(b)); BOTH("*", a * b, P(a) * P(b)); BOTH("/", a / b, P(a) / P(b));
}
template <typename A, typename B> static void mixedc(char const *n)
{
  BOTH("jmul", jmul(a, b), P(a) * std::conj(P(b)));
}
#endif
static void cases()
{
#if defined CONVERSIONS
  mixed<float, double>("float, double"); mixed<double, float>("double, float"); mixed<int, float>("int, float"); mixed<short, double>("short, double");
  mixedc<CFL, CDB>("complex<float>, complex<double>"); mixedc<CDB, CFL>("complex<double>, complex<float>");
  convert<int, float>("int = float"); convert<float, int>("float = int"); convert<double, float>("double = float"); convert<float, double>("float = double"); convert<double, int>("double = int"); convert<short, int>("short = int");
  convert<int, double>("int = double"); convert<CFL, float>("complex = float"); convert<CDB, double>("complex<double> = double"); convert<CDB, CFL>("complex<double> = complex<float>"); convert<int, short>("int = short"); convert<long, int>("long = int");
  convert<float, short>("float = short");
#elif defined COMPONENTS
  typedef list<realpart, imagpart, wholev, revv> L;
  loopD<In1>(list<realpart, imagpart, strided>(), L(), list<wholev, realpart>());
  loopD<In2>(list<mreal, mimag, mtrans>(), list<mreal, mimag, mrow, mcol>(), list<mcol, mimag>());
#elif DIM == 1
  typedef list<wholev, strided, revv, rowline, column, diagonal, rowpart, tensorline> L;
  loopD<In1>(L(), list<AP>(), list<wholev, revv, column>());
#else
  typedef list<mrow, mcol, msub, mtrans, mtransc, plane, planemid> L;
  loopD<In2>(L(), list<AP>(), list<mrow, mcol, msub>());
#endif
}
int main(int argc, char **argv) { init(); return mc::run(argc, argv, cases); }
