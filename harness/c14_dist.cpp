// C14: multiple FFTs of distributed matrices.
#include "par.hpp"
#include <vsip/signal.hpp>
#ifndef KIND
# define KIND 0
#endif
#ifndef AXIS
# define AXIS 0   // 0: every row, 1: every column
#endif
using namespace par;
typedef std::complex<ET> C;
#if KIND < 2
typedef C I_; typedef C O_;
#elif KIND == 2
typedef ET I_; typedef C O_;
#else
typedef C I_; typedef ET O_;
#endif
static int const DIR = KIND == 0 || KIND == 2 ? fft_fwd : fft_inv;
template <return_mechanism_type R> using Obj = Fftm<I_, O_, AXIS, DIR, R, 1, alg_time>;
typedef std::complex<double> CD;
static long noise(long l, long salt) { unsigned long long h = (l * 2654435761ull + salt * 977 + 5) * 0x9E3779B97F4A7C15ull; return (long)((h >> 40) % 33) - 16; }
struct Data
{
  int n[2], ni[2], no[2]; std::vector<CD> in, out;
  Data(int a, int b, double scale, long salt) : n{a, b}, ni{a, b}, no{a, b}
  {
    int S = 1 - AXIS, N = n[S], m = n[1 - S];
    if (KIND == 2) no[S] = N / 2 + 1;
    if (KIND == 3) ni[S] = N / 2 + 1;
    in.resize(ni[0] * ni[1]); out.resize(no[0] * no[1]);
    double const pi = acos(-1.0);
    for (int k = 0; k < m; ++k)
    {
      std::vector<CD> x(N), y(N);
      for (int i = 0; i < N; ++i) x[i] = CD(noise(k * N + i, salt), KIND < 2 ? noise(k * N + i, salt + 9) : 0);
      int e = KIND == 1 ? 1 : -1;
      for (int f = 0; f < N; ++f) for (int i = 0; i < N; ++i) y[f] += x[i] * std::polar(1.0, e * 2 * pi * (f * i % N) / N);
      for (int i = 0; i < ni[S]; ++i)
      {
        CD v = KIND == 3 ? y[i] : x[i];
        if (KIND == 3 && 2 * i % N == 0) v = v.real();
        in[at(ni, k, i)] = v;
      }
      for (int i = 0; i < no[S]; ++i) out[at(no, k, i)] = (KIND == 3 ? x[i] * double(N) : y[i]) * scale;
    }
  }
  static int at(int const *s, int k, int i) { return AXIS == 0 ? k * s[1] + i : i * s[1] + k; }
};
static ET cv(CD v, ET) { return v.real(); }
static C cv(CD v, C) { return C(v.real(), v.imag()); }
template <typename W> static void put(W &v, Data const &d, int const *s)
{ auto lv = v.view.local(); v.each([&](long, int *g, int *l) { lv.put(l[0], l[1], cv(d.in[g[0] * s[1] + g[1]], I_())); }); }
template <typename W> static void chk(W &v, std::vector<CD> const &w, char const *key)
{
  typedef typename W::view_type::value_type Q;
  v.check_extent();
  auto lv = v.view.local(); bool ok = true;
  v.each([&](long, int *g, int *l)
  {
    Q x = lv.get(l[0], l[1]); CD e = w[g[0] * v.sh.n[1] + g[1]];
    unsigned long long h = fk::hash(&x, sizeof x, 3); fk::outcome(h);
    if (ok && !(std::abs(CD(x) - e) <= 2e-4)) { ok = false; std::ostringstream o; o << x << ", expected " << e; fk::fail(key, "element %d,%d is %s", g[0], g[1], o.str().c_str()); }
  });
}
template <typename OI, typename MI, typename OO, typename MO> struct Run
{
  typedef DV<2, I_, OI, MI> In; typedef DV<2, O_, OO, MO> Out;
  static void value(int a, int b, Spec x, Spec y)
  {
    Data d(a, b, 0.5, 3);
    Shape<2> si = {{d.ni[0], d.ni[1]}}, so = {{d.no[0], d.no[1]}};
    In in(si, x); Out out(so, y); put(in, d, d.ni); out.fill(700);
    Obj<by_value> f(Domain<2>(a, b), 0.5);
    out.view = f(in.view); chk(out, d.out, "by value"); chk(in, d.in, "input");
    Data e(a, b, 0.5, 11); put(in, e, e.ni);
    out.view = f(in.view); chk(out, e.out, "reuse");
  }
  static void ref(int a, int b, Spec x, Spec y)
  {
    Data d(a, b, 0.5, 3);
    Shape<2> si = {{d.ni[0], d.ni[1]}}, so = {{d.no[0], d.no[1]}};
    In in(si, x); Out out(so, y); put(in, d, d.ni); out.fill(700);
    Obj<by_reference> f(Domain<2>(a, b), 0.5);
    f(in.view, out.view); chk(out, d.out, "by reference"); chk(in, d.in, "input");
    Data e(a, b, 0.5, 11); put(in, e, e.ni);
    f(in.view, out.view); chk(out, e.out, "reuse");
    inpl(f, in, d, e, std::integral_constant<bool, (KIND < 2)>());
  }
  template <typename F> static void inpl(F &f, In &in, Data &d, Data &e, std::true_type)
  { put(in, d, d.ni); f(in.view); chk(in, d.out, "in place"); put(in, e, e.ni); f(in.view); chk(in, e.out, "in place again"); }
  template <typename F> static void inpl(F &, In &, Data &, Data &, std::false_type) {}
  static bool whole(Spec const &s) { return s.repl || s.d[1 - AXIS].nsb == 1; }
  static void all(std::string const &name, bool byref, bool t)
  {
    static int const sh[][2] = {{4, 8}, {5, 3}, {1, 4}, {2, 6}, {8, 4}, {3, 1}};
    for (auto const &s : sh) for (auto x : specs<MI>(2, {1, 2}, false)) for (auto y : specs<MO>(2, {1, 2}, false))
    {
      if (!whole(x) || &s - sh >= (t ? 6 : 4)) continue;
      std::string d = std::string(KIND == 0 ? "forward" : KIND == 1 ? "inverse" : KIND == 2 ? "real-to-complex" : "complex-to-real") + (AXIS ? " of columns " : " of rows ") + name + " " + std::to_string(s[0]) + "x" + std::to_string(s[1]) + " " + show(x, 2) + " to " + show(y, 2);
      if (show(x, 2) != show(y, 2)) continue;   // refused (unimplemented)
      if (!byref) par::add("Fftm by value " + d, [=]() { value(s[0], s[1], x, y); });
      else par::add("Fftm by reference " + d, [=]() { ref(s[0], s[1], x, y); });
    }
  }
};
static void enumerate(bool t)
{
  typedef Map<Block_dist, Block_dist> BB; typedef Map<Cyclic_dist, Cyclic_dist> CC; typedef Replicated_map<2> R;
#if AXIS == 0
  typedef Map<Block_dist, Whole_dist> BW; typedef Map<Cyclic_dist, Whole_dist> CW;
#else
  typedef Map<Whole_dist, Block_dist> BW; typedef Map<Whole_dist, Cyclic_dist> CW;
#endif
#ifndef BYREF
# define BYREF 0
#endif
  bool const r = BYREF;
  Run<row2_type, BB, row2_type, BB>::all("row, row", r, t);
  Run<row2_type, BW, col2_type, BW>::all("row, column", r, t);
  Run<col2_type, CW, row2_type, CW>::all("column, row", r, t);
  Run<row2_type, R, row2_type, R>::all("row, row", r, t);
}
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
