// C12: every history of apply, reset, copy and assignment of IIR objects.
#include "seq.hpp"
#include <vsip/signal.hpp>
using namespace seq;
typedef ET T;
typedef Root<1, T, Layout<1, row1_type, dense, FORMAT> > RR;
static T sample(long n) { long x = (n * 7919 + 13) % 7 - 3; return val<T>::of(x == 0 ? 4 : x); }

static double const tol = sizeof(cplx<T>::real) == 4 ? 1e-5 : 1e-12;
// a cascade of transposed direct-form sections (a different realisation of the same filter)
struct Model
{
  std::vector<T> b, a; bool save;
  std::vector<T> s1, s2;
  std::vector<double> m1, m2, bound;
  void reset() { s1.assign(a.size() / 2, T()); s2 = s1; m1.assign(a.size() / 2, 0); m2 = m1; }
  std::vector<T> apply(std::vector<T> const &in)
  {
    if (!save) reset();
    std::vector<T> out;
    for (T v : in)
    {
      for (size_t m = 0; m < s1.size(); ++m)
      {
        T y = b[3 * m] * v + s1[m];
        s1[m] = b[3 * m + 1] * v - a[2 * m] * y + s2[m];
        s2[m] = b[3 * m + 2] * v - a[2 * m + 1] * y;
        v = y;
      }
      out.push_back(v);
    }
    bound.clear();
    for (T x : in)
    {
      double v = mc::mag(x);
      for (size_t m = 0; m < s1.size(); ++m)
      {
        double y = mc::mag(b[3 * m]) * v + m1[m];
        m1[m] = mc::mag(b[3 * m + 1]) * v + mc::mag(a[2 * m]) * y + m2[m];
        m2[m] = mc::mag(b[3 * m + 2]) * v + mc::mag(a[2 * m + 1]) * y;
        v = y;
      }
      bound.push_back(v);
    }
    return out;
  }
};
// coefficient sets: integers, so both realisations are exact
static int const cb[][3] = {{1, 0, 0}, {2, -1, 3}, {1, 2, 1}, {0, 1, -2}, {3, 1, 0}, {-1, 0, 2}, {1, -1, 0}, {1, 0, 1}, {0, 2, -1}, {1, 1, -1}};
// the last four are stable, for many sections and long frames
static double const ca[][2] = {{0, 0}, {1, -1}, {-1, 0}, {0, 1}, {1, 1}, {-1, 1}, {0.5, 0.25}, {-0.5, 0.25}, {0.25, -0.5}, {-0.5, -0.125}};

template <obj_state C> struct Run
{
  typedef Iir<T, C> F;
  static void apply(F &f, Model &m, long &clock, int pl, RR &in, RR &out, int n)
  {
    Domain<1> di = pl & 1 ? Domain<1>(n - 1, -1, n) : pl & 2 ? Domain<1>(1, 2, n) : Domain<1>(n);
    Domain<1> dd = pl & 4 ? Domain<1>(2 * (n - 1), -2, n) : pl & 8 ? Domain<1>(0, 2, n) : Domain<1>(n);
    in.reset(); out.reset();
    auto vi = in.view()(di); auto vo = out.view()(dd);
    std::vector<T> x;
    for (int i = 0; i < n; ++i) { T v = sample(clock++); x.push_back(v); vi.put(i, v); in.set(di.first() + di.stride() * i, v); }
    std::vector<T> y = m.apply(x);
    auto r = f(vi, vo);
    for (int i = 0; i < n; ++i)
    {
      T got = vo.get(i);
      // the bound on the intermediate values makes the tolerance independent of the order of evaluation
      if (!(mc::mag(got - y[i]) <= tol * m.bound[i])) mc::fail("output", "output frame: element %d is %s, expected %s", i, mc::str(got).c_str(), mc::str(y[i]).c_str());
      if (r.get(i) != got) mc::fail("result", "the returned view differs at %d", i);
      vo.put(i, y[i]); out.set(dd.first() + dd.stride() * i, y[i]);
    }
    if (!out.check("output", "output frame")) return;
    in.check("input", "input frame");
    mc::step(1);
    uint64_t h = 7; for (size_t i = 0; i < m.s1.size(); ++i) { h = mc::hash(&m.s1[i], sizeof(T), h); h = mc::hash(&m.s2[i], sizeof(T), h); }
    mc::state(h);
    mc::outcome(out.hash());
  }
  static void go(std::vector<int> const &sec, int n, int depth, int pl)
  {
    static char const *ops[] = {"apply X", "apply Y", "reset X", "Y := copy of X", "Y = X", "X = Y", "X = X"};
    int const NOP = 7;
    long total = 1; for (int i = 0; i < depth; ++i) total *= NOP;
    int sz[3] = {2 * n + 3, 1, 1};
    RR in(sz), out(sz);
    int M = sec.size();
    for (long q = 0; q < total; ++q)
    {
      long v = q; int seq[10]; int applies = 0;
      for (int i = 0; i < depth; ++i) { seq[i] = v % NOP; v /= NOP; applies += seq[i] < 2; }
      if (seq[depth - 1] > 1) continue;
      if (!mc::next()) continue;
      std::string s, c; for (int i = 0; i < depth; ++i) s += std::string(i ? ", " : "") + ops[seq[i]];
      for (int x : sec) c += " " + std::to_string(x);
      mc::desc("%s iir %s, sections%s, frames of %d, views %d: %s", RR::name().c_str(), C == state_save ? "saving" : "not saving", c.c_str(), n, pl, s.c_str());
      if (applies > 1) mc::nontrivial();
      Matrix<T> b(M, 3), a(M, 2);
      Model mx; mx.save = C == state_save;
      for (int m = 0; m < M; ++m)
      {
        for (int j = 0; j < 3; ++j) { T w = cplx<T>::value ? val<T>::of(2 * cb[sec[m]][j]) + T(0.5) : T(cb[sec[m]][j]); b.put(m, j, w); mx.b.push_back(w); }
        for (int j = 0; j < 2; ++j) { T w = T(ca[sec[m]][j]); a.put(m, j, w); mx.a.push_back(w); }
      }
      mx.reset();
      Model my = mx;
      long clock = 0;
      std::unique_ptr<F> x(new F(b, a, n)), y(new F(b, a, n));
      b = T(99); a = T(99);
      if ((int)x->kernel_size() != 2 * M || (int)x->filter_order() != 2 * M || (int)x->input_size() != n || (int)x->output_size() != n)
        mc::fail("geometry", "kernel %d order %d input %d output %d", (int)x->kernel_size(), (int)x->filter_order(), (int)x->input_size(), (int)x->output_size());
      for (int i = 0; i < depth; ++i)
        switch (seq[i])
        {
          case 0: apply(*x, mx, clock, pl, in, out, n); break;
          case 1: apply(*y, my, clock, pl ^ (pl >> 1), in, out, n); break;
          case 2: x->reset(); mx.reset(); break;
          case 3: y.reset(new F(*x)); my = mx; break;
          case 4: *y = *x; my = mx; break;
          case 5: *x = *y; mx = my; break;
          case 6: { F &r = *x; *x = r; break; }
        }
    }
  }
  static void all()
  {
    std::vector<std::vector<int> > secs;
    for (int i = 0; i < 6; ++i) secs.push_back({i});
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (mc::thorough() || (i + j) % 2 == 0) secs.push_back({i, j});
    for (int i = 1; i < 6; ++i) secs.push_back({i, (i + 2) % 6, (3 * i + 1) % 6});
    if (mc::thorough()) secs.push_back({1, 2, 3, 4});
    for (auto const &s : secs)
      for (int n = 1; n <= 4; ++n)
        for (int pl : {0, 5, 10})
          go(s, n, pl == 0 ? mc::tier(5, 6) : mc::tier(4, 5), pl);
    // many sections, long frames
    for (std::vector<int> s : {std::vector<int>{7}, {6, 7, 8, 9}, {9, 8, 7, 6, 7}, {6, 7, 8, 9, 6, 8, 9, 7, 6}})
      for (int n : {1, 5, 8, 16, 17, 33, 64})
        for (int pl : {0, 5, 10})
          go(s, n, mc::tier(3, 4), pl);
  }
};
// objects constructed for one frame size and assigned another one
static void sizes()
{
  for (int n = 1; n < 5; ++n)
    for (int m = 1; m < 5; ++m)
    {
      if (!mc::next()) continue;
      mc::desc("assignment of an object for frames of %d to one for frames of %d", n, m);
      Matrix<T> b(1, 3), a(1, 2); b = T(1); a = T(1); b.put(0, 1, T(2));
      Iir<T, state_save> x(b, a, n), y(b, a, m);
      b.put(0, 0, T(3));
      Iir<T, state_save> z(b, a, n);
      Vector<T> v(n), w(n), u(m); v = T(1);
      z(v, w); y = z; z(v, w); y(v, w);
      if ((int)y.input_size() != n) mc::fail("geometry", "input size %d", (int)y.input_size());
      Vector<T> q(n); z.reset(); z(v, q); z(v, q);
      for (int i = 0; i < n; ++i) if (q.get(i) != w.get(i)) mc::fail("assign", "element %d is %s, expected %s", i, mc::str(w.get(i)).c_str(), mc::str(q.get(i)).c_str());
    }
}
static void enumerate() { init(); Run<state_save>::all(); Run<state_no_save>::all(); sizes(); }
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
