// C11: every history of apply, reset, copy and assignment of FIR objects.
#include "seq.hpp"
#include <vsip/signal.hpp>
using namespace seq;
typedef ET T;
typedef Root<1, T, Layout<1, row1_type, dense, FORMAT> > RR;

static T coef(int i) { static int const p[] = {3, 7, -2, 11, 5, -13, 17, 1, 19, 23}; return val<T>::of(p[i % 10]) ; }
static T sample(long n) { long x = (n * 7919 + 13) % 61 - 30; return val<T>::of(x == 0 ? 31 : x); }

struct Model
{
  std::vector<T> h;         // full kernel
  long d, n; bool save;
  std::vector<T> past;      // everything since construction or reset
  std::vector<T> apply(std::vector<T> const &in)
  {
    std::vector<T> out;
    if (!save) past.clear();
    long base = past.size();
    past.insert(past.end(), in.begin(), in.end());
    for (long p = 0; p < (long)past.size(); p += d)
    {
      if (p < base) continue;
      T s = T();
      for (long k = 0; k < (long)h.size() && k <= p; ++k) s += h[k] * past[p - k];
      out.push_back(s);
    }
    return out;
  }
};

template <symmetry_type S, obj_state C> struct Run
{
  typedef Fir<T, S, C> F;
  static char const *sym() { return S == nonsym ? "nonsym" : S == sym_even_len_odd ? "odd" : "even"; }
  static void apply(F &f, Model &m, long &clock, int pl, RR &in, RR &out)
  {
    int n = m.n, no = (m.n + m.d - 1) / m.d;
    Domain<1> di = pl & 1 ? Domain<1>(n - 1, -1, n) : pl & 2 ? Domain<1>(1, 2, n) : Domain<1>(n);
    Domain<1> dd = pl & 4 ? Domain<1>(2 * (no - 1), -2, no) : pl & 8 ? Domain<1>(0, 2, no) : Domain<1>(no);
    in.reset(); out.reset();
    auto vi = in.view()(di); auto vo = out.view()(dd);
    std::vector<T> x;
    for (int i = 0; i < n; ++i) { T v = sample(clock++); x.push_back(v); long lin = di.first() + di.stride() * i; vi.put(i, v); in.set(lin, v); }
    std::vector<T> y = m.apply(x);
    length_type c = f(vi, vo);
    if ((long)c != (long)y.size()) { mc::fail("count", "%ld outputs, expected %ld", (long)c, (long)y.size()); return; }
    // out-of-range positions of the output are not defined when a frame yields fewer outputs
    for (int i = 0; i < no; ++i)
    {
      long lin = dd.first() + dd.stride() * i;
      if (i < (int)y.size()) out.set(lin, y[i]); else { vo.put(i, T()); out.set(lin, T()); }
    }
    if (!out.check("output", "output frame")) return;
    in.check("input", "input frame");
    mc::step(1);
    mc::state(mc::mix(mc::mix(m.past.size(), m.h.size() * 8 + m.d), m.n * 4 + S));
    mc::outcome(out.hash());
  }
  static int fullsize(int k) { return S == nonsym ? k : S == sym_even_len_odd ? 2 * k - 1 : 2 * k; }
  static Model model(int k, int d, int n, int c0)
  {
    Model m; m.d = d; m.n = n; m.save = C == state_save;
    int full = fullsize(k);
    for (int i = 0; i < full; ++i) m.h.push_back(coef(c0 + (S == nonsym || i < k ? i : full - 1 - i)));
    return m;
  }
  static Vector<T> kernel(int k, int c0) { Vector<T> v(k); for (int i = 0; i < k; ++i) v.put(i, coef(c0 + i)); return v; }
  static void geometry(F &f, Model const &m)
  {
    if (f.kernel_size() != m.h.size() || f.filter_order() != m.h.size() || (long)f.input_size() != m.n || (long)f.output_size() != (m.n + m.d - 1) / m.d || (long)f.decimation() != m.d)
      mc::fail("geometry", "kernel %d order %d input %d output %d", (int)f.kernel_size(), (int)f.filter_order(), (int)f.input_size(), (int)f.output_size());
  }
  // k2, d2, n2: the parameters of object Y
  static void go(int k, int d, int n, int depth, int pl, int k2 = 0, int d2 = 0, int n2 = 0)
  {
    bool const differ = k2;
    if (!differ) { k2 = k; d2 = d; n2 = n; }
    int mx_n = std::max(n, n2), mx_no = std::max((n + d - 1) / d, (n2 + d2 - 1) / d2);
    static char const *ops[] = {"apply X", "apply Y", "reset X", "Y := copy of X", "Y = X", "X = Y", "X = X"};
    int const NOP = 7;
    long total = 1; for (int i = 0; i < depth; ++i) total *= NOP;
    int sz[3] = {2 * mx_n + 3, 1, 1}, so[3] = {2 * mx_no + 3, 1, 1};
    RR in(sz), out(so);
    for (long q = 0; q < total; ++q)
    {
      long v = q; int seq[10]; int applies = 0;
      for (int i = 0; i < depth; ++i) { seq[i] = v % NOP; v /= NOP; applies += seq[i] < 2; }
      if (seq[depth - 1] > 1) continue;      // histories that end with an observation
      if (!mc::next()) continue;
      std::string s; for (int i = 0; i < depth; ++i) s += std::string(i ? ", " : "") + ops[seq[i]];
      mc::desc("%s fir %s %s, kernel of %d, decimation %d, frames of %d (Y: %d, %d, %d), views %d: %s", RR::name().c_str(), sym(), C == state_save ? "saving" : "not saving", k, d, n, k2, d2, n2, pl, s.c_str());
      if (applies > 1) mc::nontrivial();
      Model mx = model(k, d, n, 0), my = model(k2, d2, n2, differ ? 3 : 0);
      long clock = 0;
      {
        Vector<T> ker = kernel(k, 0), ker2 = kernel(k2, differ ? 3 : 0);
        std::unique_ptr<F> x(new F(ker, n, d)), y(new F(ker2, n2, d2));
        ker = T(999); ker2 = T(999);    // the objects keep their own kernels
        geometry(*x, mx); geometry(*y, my);
        for (int i = 0; i < depth; ++i)
          switch (seq[i])
          {
            case 0: apply(*x, mx, clock, pl, in, out); break;
            case 1: apply(*y, my, clock, pl ^ (pl >> 1), in, out); break;
            case 2: x->reset(); mx.past.clear(); break;
            case 3: y.reset(new F(*x)); my = mx; break;
            case 4: *y = *x; my = mx; break;
            case 5: *x = *y; mx = my; break;
            case 6: { F &r = *x; *x = r; break; }
          }
        geometry(*x, mx); geometry(*y, my);
      }
    }
  }
  static void all()
  {
    for (int k = S == nonsym ? 2 : 1; k <= mc::tier(4, 6); ++k)
    {
      int full = S == nonsym ? k : S == sym_even_len_odd ? 2 * k - 1 : 2 * k;
      for (int d = 1; d < full && d <= 5; ++d)
      {
        for (int n = std::max(full - 1, 1); n <= full + mc::tier(1, 3); ++n)
          for (int pl : {0, 5, 10})
            go(k, d, n, pl == 0 ? mc::tier(5, 6) : mc::tier(4, 5), pl);
      }
    }
    // objects of different parameters
    int const a = S == nonsym ? 3 : 2;
    for (int pl : {0, 5})
    {
      go(a, 1, 6, 4, pl, a + 1, 2, 9);
      go(a + 1, 2, 9, 4, pl, a, 1, 6);
      go(a, 2, 7, 4, pl, a, 1, 7);
      go(a, 1, 5, 4, pl, a, 1, 8);
      go(a, 1, 5, 4, pl, a, 2, 5);
    }
    // long kernels and frames
    for (int k : {7, 8, 9, 16, 17, 33})
      for (int d : {1, 2, 3, 8, 13})
        for (int f : {0, 1, 2})
        {
          int full = fullsize(k);
          if (d >= full) continue;
          go(k, d, f == 0 ? full - 1 : f == 1 ? 64 + full : 131 + full, mc::tier(3, 4), f == 2 ? 10 : 0);
        }
  }
};
static void enumerate()
{
  init();
  Run<nonsym, state_save>::all(); Run<nonsym, state_no_save>::all();
  Run<sym_even_len_odd, state_save>::all(); Run<sym_even_len_odd, state_no_save>::all();
  Run<sym_even_len_even, state_save>::all(); Run<sym_even_len_even, state_no_save>::all();
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
