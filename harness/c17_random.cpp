// C17: every history of draws from generators of every configuration, against the defining recurrence.
#include "seq.hpp"
#include <vsip/random.hpp>
using namespace seq;
typedef ET T;
typedef cplx<T>::real R;
typedef uint32_t U;
static double const tol = sizeof(R) == 4 ? 4e-6 : 1e-14;

// the generator, as its definition: one linear congruential sequence, advanced step by step
struct Model
{
  static int prime(int id) { int n = 0; for (int p = 3;; p += 2) { bool is = true; for (int q = 3; q * q <= p; q += 2) if (p % q == 0) is = false; if (is && ++n == id) return p; } }
  // the state `n` steps further on, by composing the step function with itself (n in binary, most significant digit first)
  static U advance(U x, uint64_t n)
  {
    U a = 1, c = 0;
    for (int b = 63; b >= 0; --b)
    {
      c = a * c + c; a = a * a;
      if (n >> b & 1) { c = 1664525u * c + 1013904223u; a = 1664525u * a; }
    }
    return a * x + c;
  }
  bool portable; uint64_t pos, k; U x0, y, y2, cy;
  Model(U seed, unsigned k_, unsigned id, bool p) : portable(p), k(k_), x0(seed)
  {
    if (p) { pos = (uint64_t)(0xffffffffu / k_) * (id - 1); y = y2 = 1; cy = prime(id); }
    else pos = id;
  }
  double next()
  {
    if (!portable) { pos += k; return advance(x0, pos) / 4294967296.0; }
    ++pos;
    y = y * 69069u + cy;
    U d = advance(x0, pos) - y;
    if (y == y2) { ++y; ++y2; }
    return d / 4294967296.0;
  }
  template <typename Q> static void set(std::complex<Q> &z, double a, double b) { z = std::complex<Q>(a, b); }
  template <typename Q> static void set(Q &, double, double) {}
  T u() { return u_(std::integral_constant<bool, cplx<T>::value>()); }
  T u_(std::false_type) { return T(next()); }
  T u_(std::true_type) { double a = next(); double b = next(); T z; set(z, a, b); return z; }
  T n() { return n_(std::integral_constant<bool, cplx<T>::value>()); }
  T n_(std::false_type) { double s = 0; for (int i = 0; i < 12; ++i) s += next(); return T(portable ? 6 - s : s - 6); }
  T n_(std::true_type) { double s = 0, t = 0; for (int i = 0; i < 3; ++i) s += next(); for (int i = 0; i < 3; ++i) t += next(); T z; set(z, 3 - t - s, s - t); return z; }
};
static bool same(T got, T want, char const *what, int i)
{
  if (mc::mag(got - want) <= tol) return true;
  mc::fail("draw", "%s: draw %d is %s, expected %s", what, i, mc::str(got).c_str(), mc::str(want).c_str());
  return false;
}
static char const *const names[] = {"randu", "randn", "randu(3) new", "randn(2) into a reversed view", "randu(2,3) new", "randn(2,2) into a view", "randu(2,2,2) new", "randn(1,2,3) into a view", "randu(1) new", "randn(2,1) new", "randu(5) into a view of a column-major matrix", "randn(4) new", "randn(2,3,2) new", "randu(3,2) into a view", "randu(2,3,1) into a view", "randu(2,3) into a column-major matrix", "randn(2,1,3) new of order 2,0,1"};
static bool op(int o, Rand<T> &r, Model &m)
{
  int i = 0;
  switch (o)
  {
    case 0: return same(r.randu(), m.u(), names[o], 0);
    case 1: return same(r.randn(), m.n(), names[o], 0);
    case 2: { Vector<T> v(r.randu(3)); for (i = 0; i < 3; ++i) if (!same(v.get(i), m.u(), names[o], i)) return false; return true; }
    case 3: { Vector<T> v(5); v = T(7); v(Domain<1>(4, -2, 2)) = r.randn(2); for (i = 0; i < 2; ++i) if (!same(v.get(4 - 2 * i), m.n(), names[o], i)) return false; for (int j = 0; j < 5; ++j) if (j != 4 && j != 2 && v.get(j) != T(7)) mc::fail("outside", "element %d written", j); return true; }
    case 4: { Matrix<T> v(r.randu(2, 3)); for (i = 0; i < 6; ++i) if (!same(v.get(i / 3, i % 3), m.u(), names[o], i)) return false; return true; }
    case 5: { Matrix<T> v(4, 4); v(Domain<2>(Domain<1>(0, 2, 2), Domain<1>(3, -1, 2))) = r.randn(2, 2); for (i = 0; i < 4; ++i) if (!same(v.get(i / 2 * 2, 3 - i % 2), m.n(), names[o], i)) return false; return true; }
    case 6: { Tensor<T> v(r.randu(2, 2, 2)); for (i = 0; i < 8; ++i) if (!same(v.get(i / 4, i / 2 % 2, i % 2), m.u(), names[o], i)) return false; return true; }
    case 7: { Tensor<T> v(2, 3, 4); v(Domain<3>(1, 2, 3)) = r.randn(1, 2, 3); for (i = 0; i < 6; ++i) if (!same(v.get(0, i / 3, i % 3), m.n(), names[o], i)) return false; return true; }
    case 8: { Vector<T> v(r.randu(1)); return same(v.get(0), m.u(), names[o], 0); }
    case 9: { Matrix<T> v(r.randn(2, 1)); for (i = 0; i < 2; ++i) if (!same(v.get(i, 0), m.n(), names[o], i)) return false; return true; }
    case 10: { Matrix<T, Dense<2, T, col2_type> > v(3, 5); v.row(1) = r.randu(5); for (i = 0; i < 5; ++i) if (!same(v.get(1, i), m.u(), names[o], i)) return false; return true; }
    case 11: { Vector<T> v(r.randn(4)); for (i = 0; i < 4; ++i) if (!same(v.get(i), m.n(), names[o], i)) return false; return true; }
    case 12: { Tensor<T> v(r.randn(2, 3, 2)); for (i = 0; i < 12; ++i) if (!same(v.get(i / 6, i / 2 % 3, i % 2), m.n(), names[o], i)) return false; return true; }
    case 13: { Matrix<T> v(3, 2); v = r.randu(3, 2); for (i = 0; i < 6; ++i) if (!same(v.get(i / 2, i % 2), m.u(), names[o], i)) return false; return true; }
    case 14: { Tensor<T> v(2, 3, 1); v = r.randu(2, 3, 1); for (i = 0; i < 6; ++i) if (!same(v.get(i / 3, i % 3, 0), m.u(), names[o], i)) return false; return true; }
    case 15: { Matrix<T, Dense<2, T, col2_type> > v(2, 3); v = r.randu(2, 3); for (i = 0; i < 6; ++i) if (!same(v.get(i % 2, i / 2), m.u(), names[o], i)) return false; return true; }
    case 16: { Tensor<T, Dense<3, T, tuple<2, 0, 1> > > v(r.randn(2, 1, 3)); for (i = 0; i < 6; ++i) if (!same(v.get(i % 2, 0, i / 2), m.n(), names[o], i)) return false; return true; }
  }
  return true;
}
static void histories()
{
  static unsigned long const cfg[][3] = {{0, 1, 1}, {1, 1, 1}, {12345, 1, 1}, {4294967295u, 1, 1}, {7, 2, 1}, {7, 2, 2}, {99, 3, 2}, {2147483648u, 4, 4}, {5, 12, 7}, {31, 100, 100}, {8, 64, 33}, {17, 97, 96}};
  int const nops = sizeof names / sizeof *names;
  int depth = mc::tier(3, 4);
  long total = 1; for (int i = 0; i < depth; ++i) total *= nops;
  for (auto const &c : cfg)
    for (int p = 0; p < 2; ++p)
      for (long q = 0; q < total; ++q)
      {
        if (!mc::next()) continue;
        mc::desc("%s generator, seed %lu, subsequence %lu of %lu:", p ? "portable" : "non-portable", c[0], c[2], c[1]);
        mc::nontrivial();
        Rand<T> r(c[0], c[1], c[2], p); Model m(c[0], c[1], c[2], p);
        long v = q;
        for (int i = 0; i < depth; ++i)
        {
          int o = v % nops; v /= nops;
          mc::more("%s %s", i ? "," : "", names[o]);
          if (!op(o, r, m)) break;
          mc::step(); mc::state(mc::mix(m.pos, m.y + c[0] * 31));
        }
        T x = r.randu();
        same(x, m.u(), "the draw after it", 0); mc::outcome(mc::hash(&x, sizeof x));
      }
}
// every number of subsequences and every id
static void subsequences()
{
  static unsigned long const seeds[] = {0, 1, 2, 12345, 0x80000000u, 0xffffffffu};
  int const K = mc::tier(100, 256);
  for (unsigned long s : seeds)
    for (int p = 0; p < 2; ++p)
      for (int k = 1; k <= K; ++k)
        for (int id = 1; id <= k && !(p && id > 100); ++id)
        {
          if (!mc::next()) continue;
          mc::desc("%s generator, seed %lu, subsequence %d of %d", p ? "portable" : "non-portable", s, id, k);
          if (k > 1) mc::nontrivial();
          Rand<T> r(s, k, id, p); Model m(s, k, id, p);
          for (int i = 0; i < 4; ++i)
          {
            T u = r.randu();
            if (!same(u, m.u(), "randu", i) || !same(r.randn(), m.n(), "randn", i)) break;
            mc::step(2); mc::state(mc::mix(m.pos, s)); mc::outcome(mc::hash(&u, sizeof u));
          }
          if (k == 1)
          {
            Rand<T> d(s, p); Model n(s, 1, 1, p);
            for (int i = 0; i < 4; ++i) if (!same(d.randu(), n.u(), "two-argument constructor", i)) break;
          }
        }
}
// every size of destination
static void sizes()
{
  static int const n1[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 257, 1000, 1025};
  static int const n2[][3] = {{1, 17, 1}, {17, 1, 1}, {4, 4, 1}, {5, 8, 1}, {8, 16, 1}, {16, 9, 1}, {33, 17, 1}, {4, 64, 1}, {3, 4, 5}, {1, 8, 9}, {8, 8, 8}, {5, 17, 4}, {16, 3, 33}};
  for (int p = 0; p < 2; ++p)
    for (int k = 1; k < 4; k += 2)
      for (int normal = 0; normal < 2; ++normal)
      {
        auto one = [&](T x, Model &m, char const *w, long i) { return same(x, normal ? m.n() : m.u(), w, i); };
        for (int n : n1)
        {
          if (!mc::next()) continue;
          mc::desc("%s generator, subsequence 1 of %d, %d numbers from %s", p ? "portable" : "non-portable", k, n, normal ? "randn" : "randu"); mc::nontrivial();
          Rand<T> r(5, k, 1, p); Model m(5, k, 1, p);
          Vector<T> v(n); if (normal) v = r.randn(n); else v = r.randu(n);
          bool ok = true;
          for (int i = 0; i < n && ok; ++i) ok = one(v.get(i), m, "vector", i);
          Vector<T, Dense<1, T> > w(2 * n); w = T(7); if (normal) w(Domain<1>(0, 2, n)) = r.randn(n); else w(Domain<1>(0, 2, n)) = r.randu(n);
          for (int i = 0; i < n && ok; ++i) ok = one(w.get(2 * i), m, "strided vector", i);
          if (ok) same(r.randu(), m.u(), "the draw after it", 0);
          mc::step(2 * n);
        }
        for (auto const &d : n2)
        {
          if (!mc::next()) continue;
          int a = d[0], b = d[1], c = d[2];
          mc::desc("%s generator, subsequence 1 of %d, %dx%dx%d numbers from %s", p ? "portable" : "non-portable", k, a, b, c, normal ? "randn" : "randu"); mc::nontrivial();
          Rand<T> r(5, k, 1, p); Model m(5, k, 1, p);
          bool ok = true;
          Matrix<T> v(a, b); if (normal) v = r.randn(a, b); else v = r.randu(a, b);
          for (int i = 0; i < a * b && ok; ++i) ok = one(v.get(i / b, i % b), m, "matrix", i);
          Matrix<T, Dense<2, T, col2_type> > w(a, b); if (normal) w = r.randn(a, b); else w = r.randu(a, b);
          for (int i = 0; i < a * b && ok; ++i) ok = one(w.get(i % a, i / a), m, "column-major matrix", i);
          Tensor<T> t(a, b, c); if (normal) t = r.randn(a, b, c); else t = r.randu(a, b, c);
          for (int i = 0; i < a * b * c && ok; ++i) ok = one(t.get(i / (b * c), i / c % b, i % c), m, "tensor", i);
          if (ok) same(r.randu(), m.u(), "the draw after it", 0);
          mc::step(a * b * (2 + c));
        }
      }
}
#ifdef PERIOD
// the whole period of the corrector sequence, and what follows it
static void period()
{
  for (int id : {1, 2, 3, 17, 50, 64, 99, 100})
  {
    if (!mc::next()) continue;
    mc::desc("portable generator, seed 11, subsequence %d of 100, over the whole period", id);
    mc::nontrivial();
    Rand<T> r(11, 100, id, true); Model m(11, 100, id, true);
    R sum = 0;
    for (uint64_t i = 0; i < (1ull << 32) - 8; ++i) sum = r.randu();
    m.pos += (1ull << 32) - 8;
    // y takes every value once in 2^32 steps: go back 8 steps from the start
    U y = 1; U inv = 1; for (int i = 0; i < 5; ++i) inv *= 2 - 69069u * inv;
    for (int i = 0; i < 8; ++i) y = (y - m.cy) * inv;
    m.y = y;
    for (int i = 0; i < 64; ++i) if (!same(r.randu(), m.u(), "draw near the end of the period", i)) return;
    mc::step(1l << 32); mc::outcome(mc::mix((uint64_t)id, (uint64_t)(sum * 1e9)));
  }
}
#endif
static void enumerate()
{
  init();
#ifdef PERIOD
  period();
#else
  histories(); subsequences(); sizes();
#endif
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
