// C13: convolution and correlation objects of every geometry, applied repeatedly to views of every placement.
#include "seq.hpp"
#include <vsip/signal.hpp>
using namespace seq;
typedef ET T;
#if D_ == 1
typedef row1_type O1; typedef row1_type O2;
#define VIEW const_Vector
#else
typedef ORDER1 O1; typedef ORDER2 O2;
#define VIEW const_Matrix
#endif
typedef Root<D_, T, Layout<D_, O1, PACK, FORMAT> > RI;
typedef Root<D_, T, Layout<D_, O2, dense, FORMAT> > RO;

static long seed(long n, int salt) { long x = (n * 7919 + salt * 104729 + 13) % 41 - 20; return x == 0 ? 21 : x; }
struct Grid   // a small matrix (1 x n for vectors)
{
  int r, c; std::vector<T> v;
  Grid(int r_, int c_, int salt = -1) : r(r_), c(c_), v(r_ * c_) { if (salt >= 0) for (int i = 0; i < r * c; ++i) v[i] = val<T>::of(seed(i, salt)); }
  T at(int i, int j) const { return i < 0 || j < 0 || i >= r || j >= c ? T() : v[i * c + j]; }
  T &operator()(int i, int j) { return v[i * c + j]; }
};
#if D_ == 1
static Domain<1> mkdom(int, int c) { return Domain<1>(c); }
static int rows(Domain<1> const &) { return 1; }
static int cols(Domain<1> const &d) { return d.size(); }
#else
static Domain<2> mkdom(int r, int c) { return Domain<2>(r, c); }
static int rows(Domain<2> const &d) { return d[0].size(); }
static int cols(Domain<2> const &d) { return d[1].size(); }
#endif

// a view of r x c elements somewhere in a root block
template <typename R> struct Placed
{
  int r, c, pl; R root;
  Domain<1> d0, d1;
  static int const *shape(int r, int c) { static int s[3]; s[0] = D_ == 1 ? 2 * c + 1 : 2 * r + 1; s[1] = D_ == 1 ? 1 : 2 * c + 1; s[2] = 1; return s; }
  Placed(int r_, int c_, int pl_) : r(r_), c(c_), pl(pl_), root(shape(r_, c_)), d0(dom(pl_ & 3, r_)), d1(dom(pl_ >> 2 & 3, c_)) {}
  static Domain<1> dom(int p, int n) { return p == 0 ? Domain<1>(n) : p == 1 ? Domain<1>(n, -1, n) : p == 2 ? Domain<1>(1, 2, n) : Domain<1>(2 * n - 1, -2, n); }
  long lin(int i, int j) { long b = d1.first() + d1.stride() * j; if (D_ == 1) return b; return (d0.first() + d0.stride() * i) * (2 * c + 1) + b; }
#if D_ == 1
  auto view() -> decltype(root.view()(Domain<1>(1))) { return root.view()(d1); }
  template <typename W> static void put(W w, int, int j, T x) { w.put(j, x); }
#else
  auto view() -> decltype(root.view()(Domain<2>(1, 1))) { return root.view()(Domain<2>(d0, d1)); }
  template <typename W> static void put(W w, int i, int j, T x) { w.put(i, j, x); }
#endif
  void fill(Grid const &g) { root.reset(3); auto v = view(); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { put(v, i, j, g.at(i, j)); root.set(lin(i, j), g.at(i, j)); } }
  bool near_check(Grid const &g, char const *key, char const *what, double tol)
  {
    // replace the results within the tolerance, then everything must be as expected
    auto v = view();
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
    {
#if D_ == 1
      T got = v.get(j);
#else
      T got = v.get(i, j);
#endif
      T w = g.at(i, j);
      if (!(mc::mag(got - w) <= tol * (1 + mc::mag(w)))) { mc::fail(key, "%s: element %d,%d is %s, expected %s", what, i, j, mc::str(got).c_str(), mc::str(w).c_str()); return false; }
      put(v, i, j, w); root.set(lin(i, j), w);
    }
    return root.check(key, what);
  }
};

static int outlen(support_region_type R, int M, int N, int D)
{ return R == support_full ? (N + M - 2) / D + 1 : R == support_same ? (N - 1) / D + 1 : (N - M + D) / D; }
static int shift(support_region_type R, int M) { return R == support_full ? 0 : R == support_same ? M / 2 : M - 1; }
static char const *sup(support_region_type R) { return R == support_full ? "full" : R == support_same ? "same" : "min"; }
static int const places[][2] = {{0, 0}, {5, 10}, {14, 7}, {11, 1}, {0, 0}};
static double const tol = sizeof(cplx<T>::real) == 4 ? 1e-5 : 1e-12;

template <symmetry_type S, support_region_type R> struct Conv
{
  static int full(int k) { return S == nonsym ? k : S == sym_even_len_odd ? 2 * k - 1 : 2 * k; }
  static void one(int kr, int kc, int nr, int nc, int d)
  {
    int Mr = D_ == 1 ? 1 : full(kr), Mc = full(kc);
    if (R == support_min && (Mr > nr || Mc > nc)) return;
    if (S == nonsym ? kr * kc > nr * nc : kr * kc > 2 * nr * nc) return;
    if (!mc::next()) return;
    mc::desc("convolution %d-D %s %s %s, kernel %dx%d, input %dx%d, decimation %d", D_, RI::name().c_str(), S == nonsym ? "nonsym" : S == sym_even_len_odd ? "odd" : "even", sup(R), kr, kc, nr, nc, d);
    if (kr * kc > 1 || nr * nc > 1) mc::nontrivial();
    Grid k(kr, kc, 1), h(Mr, Mc);
    for (int i = 0; i < Mr; ++i) for (int j = 0; j < Mc; ++j) h(i, j) = k.at(i < kr ? i : Mr - 1 - i, j < kc ? j : Mc - 1 - j);
    typedef Convolution<VIEW, S, R, T> C;
    std::unique_ptr<C> c;
    {
      Placed<RI> kp(kr, kc, 6); kp.fill(k);
      c.reset(new C(kp.view(), mkdom(nr, nc), d));
      kp.root.check("kernel", "the coefficients given to the constructor");
      Grid z(kr, kc, 9); kp.fill(z);      // the object keeps its own copy
    }
    int Pr = D_ == 1 ? 1 : outlen(R, Mr, nr, d), Pc = outlen(R, Mc, nc, d);
    if (rows(c->kernel_size()) != Mr || cols(c->kernel_size()) != Mc || rows(c->filter_order()) != Mr || cols(c->filter_order()) != Mc) mc::fail("geometry", "kernel size %dx%d, expected %dx%d", rows(c->kernel_size()), cols(c->kernel_size()), Mr, Mc);
    if (rows(c->input_size()) != nr || cols(c->input_size()) != nc) mc::fail("geometry", "input size %dx%d", rows(c->input_size()), cols(c->input_size()));
    if (c->symmetry() != S || c->support() != R || (int)c->decimation() != d) mc::fail("geometry", "symmetry, support or decimation");
    if (rows(c->output_size()) != Pr || cols(c->output_size()) != Pc) { mc::fail("geometry", "output size %dx%d, expected %dx%d", rows(c->output_size()), cols(c->output_size()), Pr, Pc); return; }
    for (int p = 0; p < 5; ++p)
    {
      Grid x(nr, nc, 2 + p % 3), y(Pr, Pc);
      for (int i = 0; i < Pr; ++i) for (int j = 0; j < Pc; ++j)
      {
        T s = T();
        for (int a = 0; a < Mr; ++a) for (int b = 0; b < Mc; ++b) s += h.at(a, b) * x.at(D_ == 1 ? 0 : i * d + shift(R, Mr) - a, j * d + shift(R, Mc) - b);
        y(i, j) = s;
      }
      Placed<RI> in(nr, nc, places[p][0]); in.fill(x);
      Placed<RO> out(Pr, Pc, places[p][1]); out.root.reset(11);
      (*c)(in.view(), out.view());
      mc::step(); mc::outcome(out.root.hash());
      if (!out.near_check(y, "output", ("call " + std::to_string(p)).c_str(), tol)) return;
      in.root.check("input", "input");
    }
  }
  static void all()
  {
    int K = D_ == 1 ? mc::tier(4, 6) : mc::tier(2, 3), N = D_ == 1 ? mc::tier(8, 12) : mc::tier(4, 5);
    for (int kr = 1; kr <= (D_ == 1 ? 1 : K); ++kr) for (int kc = 1; kc <= K + (D_ == 2); ++kc)
      for (int nr = 1; nr <= (D_ == 1 ? 1 : N); ++nr) for (int nc = 1; nc <= N + (D_ == 2); ++nc)
        for (int d = 1; d <= mc::tier(3, 5); ++d) one(kr, kc, nr, nc, d);
    // larger kernels, inputs and decimations
    if (D_ == 1)
      for (int kc : {1, 7, 8, 9, 16, 17, 33}) for (int nc : {17, 32, 33, 64, 100, 257}) for (int d : {1, 2, 3, 4, 7, 8, 17}) one(1, kc, 1, nc, d);
    else
      for (int kr : {1, 4, 5}) for (int kc : {1, 3, 7}) for (int nr : {9, 16, 17}) for (int nc : {8, 17, 33}) for (int d : {1, 2, 4}) one(kr, kc, nr, nc, d);
  }
};
template <support_region_type R> struct Corr
{
  // divisor of the unbiased correlation in one dimension
  static int terms(int M, int N, int n)
  {
    if (R == support_full) return n < M - 1 ? n + 1 : n >= N ? N + M - 1 - n : M;
    if (R == support_min) return M;
    if (n < M / 2) return n + (M + 1) / 2;
    if (n >= N - M / 2) return D_ == 1 ? N - 1 + (M + 1) / 2 - n : N + M / 2 - n;   // C-VSIPL defines the 1-D case so
    return M;
  }
  static void one(int Mr, int Mc, int nr, int nc)
  {
    if (Mr > nr || Mc > nc) return;
    if (!mc::next()) return;
    mc::desc("correlation %d-D %s %s, reference %dx%d, input %dx%d", D_, RI::name().c_str(), sup(R), Mr, Mc, nr, nc);
    if (nr * nc > 1) mc::nontrivial();
    Correlation<VIEW, R, T> c(mkdom(Mr, Mc), mkdom(nr, nc));
    int Pr = D_ == 1 ? 1 : outlen(R, Mr, nr, 1), Pc = outlen(R, Mc, nc, 1);
    if (rows(c.reference_size()) != Mr || cols(c.reference_size()) != Mc || rows(c.input_size()) != nr || cols(c.input_size()) != nc || c.support() != R) mc::fail("geometry", "reference size %dx%d", rows(c.reference_size()), cols(c.reference_size()));
    if (rows(c.output_size()) != Pr || cols(c.output_size()) != Pc) { mc::fail("geometry", "output size %dx%d, expected %dx%d", rows(c.output_size()), cols(c.output_size()), Pr, Pc); return; }
    for (int p = 0; p < 5; ++p)
      for (int b = 0; b < 2; ++b)
      {
        Grid r(Mr, Mc, 1 + p), x(nr, nc, 7 + p % 3), y(Pr, Pc);
        auto sh = [&](int M) { return R == support_full ? M - 1 : R == support_same ? M / 2 : 0; };
        for (int i = 0; i < Pr; ++i) for (int j = 0; j < Pc; ++j)
        {
          T s = T();
          for (int a = 0; a < Mr; ++a) for (int e = 0; e < Mc; ++e) s += r.at(a, e) * ovxx::math::impl_conj(x.at(i + a - (D_ == 1 ? 0 : sh(Mr)), j + e - sh(Mc)));
          if (b) s /= T((D_ == 1 ? 1 : terms(Mr, nr, i)) * terms(Mc, nc, j));
          y(i, j) = s;
        }
        Placed<RI> in(nr, nc, places[p][0]); in.fill(x);
        Placed<RO> ref(Mr, Mc, places[(p + 2) % 5][0]); ref.fill(r);
        Placed<RO> out(Pr, Pc, places[p][1]); out.root.reset(11);
        c(b ? unbiased : biased, ref.view(), in.view(), out.view());
        mc::step(); mc::outcome(out.root.hash());
        if (!out.near_check(y, "output", (std::string(b ? "unbiased call " : "biased call ") + std::to_string(p)).c_str(), tol)) return;
        in.root.check("input", "input"); ref.root.check("input", "reference");
      }
  }
  static void all()
  {
    int K = D_ == 1 ? mc::tier(6, 9) : mc::tier(3, 4), N = D_ == 1 ? mc::tier(9, 14) : mc::tier(4, 6);
    for (int kr = 1; kr <= (D_ == 1 ? 1 : K); ++kr) for (int kc = 1; kc <= K; ++kc)
      for (int nr = 1; nr <= (D_ == 1 ? 1 : N); ++nr) for (int nc = 1; nc <= N + (D_ == 2); ++nc) one(kr, kc, nr, nc);
    if (D_ == 1)
      for (int kc : {1, 7, 8, 16, 17, 33, 64}) for (int nc : {16, 17, 32, 33, 64, 100, 257}) one(1, kc, 1, nc);
    else
      for (int kr : {1, 4, 7, 8}) for (int kc : {1, 5, 8}) for (int nr : {8, 9, 16, 17}) for (int nc : {8, 9, 17, 33}) one(kr, kc, nr, nc);
  }
};
template <symmetry_type S> static void sym() { Conv<S, support_full>::all(); Conv<S, support_same>::all(); Conv<S, support_min>::all(); }
static void enumerate()
{
  init();
  sym<nonsym>(); sym<sym_even_len_odd>(); sym<sym_even_len_even>();
#ifndef NOCORR
  Corr<support_full>::all(); Corr<support_same>::all(); Corr<support_min>::all();
#endif
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
