// C14: Fft and Fftm objects compute the discrete Fourier transform.
// Every size, every listed pair of input and output placements, every calling form.
#define FMT 0
#ifndef CFMT
# define CFMT 0
#endif
#include "place.hpp"
#include <vsip/signal.hpp>
#ifndef MODE
# define MODE 1   // 1, 2, 3: Fft of that dimension; 4: Fftm
#endif
#ifndef KIND
# define KIND 0   // 0 forward, 1 inverse, 2 real to complex, 3 complex to real
#endif
#ifndef SD
# define SD 0     // special dimension, or row/column for Fftm
#endif
typedef std::complex<ET> C;
static int const DIM = MODE == 4 ? 2 : MODE;

// placements for either element type
#define TP(NAME, D, ORD, FM, SIZES, VIEW, POS) \
  template <typename Q> struct NAME : Base<Root<D, Q, typename layout<D, ORD, cplx<Q>::value ? FM : 0>::type> > { typedef Base<Root<D, Q, typename layout<D, ORD, cplx<Q>::value ? FM : 0>::type> > B; using B::r; using B::pos; int n[3]; \
    NAME(int n0, int n1, int n2) : B(std::vector<int> SIZES), n{n0, n1, n2} { POS } auto view() { return VIEW; } static char const *name() { return #NAME; } };
#define F1(e) for (int i = 0; i < n0; ++i) pos.push_back(e);
#define F2(e) for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) pos.push_back(e);
#define F3(e) for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) for (int k = 0; k < n2; ++k) pos.push_back(e);
typedef tuple<2, 0, 1> o201; typedef tuple<1, 2, 0> o120; typedef tuple<2, 1, 0> o210; typedef tuple<0, 2, 1> o021; typedef tuple<1, 0, 2> o102; typedef tuple<0, 1, 2> o012;
#if MODE == 1
TP(whole1, 1, o012, CFMT, ({n0}), r.view(), F1(i))
TP(offs1, 1, o012, CFMT, ({n0 + 2}), r.view()(Domain<1>(1, 1, this->n[0])), F1(i + 1))
TP(stride1, 1, o012, CFMT, ({3 * n0 + 1}), r.view()(Domain<1>(2, 3, this->n[0])), F1(2 + 3 * i))
TP(rev1, 1, o012, CFMT, ({n0 + 2}), r.view()(Domain<1>(this->n[0], -1, this->n[0])), F1(n0 - i))
TP(line1, 2, o012, CFMT, ({3, n0}), r.view().row(1), F1(n0 + i))
TP(column1, 2, o012, CFMT, ({n0, 3}), r.view().col(2), F1(3 * i + 2))
TP(diag1, 2, o012, CFMT, ({n0, n0 + 1}), r.view().diag(1), F1(i * (n0 + 1) + i + 1))
#elif MODE != 3
TP(row2, 2, o012, CFMT, ({n0, n1}), r.view(), F2(i * n1 + j))
TP(col2, 2, o102, CFMT, ({n0, n1}), r.view(), F2(i * n1 + j))
TP(sub2, 2, o012, CFMT, ({2 * n0 + 1, n1 + 1}), r.view()(Domain<2>(Domain<1>(1, 2, this->n[0]), Domain<1>(this->n[1] - 1, -1, this->n[1]))), F2((1 + 2 * i) * (n1 + 1) + n1 - 1 - j))
TP(part2, 2, o012, CFMT, ({n0 + 1, n1 + 3}), r.view()(Domain<2>(Domain<1>(1, 1, this->n[0]), Domain<1>(this->n[1]))), F2((1 + i) * (n1 + 3) + j))
TP(trans2, 2, o012, CFMT, ({n1, n0}), r.view().transpose(), F2(j * n0 + i))
TP(plane2, 3, o120, CFMT, ({n0, n1, 3}), r.view()(vsip::whole_domain, vsip::whole_domain, 1), F2((i * n1 + j) * 3 + 1))
#else
#define W3(NAME, O) TP(NAME, 3, O, CFMT, ({n0, n1, n2}), r.view(), F3((i * n1 + j) * n2 + k))
W3(t012, o012) W3(t021, o021) W3(t102, o102) W3(t120, o120) W3(t201, o201) W3(t210, o210)
TP(sub3, 3, o012, CFMT, ({n0 + 1, 2 * n1, n2 + 1}), r.view()(Domain<3>(Domain<1>(1, 1, this->n[0]), Domain<1>(0, 2, this->n[1]), Domain<1>(this->n[2], -1, this->n[2]))), F3(((1 + i) * 2 * n1 + 2 * j) * (n2 + 1) + n2 - k))
#endif

// reference: transform along the marked dimensions
typedef std::complex<long double> LC;
struct Grid
{
  int n[3]; std::vector<LC> a;
  Grid(int const *s) { long t = 1; for (int d = 0; d < 3; ++d) { n[d] = d < DIM ? s[d] : 1; t *= n[d]; } a.resize(t); }
  LC &at(int i, int j, int k) { return a[((long)i * n[1] + j) * n[2] + k]; }
};
static Grid dft(Grid g, int e, bool const *along)
{
  long double const pi = acosl(-1.0L);
  for (int d = 0; d < DIM; ++d)
  {
    if (!along[d]) continue;
    int N = g.n[d];
    std::vector<LC> w(N);
    for (int i = 0; i < N; ++i) w[i] = LC(cosl(2 * pi * i / N), e * sinl(2 * pi * i / N));
    Grid o = g;
    long st = 1; for (int q = d + 1; q < 3; ++q) st *= g.n[q];
    for (long l = 0; l < (long)g.a.size(); ++l)
    {
      int k = l / st % N; long base = l - k * st;
      LC s = 0; for (int m = 0; m < N; ++m) s += g.a[base + m * st] * w[(long)m * k % N];
      o.a[l] = s;
    }
    g = o;
  }
  return g;
}
static long noise(long l, long salt) { uint64_t h = mc::mix(l * 2654435761u + 7, salt * 40503u + 3); return (long)(h % 33) - 16; }

#if KIND == 0 || KIND == 1
typedef C I_; typedef C O_;
#elif KIND == 2
typedef ET I_; typedef C O_;
#else
typedef C I_; typedef ET O_;
#endif
static int const DIR = KIND == 0 || KIND == 2 ? -1 : 1;
static int const SPARAM = KIND == 0 ? fft_fwd : KIND == 1 ? fft_inv : SD;
#if MODE == 4
static int const DD = DIR == -1 ? fft_fwd : fft_inv;
template <return_mechanism_type R, unsigned N> using Obj = Fftm<I_, O_, SD, DD, R, N, alg_time>;
static int const SPECIAL = 1 - SD;
#elif MODE == 1
template <return_mechanism_type R, unsigned N> using Obj = Fft<const_Vector, I_, O_, SPARAM, R, N, alg_time>;
static int const SPECIAL = 0;
#elif MODE == 2
template <return_mechanism_type R, unsigned N> using Obj = Fft<const_Matrix, I_, O_, SPARAM, R, N, alg_time>;
static int const SPECIAL = SD;
#else
template <return_mechanism_type R, unsigned N> using Obj = Fft<const_Tensor, I_, O_, SPARAM, R, N, alg_time>;
static int const SPECIAL = SD;
#endif

// one geometry
static int full[3], ins[3], outs[3];
static bool along[3];
static R scale_;
static void geometry(int a, int b, int c)
{
  int s[3] = {a, b, c};
  for (int d = 0; d < 3; ++d)
  {
    full[d] = ins[d] = outs[d] = s[d];
    along[d] = d < DIM && (MODE != 4 || d == SPECIAL);
  }
  if (KIND == 2) outs[SPECIAL] = full[SPECIAL] / 2 + 1;
  if (KIND == 3) ins[SPECIAL] = full[SPECIAL] / 2 + 1;
}
template <typename Q> static Q conv(LC v, Q) { return Q((ET)v.real()); }
static C conv(LC v, C) { return C((ET)v.real(), (ET)v.imag()); }
// the input and the expected output
struct Case
{
  std::vector<I_> in; std::vector<LC> out; long double big;
  Case(long salt)
  {
    Grid g(full);
    for (size_t l = 0; l < g.a.size(); ++l) g.a[l] = LC(noise(l, salt), KIND == 0 || KIND == 1 ? noise(l, salt + 100) : 0);
    Grid h = KIND == 3 ? dft(g, -1, along) : dft(g, DIR, along);
    long double points = 1; for (int d = 0; d < DIM; ++d) if (along[d]) points *= full[d];
    Grid &src = KIND == 3 ? h : g, &dst = KIND == 3 ? g : h;
    if (KIND == 3)
      for (int i = 0; i < ins[0]; ++i) for (int j = 0; j < ins[1]; ++j) for (int k = 0; k < ins[2]; ++k)
      {
        int x[3] = {i, j, k}; bool self = true;   // frequencies that are their own conjugates are real
        for (int d = 0; d < DIM; ++d) if (along[d] && 2 * x[d] % full[d]) self = false;
        if (self) h.at(i, j, k) = LC(h.at(i, j, k).real(), 0);
      }
    for (int i = 0; i < ins[0]; ++i) for (int j = 0; j < ins[1]; ++j) for (int k = 0; k < ins[2]; ++k) in.push_back(conv(src.at(i, j, k), I_()));
    big = 1;
    for (int i = 0; i < outs[0]; ++i) for (int j = 0; j < outs[1]; ++j) for (int k = 0; k < outs[2]; ++k)
    {
      LC v = dst.at(i, j, k) * (KIND == 3 ? points : 1.0L) * (long double)scale_;
      out.push_back(v); big = std::max(big, std::abs(v));
    }
    big *= std::max(1.0L, sqrtl(points));
  }
  bool ok(O_ v, size_t l, long double f = 1, LC add = 0) const
  {
    LC w = out[l] * f + add; LC g(comp(v, 0), cplx<O_>::value ? comp(v, 1) : 0);
    return std::abs(g - w) <= big * (sizeof(ET) >= 8 ? 1e-13L : 2e-6L) * 4;
  }
  std::string want(size_t l) const { return "(" + std::to_string((double)out[l].real()) + "," + std::to_string((double)out[l].imag()) + ")"; }
};
template <typename P> static void put(P &p, std::vector<typename P::value_type> const &v) { for (size_t l = 0; l < v.size(); ++l) p.set(l, v[l]); }

template <template <typename> class A, template <typename> class B, typename O> static void verify(char const *form, Case const &c, A<I_> &a, B<O_> &b, O)
{
  long bad = 0, n = c.out.size(), first = -1;
  for (long l = 0; l < n; ++l) { if (!c.ok(b.get(l), l)) { if (first < 0) first = l; ++bad; } b.accept(l); }
  if (n > 1) mc::nontrivial();
  if (bad) mc::fail(form, "%ld of %ld results are wrong; result %ld is %s, expected %s", bad, n, first, mc::str(b.get(first)).c_str(), c.want(first).c_str());
  b.r.check("outside", "after the transform, output");
  a.r.check("input", "after the transform, input");
  mc::step();
}
static Domain<(unsigned)DIM> fulldom() { return dom<DIM>(full); }
static std::string gname() { return show(DIM, full) + " scale " + mc::str(scale_); }
static char const *kname()
{
  static std::string s = std::string(MODE == 4 ? "Fftm " : "Fft ") + (KIND == 0 ? "forward" : KIND == 1 ? "inverse" : KIND == 2 ? "real-to-complex" : "complex-to-real") + (MODE == 4 || KIND > 1 ? " along " + std::to_string(SPECIAL) : "");
  return s.c_str();
}
template <typename W, unsigned D> struct mkv;
template <typename W> struct mkv<W, 1> { static W of(int const *n) { return W(n[0]); } };
template <typename W> struct mkv<W, 2> { static W of(int const *n) { return W(n[0], n[1]); } };
template <typename W> struct mkv<W, 3> { static W of(int const *n) { return W(n[0], n[1], n[2]); } };
static long salt;

template <template <typename> class A, template <typename> class B, typename OR, typename OV> static void pair(OR &ref, OV &val)
{
  A<I_> a(ins[0], ins[1], ins[2]); B<O_> b(outs[0], outs[1], outs[2]);
  struct { char const *name; int form; } const forms[] = {{"by reference", 0}, {"by value", 1}, {"in an expression", 2}};
  for (auto const &f : forms)
  {
    if (!mc::next()) continue;
    mc::desc("%s %s, %s, %s to %s", kname(), gname().c_str(), f.name, A<I_>::name(), B<O_>::name());
    Case c(++salt);
    a.r.reset(salt); b.r.reset(salt + 1); put(a, c.in);
    if (f.form == 0) { auto r = ref(a.view(), b.view()); (void)r; verify("result", c, a, b, 0); }
    else if (f.form == 1) { b.view() = val(a.view()); verify("result", c, a, b, 0); }
    else
    {
      for (size_t l = 0; l < c.out.size(); ++l) b.set(l, seq::val<O_>::of(l % 5));
      b.view() = O_(2) * val(a.view()) + b.view();
      for (size_t l = 0; l < c.out.size(); ++l) c.out[l] = c.out[l] * 2.0L + LC(comp(seq::val<O_>::of(l % 5), 0), cplx<O_>::value ? comp(seq::val<O_>::of(l % 5), 1) : 0);
      verify("expression", c, a, b, 0);
    }
    mc::state(b.r.hash());
  }
}
template <template <typename> class A, typename OR> static void inplace(OR &ref, std::true_type)
{
  A<I_> a(ins[0], ins[1], ins[2]);
  if (!mc::next()) return;
  mc::desc("%s %s, in place, %s", kname(), gname().c_str(), A<I_>::name());
  Case c(++salt);
  a.r.reset(salt); put(a, c.in);
  ref(a.view());
  verify("in place", c, a, a, 0);
}
template <template <typename> class A, typename OR> static void inplace(OR &, std::false_type) {}
template <typename OV> static void elements(OV &val)
{
  typedef typename V<DIM>::template of<I_, Dense<DIM, I_> >::type View;
  if (!mc::next()) return;
  mc::desc("%s %s, element by element and from an expression", kname(), gname().c_str());
  Case c(++salt);
  View v(mkv<View, DIM>::of(ins));
  { Iter it(DIM, ins); for (; it.more(); it.next()) at<DIM>::put(v, it.i, c.in[it.lin]); }
  auto r = val(v);
  for (int d = 0; d < DIM; ++d) if ((int)r.size(d) != outs[d]) mc::fail("size", "dimension %d of the result has %d elements, expected %d", d, (int)r.size(d), outs[d]);
  auto q = val(v + v - v);
  for (Iter it(DIM, outs); it.more(); it.next())
  {
    O_ x = at<DIM>::get(q, it.i);
    if (!c.ok(x, it.lin)) mc::fail("expression input", "element %ld of the transform of an expression is %s, expected %s", it.lin, mc::str(x).c_str(), c.want(it.lin).c_str());
    x = at<DIM>::get(r, it.i);
    if (!c.ok(x, it.lin)) mc::fail("element", "element %ld is %s, expected %s", it.lin, mc::str(x).c_str(), c.want(it.lin).c_str());
  }
  if (c.out.size() > 1) mc::nontrivial(); mc::step();
}
template <typename O> static void accessors(O const &o, char const *w)
{
  if (!mc::next()) return;
  mc::desc("%s %s, reported geometry %s", kname(), gname().c_str(), w);
  for (int d = 0; d < DIM; ++d)
  {
    auto i = o.input_size()[d], q = o.output_size()[d];
    if (i.first() != 0 || i.stride() != 1 || (int)i.length() != ins[d]) mc::fail("input size", "dimension %d of the input is %s, expected %d elements", d, show(i).c_str(), ins[d]);
    if (q.first() != 0 || q.stride() != 1 || (int)q.length() != outs[d]) mc::fail("output size", "dimension %d of the output is %s, expected %d elements", d, show(q).c_str(), outs[d]);
  }
  if (o.scale() != scale_) mc::fail("scale", "scale() is %s", mc::str(o.scale()).c_str());
  if (o.forward() != (DIR == -1)) mc::fail("direction", "forward() is %d", o.forward());
  mc::nontrivial(); mc::step();
}
typedef std::integral_constant<bool, KIND <= 1> inpl;
template <unsigned N> static void one(bool all)
{
  Obj<by_reference, N> ref(fulldom(), scale_);
  Obj<by_value, N> val(fulldom(), scale_);
  accessors(ref, "by reference"); accessors(val, "by value");
#if MODE == 1
#define IP(A) inplace<A>(ref, inpl());
#define PR(A, B) pair<A, B>(ref, val);
  PR(whole1, whole1) PR(offs1, whole1) PR(whole1, offs1) PR(stride1, column1) PR(rev1, rev1) IP(whole1) IP(rev1)
  if (all) { PR(offs1, offs1) PR(whole1, stride1) PR(line1, rev1) PR(column1, line1) PR(diag1, offs1) PR(whole1, diag1) PR(column1, whole1) PR(rev1, whole1) IP(offs1) IP(stride1) IP(line1) IP(column1) IP(diag1) }
#elif MODE == 3
#define IP(A) inplace<A>(ref, inpl());
#define PR(A, B) pair<A, B>(ref, val);
  PR(t012, t012) PR(t021, t120) PR(t102, sub3) PR(sub3, t012) PR(t210, t210) PR(t012, t201)
  if (all) { PR(t120, t021) PR(t201, t102) PR(t021, t021) PR(t102, t102) PR(sub3, sub3) IP(t012) IP(t021) IP(t102) IP(t120) IP(t201) IP(t210) IP(sub3) }
#else
#define IP(A) inplace<A>(ref, inpl());
#define PR(A, B) pair<A, B>(ref, val);
  PR(row2, row2) PR(col2, col2) PR(row2, col2) PR(sub2, row2) PR(part2, part2)
  if (all) { PR(col2, row2) PR(row2, sub2) PR(row2, part2) PR(part2, col2) PR(trans2, plane2) PR(plane2, trans2) PR(sub2, sub2) PR(trans2, trans2) PR(col2, part2) IP(row2) IP(col2) IP(sub2) IP(part2) IP(trans2) IP(plane2) }
#endif
  elements(val);
}
// two objects of different sizes used in turn
static void interleaved(int const (*sizes)[3])
{
  if (!mc::next()) return;
  mc::desc("%s objects of two sizes used in turn", kname());
  typedef typename V<DIM>::template of<I_, Dense<DIM, I_> >::type VI;
  typedef typename V<DIM>::template of<O_, Dense<DIM, O_> >::type VO;
  std::unique_ptr<Obj<by_reference, 1> > o[2]; R sc[2] = {R(0.5), R(1)};
  for (int k = 0; k < 2; ++k) { geometry(sizes[k][0], sizes[k][1], sizes[k][2]); scale_ = sc[k]; o[k].reset(new Obj<by_reference, 1>(fulldom(), scale_)); }
  for (int round = 0; round < 6; ++round)
  {
    int k = (round + round / 3) % 2;
    geometry(sizes[k][0], sizes[k][1], sizes[k][2]); scale_ = sc[k];
    Case c(++salt);
    VI a(mkv<VI, DIM>::of(ins)); VO b(mkv<VO, DIM>::of(outs));
    for (Iter it(DIM, ins); it.more(); it.next()) at<DIM>::put(a, it.i, c.in[it.lin]);
    (*o[k])(a, b);
    for (Iter it(DIM, outs); it.more(); it.next())
    { O_ x = at<DIM>::get(b, it.i); if (!c.ok(x, it.lin)) { mc::fail("reuse", "use %d: result %ld is %s, expected %s", round, it.lin, mc::str(x).c_str(), c.want(it.lin).c_str()); break; } }
    mc::step();
  }
  mc::nontrivial();
}
#ifndef NTIMES
# define NTIMES 1
#endif
static void enumerate()
{
  init();
  static R const scales[] = {1, R(0.5), R(-0.25)};
  bool thorough = mc::tier(0, 1);
#if MODE == 1
  int top = NTIMES == 1 ? mc::tier(34, 80) : mc::tier(16, 40);
  for (int n = 1; n <= top; ++n)
    for (int s = 0; s < (NTIMES == 1 ? 3 : 1); ++s)
    {
      geometry(n, 1, 1); scale_ = s == 2 ? R(1) / n : scales[s];
      if (s == 2 && n % 4 && !thorough) continue;
      one<NTIMES>(NTIMES == 1 && (s < 2 || thorough));
    }
  static int const more[] = {48, 60, 64, 97, 100, 128};
  for (int n : more) { if (NTIMES != 1) break; geometry(n, 1, 1); scale_ = 1; one<NTIMES>(true); }
  int const sz[2][3] = {{8, 1, 1}, {13, 1, 1}};
  interleaved(sz);
#elif MODE == 3
  static int const sh[][3] = {{1, 1, 1}, {2, 3, 4}, {4, 3, 2}, {3, 4, 2}, {1, 2, 5}, {5, 1, 2}, {3, 3, 1}, {2, 2, 8}, {8, 2, 2}, {2, 8, 3}, {4, 4, 4}, {3, 5, 6}, {6, 5, 3}, {5, 6, 7}};
  for (auto const &h : sh)
    for (int s = 0; s < (NTIMES == 1 ? 2 : 1); ++s)
    {
      if (&h - sh >= mc::tier(11, 14)) continue;
      geometry(h[0], h[1], h[2]); scale_ = scales[s];
      one<NTIMES>(NTIMES == 1 && (s == 0 || thorough));
    }
  int const sz[2][3] = {{2, 3, 4}, {4, 2, 3}};
  interleaved(sz);
#else
  int const top = mc::tier(5, 8);
  std::vector<std::pair<int, int> > sh;
  for (int a = 1; a <= top; ++a) for (int b = 1; b <= top; ++b) sh.push_back(std::make_pair(a, b));
  static int const more[][2] = {{1, 8}, {2, 8}, {8, 2}, {3, 16}, {16, 3}, {8, 8}, {4, 12}, {12, 4}, {3, 24}, {24, 3}, {7, 9}, {2, 32}, {32, 2}};
  for (auto const &m : more) sh.push_back(std::make_pair(m[0], m[1]));
  for (auto const &h : sh)
    for (int s = 0; s < (NTIMES == 1 ? 2 : 1); ++s)
    {
      if (NTIMES != 1 && !thorough && (h.first + h.second) % 3) continue;
      geometry(h.first, h.second, 1); scale_ = scales[s];
      one<NTIMES>(NTIMES == 1 && (s == 0 || thorough));
    }
  int const sz[2][3] = {{4, 8, 1}, {5, 3, 1}};
  interleaved(sz);
#endif
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
