// C15: solver objects and functions against their defining equations: every size of the bound, every requested
// variant, every pair of placements, and every history of decompositions, copies and assignments of two objects.
// WHICH: 0 LU, 1 Cholesky, 2 QR, 3 SVD, 4 covsol / llsqsol / toepsol.   PART: 0 variants and placements, 1 histories
#include <vsip/solvers.hpp>
#include <vsip/math.hpp>
#include <vsip/selgen.hpp>
#include "place.hpp"
#ifndef PART
#define PART 0
#endif
typedef std::complex<double> Z;
static bool const CPX = cplx<T>::value;
static double const eps = sizeof(R) == 8 ? 1e-11 : 4e-4;

// plain reference matrices
struct Mx
{
  int m, n; std::vector<Z> a;
  Mx(int m_ = 0, int n_ = 0) : m(m_), n(n_), a(m_ * n_) {}
  Z &operator()(int i, int j) { return a[i * n + j]; }
  Z operator()(int i, int j) const { return a[i * n + j]; }
};
static Mx operator*(Mx const &x, Mx const &y) { Mx r(x.m, y.n); for (int i = 0; i < x.m; ++i) for (int k = 0; k < x.n; ++k) for (int j = 0; j < y.n; ++j) r(i, j) += x(i, k) * y(k, j); return r; }
static Mx operator-(Mx x, Mx const &y) { for (size_t i = 0; i < x.a.size(); ++i) x.a[i] -= y.a[i]; return x; }
static Mx operator*(Z s, Mx x) { for (auto &v : x.a) v *= s; return x; }
static Mx tr_(Mx const &x) { Mx r(x.n, x.m); for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) r(j, i) = x(i, j); return r; }
static Mx he_(Mx const &x) { Mx r = tr_(x); for (auto &v : r.a) v = std::conj(v); return r; }
static Mx op_(mat_op_type t, Mx const &x) { return t == mat_ntrans ? x : t == mat_trans ? tr_(x) : he_(x); }
static Mx eye(int n, int k = -1) { Mx r(n, k < 0 ? n : k); for (int i = 0; i < n && i < r.n; ++i) r(i, i) = 1; return r; }
static double mag(Mx const &x) { double m = 0; for (auto v : x.a) { double d = std::abs(v); if (!(d <= m)) m = d; } return m; }
static char const *opn(mat_op_type t) { return t == mat_ntrans ? "plain" : t == mat_trans ? "transposed" : "Hermitian"; }
template <typename Q> static Q t_(Z v, std::true_type) { return Q(v.real(), v.imag()); }
template <typename Q> static Q t_(Z v, std::false_type) { return Q(v.real()); }
static T tof(Z v) { return t_<T>(v, std::integral_constant<bool, cplx<T>::value>()); }
static Z zof(T v) { return Z(comp(v, 0), CPX ? comp(v, 1) : 0); }
static void near(char const *key, char const *what, Mx const &got, Mx const &want, double scale)
{
  double e = mag(got - want);
  double lim = eps * (scale + mag(want) + 1);
  if (!(e <= lim)) mc::fail(key, "%s: off by %g (allowed %g)", what, e, lim);
}
// well-conditioned matrix number k: a permuted multiple of the identity plus something
static Mx mat(int k, int m, int n)
{
  Mx r(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j)
  {
    int h = (i * 7 + j * 5 + k * 3 + i * j * (k + 2)) % 11 - 5, g = (i * 3 + j * 8 + k * 5 + 2 * i * j) % 7 - 3;
    r(i, j) = Z(h * 0.25, CPX ? g * 0.25 : 0);
    if ((i + k) % (m > n ? m : n) == j) r(i, j) += Z(3 + (i % 3), CPX ? (k % 3) - 1 : 0);
  }
  return r;
}
static Mx rhs(int k, int m, int n) { Mx r(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) r(i, j) = Z((i * 5 + j * 3 + k * 7) % 9 - 4, CPX ? (i * 2 + j * 7 + k) % 5 - 2 : 0); return r; }
static Mx spd(int k, int n) { Mx a = mat(k, n, n); Mx r = he_(a) * a; for (int i = 0; i < n; ++i) r(i, i) = Z(r(i, i).real() + 1, 0); return r; }

// plain library matrices
static Matrix<T> lib(Mx const &x) { Matrix<T> r(x.m, x.n); for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) r.put(i, j, tof(x(i, j))); return r; }
template <typename B> static Mx refm(const_Matrix<T, B> x) { Mx r(x.size(0), x.size(1)); for (int i = 0; i < r.m; ++i) for (int j = 0; j < r.n; ++j) r(i, j) = zof(x.get(i, j)); return r; }
// placed ones
template <typename P> static void load(P &p, Mx const &x) { p.fill(3); for (int i = 0; i < x.m * x.n; ++i) p.set(i, tof(x.a[i])); }
template <typename P> static Mx read(P &p, int m, int n) { Mx r(m, n); for (int i = 0; i < m * n; ++i) r.a[i] = zof(p.get(i)); return r; }
template <typename P> static void accept(P &p, int n) { for (int i = 0; i < n; ++i) p.accept(i); }

typedef list<mrow, mcol, msub, mtrans, plane, planemid> PS;
static mat_op_type const OTHER = CPX ? mat_herm : mat_trans;
static int NN;
static char text[200];

// ---------------------------------------------------------------------------------------------------------------
// all sizes up to a bound, and some larger ones
static std::vector<int> ladder(int top, std::vector<int> more) { std::vector<int> v; for (int i = 1; i <= top; ++i) v.push_back(i); for (int x : more) v.push_back(x); return v; }
static std::vector<std::pair<int, int> > shapes(int top, bool tall)
{
  std::vector<std::pair<int, int> > v;
  for (int m = 1; m <= top; ++m) for (int n = 1; n <= (tall ? m : top); ++n) v.push_back({m, n});
  for (auto x : {std::make_pair(16, 16), std::make_pair(17, 9), std::make_pair(33, 5)}) { v.push_back(x); if (!tall && x.first > x.second && x.first < 33) v.push_back({x.second, x.first}); }
  return v;
}
#if WHICH == 0
template <mat_op_type OP, typename S, typename B, typename X> static void solve_at(S &s, Mx const &a, int p, char const *what)
{
  int n = a.m; B b(n, p); X x(n, p); Mx rb = rhs(p, n, p);
  load(b, rb); x.fill(9);
  if (!s.template solve<OP>(b.view(), x.view())) mc::fail("lu solve refused", "%s: %s solve reports failure", what, opn(OP));
  Mx g = read(x, n, p); accept(x, n * p);
  near("lu solve", (std::string(what) + ": " + opn(OP) + " system times solution against right-hand side").c_str(), op_(OP, a) * g, rb, mag(g) * mag(a) * n);
  b.r.check("lu right-hand side", "right-hand side changed"); x.r.check("lu outside", "memory outside the solution changed");
}
template <mat_op_type OP, typename S> static void solve_v(S &s, Mx const &a, int p, char const *what)
{
  Mx rb = rhs(p + 1, a.m, p);
  Mx g = refm(s.template solve<OP>(lib(rb)));
  near("lu solve value", (std::string(what) + ": " + opn(OP) + " solution by value").c_str(), op_(OP, a) * g, rb, mag(g) * mag(a) * a.m);
}
template <typename S> static void solve_all(S &s, Mx const &a, char const *what)
{
  for (int p = 1; p <= 2; ++p)
  {
    solve_at<mat_ntrans, S, mrow, mcol>(s, a, p, what); solve_at<mat_trans, S, mcol, mrow>(s, a, p, what);
#if CPLX
    solve_at<mat_herm, S, mrow, mrow>(s, a, p, what);
#endif
  }
}
template <typename B, typename X, typename A> struct Case { static void go()
{
  for (int n : ladder(mc::tier(6, 12), {16, 17, 33})) for (int p = 1; p <= 3; ++p) for (int k = 0; k < (n < 3 ? 2 : n > 12 ? 1 : 3); ++k)
  {
    if (!mc::next()) continue;
    mc::desc("lud %dx%d, %d right-hand sides, matrix %d as %s, b as %s, x as %s", n, n, p, k, A::name(), B::name(), X::name());
    Mx a = mat(k, n, n); A pa(n, n); load(pa, a);
    lud<T, by_reference> s(n);
    if (!s.decompose(pa.view())) mc::fail("lu decompose", "a regular matrix is reported singular");
    accept(pa, n * n); pa.r.check("lu outside", "memory outside the decomposed matrix changed");
    solve_at<mat_ntrans, lud<T, by_reference>, B, X>(s, a, p, "placed");
    solve_at<mat_trans, lud<T, by_reference>, B, X>(s, a, p, "placed");
#if CPLX
    solve_at<mat_herm, lud<T, by_reference>, B, X>(s, a, p, "placed");
#endif
    mc::nontrivial();
    if (s.length() != (length_type)n) mc::fail("lu length", "length() %d", (int)s.length());
    lud<T, by_value> v(n); load(pa, a); v.decompose(pa.view());
    solve_v<mat_ntrans>(v, a, p, "by value"); solve_v<mat_trans>(v, a, p, "by value");
#if CPLX
    solve_v<mat_herm>(v, a, p, "by value");
#endif
  }
} };
static void variants()
{
  loopD<Case>(list<mrow, mcol, msub, mtrans, plane>(), PS(), PS());
  // every small integer matrix: regular ones are solved, singular ones refused
  int const ent[] = {0, 1, -1, 2};
  for (int n = 2; n <= 3; ++n)
  {
    int base = n == 2 ? 4 : mc::tier(2, 3), cells = n * n; long tot = 1; for (int i = 0; i < cells; ++i) tot *= base;
    lud<T, by_reference> s(n);
    for (long c = 0; c < tot; ++c)
    {
      if (!mc::next()) continue;
      Mx a(n, n); long q = c; for (int i = 0; i < cells; ++i) { a.a[i] = ent[q % base]; if (CPX && i == 0) a.a[i] *= Z(0, 1); q /= base; }
      Z det = n == 2 ? a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0)
                     : a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
      mc::desc("lud of the integer matrix number %ld of size %d, one object for all", c, n);
      bool ok = s.decompose(lib(a));
      if (ok != (std::abs(det) > 1e-9)) mc::fail("lu singular", "determinant %g, decompose returned %d", std::abs(det), (int)ok);
      if (ok) { mc::nontrivial(); solve_all(s, a, "integer matrix"); }
    }
  }
}
typedef lud<T, by_reference> S0; typedef lud<T, by_value> S1;
template <typename S> static S *make(int n) { return new S(n); }
template <typename S> static void dec(S &s, Mx const &a) { s.decompose(lib(a)); }
static Mx gen(int k, int n) { return mat(k, n, n); }
static void verify(S0 &s, Mx const &a, char const *w) { solve_all(s, a, w); }
static void verify(S1 &s, Mx const &a, char const *w) { solve_v<mat_ntrans>(s, a, 2, w); solve_v<mat_trans>(s, a, 1, w); }
static int const MINN = 1;
#endif
// ---------------------------------------------------------------------------------------------------------------
#if WHICH == 1
static mat_uplo UP = lower;
template <typename S, typename B, typename X> static void solve_at(S &s, Mx const &a, int p, char const *what)
{
  int n = a.m; B b(n, p); X x(n, p); Mx rb = rhs(p, n, p);
  load(b, rb); x.fill(9);
  if (!s.solve(b.view(), x.view())) mc::fail("cholesky solve refused", "%s: solve reports failure", what);
  Mx g = read(x, n, p); accept(x, n * p);
  near("cholesky solve", (std::string(what) + ": system times solution against right-hand side").c_str(), a * g, rb, mag(g) * mag(a) * n);
  b.r.check("cholesky right-hand side", "right-hand side changed"); x.r.check("cholesky outside", "memory outside the solution changed");
}
template <typename S> static void solve_v(S &s, Mx const &a, int p, char const *what)
{
  Mx rb = rhs(p + 1, a.m, p), g = refm(s.solve(lib(rb)));
  near("cholesky solve value", (std::string(what) + ": solution by value").c_str(), a * g, rb, mag(g) * mag(a) * a.m);
}
template <typename B, typename X, typename A> struct Case { static void go()
{
  for (int n : ladder(mc::tier(6, 12), {16, 17, 33})) for (int p = 1; p <= 3; ++p) for (int k = 0; k < 2; ++k) for (int u = 0; u < 2; ++u)
  {
    if (!mc::next()) continue;
    mc::desc("chold %s %dx%d, %d right-hand sides, matrix %d as %s, b as %s, x as %s", u ? "upper" : "lower", n, n, p, k, A::name(), B::name(), X::name());
    Mx a = spd(k, n); A pa(n, n); load(pa, a);
    chold<T, by_reference> s(u ? upper : lower, n);
    if (!s.decompose(pa.view())) mc::fail("cholesky decompose", "a positive definite matrix is refused");
    accept(pa, n * n); pa.r.check("cholesky outside", "memory outside the decomposed matrix changed");
    solve_at<chold<T, by_reference>, B, X>(s, a, p, "placed");
    if (s.length() != (length_type)n || s.uplo() != (u ? upper : lower)) mc::fail("cholesky length", "length() or uplo()");
    mc::nontrivial();
    chold<T, by_value> v(u ? upper : lower, n); load(pa, a); v.decompose(pa.view());
    solve_v(v, a, p, "by value");
  }
} };
static void variants()
{
  loopD<Case>(list<mrow, mcol, msub, mtrans, plane>(), PS(), PS());
  // every small symmetric integer matrix: refused unless positive definite
  for (int n = 1; n <= 3; ++n) for (int u = 0; u < 2; ++u)
  {
    int cells = n * (n + 1) / 2; long tot = 1; for (int i = 0; i < cells; ++i) tot *= n == 3 ? 4 : 6;
    chold<T, by_reference> s(u ? upper : lower, n);
    for (long c = 0; c < tot; ++c)
    {
      if (!mc::next()) continue;
      Mx a(n, n); long q = c; int b = n == 3 ? 4 : 6;
      for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { int v = q % b - 2; q /= b; if (i == j) { v += n == 3 ? 2 : 0; a(i, i) = v; } else { a(i, j) = CPX ? Z(0, v) : Z(v); a(j, i) = std::conj(a(i, j)); } }
      double d1 = a(0, 0).real(), d2 = n > 1 ? (a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0)).real() : 1;
      double d3 = n > 2 ? (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0))).real() : 1;
      mc::desc("chold %s of the integer matrix number %ld of size %d, one object for all", u ? "upper" : "lower", c, n);
      bool pd = d1 > 0.5 && d2 > 0.5 && d3 > 0.5, semi = d1 > -0.5 && d2 > -0.5 && d3 > -0.5;
      bool ok = s.decompose(lib(a));
      if (pd && !ok) mc::fail("cholesky refused", "positive definite, refused");
      if (!pd && !semi && ok) mc::fail("cholesky accepted", "not positive definite (minors %g %g %g), accepted", d1, d2, d3);
      if (pd) { mc::nontrivial(); solve_at<chold<T, by_reference>, mrow, mcol>(s, a, 2, "integer matrix"); }
    }
  }
}
typedef chold<T, by_reference> S0; typedef chold<T, by_value> S1;
template <typename S> static S *make(int n) { return new S(UP, n); }
template <typename S> static void dec(S &s, Mx const &a) { s.decompose(lib(a)); }
static Mx gen(int k, int n) { return spd(k, n); }
static void verify(S0 &s, Mx const &a, char const *w) { solve_at<S0, mrow, mcol>(s, a, 2, w); }
static void verify(S1 &s, Mx const &a, char const *w) { solve_v(s, a, 2, w); }
static int const MINN = 1;
#endif
// ---------------------------------------------------------------------------------------------------------------
#if WHICH == 2
static storage_type ST = qrd_saveq;
static char const *stn(storage_type s) { return s == qrd_saveq ? "full Q" : s == qrd_saveq1 ? "skinny Q" : "no Q"; }
template <typename X, typename Y> static bool same(X const &, Y const &) { return false; }
// x = op(Q) b or b op(Q)
template <mat_op_type OP, product_side_type SIDE, typename B, typename X, typename S> static void product(S &s, Mx const &q, int p, char const *what)
{
  Mx o = op_(OP, q); Mx rb = SIDE == mat_lside ? rhs(p, o.n, p) : rhs(p, p, o.m);
  Mx want = SIDE == mat_lside ? o * rb : rb * o;
  B b(rb.m, rb.n); X x(want.m, want.n); load(b, rb); x.fill(8);
  if (!s.template prodq<OP, SIDE>(b.view(), x.view())) mc::fail("qr product refused", "prodq reports failure");
  near("qr product", (std::string(what) + ": " + opn(OP) + (SIDE == mat_lside ? " Q times b" : " b times Q")).c_str(), read(x, want.m, want.n), want, mag(rb) * q.m);
  accept(x, want.m * want.n);
  b.r.check("qr operand", "operand of prodq changed"); x.r.check("qr outside", "memory outside the product changed");
}
template <mat_op_type OP, product_side_type SIDE, typename S> static void product_v(S &s, Mx const &q, int p)
{
  Mx o = op_(OP, q); Mx rb = SIDE == mat_lside ? rhs(p, o.n, p) : rhs(p, p, o.m);
  Mx want = SIDE == mat_lside ? o * rb : rb * o;
  Mx g = refm(s.template prodq<OP, SIDE>(lib(rb)));
  if (g.m != want.m || g.n != want.n) { mc::fail("qr product value", "%s prodq of a %dx%d matrix is %dx%d", opn(OP), rb.m, rb.n, g.m, g.n); return; }
  near("qr product value", (std::string("by value: ") + opn(OP) + (SIDE == mat_lside ? " Q times b" : " b times Q")).c_str(), g, want, mag(rb) * q.m);
}
template <typename S> static Mx qof(S &s, int m, int n)
{
  int c = s.qstorage() == qrd_saveq ? m : n;
  Matrix<T> x(m, c); s.template prodq<mat_ntrans, mat_lside>(lib(eye(c)), x); return refm(x);
}
template <typename B, typename X, typename S> static void rest(S &s, Mx const &a, int p, char const *what)
{
  int m = a.m, n = a.n;
  // R, through its inverse
  Matrix<T> ri(n, n); s.template rsol<mat_ntrans>(lib(eye(n)), T(1), ri); Mx r1 = refm(ri);
  double sc = mag(a) * mag(a) * mag(r1) * mag(r1) * m;
  near("qr r", (std::string(what) + ": R is the triangular factor of A'A").c_str(), he_(r1) * (he_(a) * a) * r1, eye(n), sc);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (std::abs(r1(i, j)) > eps) mc::fail("qr r shape", "%s: R is not upper triangular", what);
  T const alpha = tof(Z(-1.5, CPX ? 0.5 : 0));
  Mx rb = rhs(p + 2, n, p);
  {
    B b(n, p); X x(n, p); load(b, rb); x.fill(4);
    s.template rsol<mat_ntrans>(b.view(), alpha, x.view());
    near("qr rsol", (std::string(what) + ": rsol").c_str(), read(x, n, p), zof(alpha) * (r1 * rb), sc); accept(x, n * p);
    b.r.check("qr operand", "right-hand side changed"); x.r.check("qr outside", "memory outside the solution changed");
    x.fill(4); s.template rsol<OTHER>(b.view(), alpha, x.view());
    near("qr rsol", (std::string(what) + ": rsol with the transposed factor").c_str(), read(x, n, p), zof(alpha) * (he_(r1) * rb), sc); accept(x, n * p);
    b.r.check("qr operand", "right-hand side changed"); x.r.check("qr outside", "memory outside the solution changed");
    x.fill(4); if (!s.covsol(b.view(), x.view())) mc::fail("qr covsol refused", "failure");
    Mx g = read(x, n, p); near("qr covsol", (std::string(what) + ": covariance system").c_str(), (he_(a) * a) * g, rb, mag(a) * mag(a) * mag(g) * m); accept(x, n * p);
    b.r.check("qr operand", "right-hand side changed"); x.r.check("qr outside", "memory outside the solution changed");
  }
  {
    Mx rc = rhs(p + 4, m, p); B b(m, p); X x(n, p); load(b, rc); x.fill(4);
    if (!s.lsqsol(b.view(), x.view())) mc::fail("qr lsqsol refused", "failure");
    Mx g = read(x, n, p), res = he_(a) * (a * g - rc);
    near("qr lsqsol", (std::string(what) + ": normal equations of the least-squares solution").c_str(), res, Mx(n, p), mag(a) * mag(a) * mag(g) * m * n + mag(a) * mag(rc) * m); accept(x, n * p);
    b.r.check("qr operand", "right-hand side changed"); x.r.check("qr outside", "memory outside the solution changed");
  }
}
template <typename B, typename X, typename S> static void products(S &s, Mx const &a, int p, char const *what)
{
  Mx q = qof(s, a.m, a.n);
  near("qr q", (std::string(what) + ": columns of Q are orthonormal").c_str(), he_(q) * q, eye(q.n), q.m);
  Mx r = he_(q) * a;
  for (int i = 0; i < r.m; ++i) for (int j = 0; j < i && j < r.n; ++j) if (!(std::abs(r(i, j)) <= eps * (mag(a) + 1) * a.m)) { mc::fail("qr q shape", "%s: Q'A is not upper triangular (%g below the diagonal)", what, std::abs(r(i, j))); return; }
  near("qr qr", (std::string(what) + ": Q R against A").c_str(), q * r, a, mag(a) * a.m);
  product<mat_ntrans, mat_lside, B, X>(s, q, p, what); product<mat_ntrans, mat_rside, B, X>(s, q, p, what);
  product<OTHER, mat_lside, B, X>(s, q, p, what); product<OTHER, mat_rside, B, X>(s, q, p, what);
}
template <typename S> static void values(S &s, Mx const &a, int p)
{
  if (s.qstorage() != qrd_nosaveq)
  {
    Mx q = refm(s.template prodq<mat_ntrans, mat_lside>(lib(eye(s.qstorage() == qrd_saveq ? a.m : a.n))));
    near("qr q", "columns of Q are orthonormal", he_(q) * q, eye(q.n), q.m);
    product_v<mat_ntrans, mat_lside>(s, q, p); product_v<mat_ntrans, mat_rside>(s, q, p); product_v<OTHER, mat_lside>(s, q, p); product_v<OTHER, mat_rside>(s, q, p);
  }
  Mx rb = rhs(p, a.n, p), rc = rhs(p, a.m, p);
  Mx r1 = refm(s.template rsol<mat_ntrans>(lib(eye(a.n)), T(1)));
  double sc = mag(a) * mag(a) * mag(r1) * mag(r1) * a.m;
  near("qr value", "R by value", he_(r1) * (he_(a) * a) * r1, eye(a.n), sc);
  near("qr value", "rsol by value", refm(s.template rsol<OTHER>(lib(rb), T(2))), Z(2) * (he_(r1) * rb), sc);
  Mx g = refm(s.covsol(lib(rb))); near("qr value", "covsol by value", (he_(a) * a) * g, rb, mag(a) * mag(a) * mag(g) * a.m);
  g = refm(s.lsqsol(lib(rc))); near("qr value", "lsqsol by value", he_(a) * (a * g - rc), Mx(a.n, p), mag(a) * mag(a) * mag(g) * a.m * a.n + mag(a) * mag(rc) * a.m);
}
template <typename B, typename X, typename A> struct Case { static void go()
{
  static storage_type const sts[] = {qrd_nosaveq, qrd_saveq1, qrd_saveq};
  int const top = mc::tier(WHICH == 3 ? 5 : 6, 9);
  for (auto const &z : shapes(top, true)) for (int m = z.first, n = z.second, once = 1; once; once = 0) for (int st = 0; st < 3; ++st) for (int p = 1; p <= 2; ++p) for (int k = 0; k < 2; ++k)
  {
    if (!mc::next()) continue;
    mc::desc("qrd %s %dx%d, %d columns, matrix %d as %s, b as %s, x as %s", stn(sts[st]), m, n, p, k, A::name(), B::name(), X::name());
    Mx a = mat(k, m, n); A pa(m, n); load(pa, a);
    qrd<T, by_reference> s(m, n, sts[st]);
    if (!s.decompose(pa.view())) mc::fail("qr decompose", "refused");
    accept(pa, m * n); pa.r.check("qr outside", "memory outside the decomposed matrix changed");
    if (s.rows() != (length_type)m || s.columns() != (length_type)n || s.qstorage() != sts[st]) mc::fail("qr size", "rows, columns or storage");
    if (st) products<B, X>(s, a, p, "placed");
    rest<B, X>(s, a, p, "placed");
    mc::nontrivial();
    qrd<T, by_value> v(m, n, sts[st]); load(pa, a); v.decompose(pa.view()); values(v, a, p);
  }
} };
static void variants() { loopD<Case>(list<mrow, mcol, msub, mtrans>(), list<mrow, msub, plane>(), list<mcol, mtrans, planemid>()); }
typedef qrd<T, by_reference> S0; typedef qrd<T, by_value> S1;
template <typename S> static S *make(int n) { return new S(n + 1, n, ST); }
template <typename S> static void dec(S &s, Mx const &a) { s.decompose(lib(a)); }
static Mx gen(int k, int n) { return mat(k, n + 1, n); }
static void verify(S0 &s, Mx const &a, char const *w) { if (ST != qrd_nosaveq) products<mrow, mcol>(s, a, 2, w); rest<mrow, mcol>(s, a, 2, w); }
static void verify(S1 &s, Mx const &a, char const *) { values(s, a, 2); }
static int const MINN = 1;
#endif
// ---------------------------------------------------------------------------------------------------------------
#if WHICH == 3
static storage_type US = svd_uvfull, VS = svd_uvfull;
static char const *stn(storage_type s) { return s == svd_uvfull ? "full" : s == svd_uvpart ? "part" : "no"; }
template <mat_op_type OP, product_side_type SIDE, bool U, typename B, typename X, typename S> static void product(S &s, Mx const &q, int p, char const *what)
{
  Mx o = op_(OP, q); Mx rb = SIDE == mat_lside ? rhs(p, o.n, p) : rhs(p, p, o.m);
  Mx want = SIDE == mat_lside ? o * rb : rb * o;
  B b(rb.m, rb.n); X x(want.m, want.n); load(b, rb); x.fill(8);
  bool ok = U ? s.template produ<OP, SIDE>(b.view(), x.view()) : s.template prodv<OP, SIDE>(b.view(), x.view());
  if (!ok) mc::fail("svd product refused", "failure");
  near(U ? "svd produ" : "svd prodv", (std::string(what) + ": " + opn(OP) + (SIDE == mat_lside ? " factor times b" : " b times factor")).c_str(), read(x, want.m, want.n), want, mag(rb) * (q.m + q.n));
  accept(x, want.m * want.n);
  b.r.check("svd operand", "operand changed"); x.r.check("svd outside", "memory outside the product changed");
}
template <mat_op_type OP, product_side_type SIDE, typename S> static void product_v(S &s, Mx const &u, Mx const &v, int p)
{
  for (int w = 0; w < 2; ++w)
  {
    Mx const &q = w ? v : u; if (!q.n) continue;
    Mx o = op_(OP, q); Mx rb = SIDE == mat_lside ? rhs(p, o.n, p) : rhs(p, p, o.m);
    Mx want = SIDE == mat_lside ? o * rb : rb * o;
    Mx g = w ? refm(s.template prodv<OP, SIDE>(lib(rb))) : refm(s.template produ<OP, SIDE>(lib(rb)));
    if (g.m != want.m || g.n != want.n) { mc::fail("svd product value", "product of the %s factor is %dx%d, expected %dx%d", opn(OP), g.m, g.n, want.m, want.n); continue; }
    near("svd product value", "product by value", g, want, mag(rb) * (q.m + q.n));
  }
}
static void factors(Mx const &a, Mx const &u, Mx const &v, std::vector<double> const &sv, char const *what)
{
  int p = std::min(a.m, a.n); double f = 0, g = 0;
  for (int i = 0; i < p; ++i) { if (!(sv[i] >= 0) || (i && sv[i] > sv[i - 1] * (1 + eps))) { mc::fail("svd order", "%s: singular value %d is %g after %g", what, i, sv[i], i ? sv[i - 1] : 0.); return; } f += sv[i] * sv[i]; }
  for (auto z : a.a) g += std::norm(z);
  if (!(std::abs(f - g) <= eps * (g + 1) * 10)) mc::fail("svd values", "%s: squares of the singular values sum to %g, those of the elements to %g", what, f, g);
  if (u.n) near("svd u", (std::string(what) + ": columns of U are orthonormal").c_str(), he_(u) * u, eye(u.n), u.m);
  if (v.n) near("svd v", (std::string(what) + ": columns of V are orthonormal").c_str(), he_(v) * v, eye(v.n), v.m);
  if (u.n && v.n)
  {
    Mx sg(u.n, v.n); for (int i = 0; i < p; ++i) sg(i, i) = sv[i];
    near("svd usv", (std::string(what) + ": U S V' against A").c_str(), u * sg * he_(v), a, mag(a) * (a.m + a.n));
  }
  else if (u.n || v.n)   // A A' U = U S^2
  {
    Mx const &q = u.n ? u : v; Mx aa = u.n ? a * he_(a) : he_(a) * a, s2(q.n, q.n); for (int i = 0; i < p; ++i) s2(i, i) = sv[i] * sv[i];
    near("svd vectors", (std::string(what) + ": singular vectors").c_str(), aa * q, q * s2, mag(a) * mag(a) * a.m * a.n);
  }
}
template <typename B, typename X> static Mx part(svd<T, by_reference> &s, bool u, int lo, int hi)
{
  int rows = u ? s.rows() : s.columns(); X x(rows, hi - lo + 1); x.fill(5);
  bool ok = u ? s.u(lo, hi, x.view()) : s.v(lo, hi, x.view());
  if (!ok) mc::fail("svd vectors refused", "failure");
  Mx r = read(x, rows, hi - lo + 1); accept(x, rows * (hi - lo + 1)); x.r.check("svd outside", "memory outside the vectors changed"); return r;
}
static int ucols(int m, int n, storage_type s, bool u) { return s == svd_uvfull ? (u ? m : n) : s == svd_uvpart ? std::min(m, n) : 0; }
template <typename B, typename X> static void all(svd<T, by_reference> &s, Mx const &a, std::vector<double> const &sv, int p, char const *what)
{
  int cu = ucols(a.m, a.n, s.ustorage(), true), cv = ucols(a.m, a.n, s.vstorage(), false);
  Mx u, v; if (cu) u = part<B, X>(s, true, 0, cu - 1); if (cv) v = part<B, X>(s, false, 0, cv - 1);
  factors(a, u, v, sv, what);
  for (int w = 0; w < 2; ++w)
    for (int lo = 0; lo < (w ? cu : cv); ++lo) for (int hi = lo; hi < (w ? cu : cv); ++hi)
    {
      Mx q = part<B, X>(s, w, lo, hi), c(q.m, q.n); for (int i = 0; i < q.m; ++i) for (int j = 0; j < q.n; ++j) c(i, j) = (w ? u : v)(i, lo + j);
      near("svd range", "a range of singular vectors", q, c, 0);
    }
  if (cu) { product<mat_ntrans, mat_lside, true, B, X>(s, u, p, what); product<mat_ntrans, mat_rside, true, B, X>(s, u, p, what); product<OTHER, mat_lside, true, B, X>(s, u, p, what); product<OTHER, mat_rside, true, B, X>(s, u, p, what); }
  if (cv) { product<mat_ntrans, mat_lside, false, B, X>(s, v, p, what); product<mat_ntrans, mat_rside, false, B, X>(s, v, p, what); product<OTHER, mat_lside, false, B, X>(s, v, p, what); product<OTHER, mat_rside, false, B, X>(s, v, p, what); }
}
static void values(svd<T, by_value> &s, Mx const &a, std::vector<double> const &sv, int p)
{
  int cu = ucols(a.m, a.n, s.ustorage(), true), cv = ucols(a.m, a.n, s.vstorage(), false);
  Mx u, v; if (cu) u = refm(s.u(0, cu - 1)); if (cv) v = refm(s.v(0, cv - 1));
  factors(a, u, v, sv, "by value");
  product_v<mat_ntrans, mat_lside>(s, u, v, p); product_v<mat_ntrans, mat_rside>(s, u, v, p); product_v<OTHER, mat_lside>(s, u, v, p); product_v<OTHER, mat_rside>(s, u, v, p);
}
static Mx special(int k, int m, int n)   // 0, 1 regular; 2 zero; 3 rank one; 4 one element; 5 diagonal
{
  if (k < 2) return mat(k, m, n);
  Mx a(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = k == 3 ? Z((i + 1) * (j - 1.5), CPX ? (i + 1) * 0.5 : 0) : k == 4 ? Z(i == m - 1 && j == n - 1 ? -2 : 0) : k == 5 ? Z(i == j ? i - 1 : 0) : Z(0);
  return a;
}
template <typename V> static std::vector<double> vec(V v) { std::vector<double> r; for (index_type i = 0; i < v.size(); ++i) r.push_back(v.get(i)); return r; }
template <typename B, typename X, typename A> struct Case { static void go()
{
  static storage_type const sts[] = {svd_uvnos, svd_uvpart, svd_uvfull};
  int const top = mc::tier(WHICH == 3 ? 5 : 6, 9);
  for (auto const &z : shapes(top, false)) for (int m = z.first, n = z.second, once = 1; once; once = 0) for (int su = 0; su < 3; ++su) for (int sv = 0; sv < 3; ++sv) for (int k = 0; k < 6; ++k)
  {
    if (!mc::next()) continue;
    int p = 1 + k % 2;
    mc::desc("svd U %s V %s %dx%d, matrix %d as %s, b as %s, x as %s", stn(sts[su]), stn(sts[sv]), m, n, k, A::name(), B::name(), X::name());
    Mx a = special(k, m, n); A pa(m, n); load(pa, a);
    svd<T, by_reference> s(m, n, sts[su], sts[sv]);
    Vector<R> d(std::min(m, n));
    if (!s.decompose(pa.view(), d)) mc::fail("svd decompose", "refused");
    accept(pa, m * n); pa.r.check("svd outside", "memory outside the decomposed matrix changed");
    if (s.rows() != (length_type)m || s.columns() != (length_type)n || s.ustorage() != sts[su] || s.vstorage() != sts[sv]) mc::fail("svd size", "rows, columns or storage");
    all<B, X>(s, a, vec(d), p, "placed");
    mc::nontrivial();
    svd<T, by_value> v(m, n, sts[su], sts[sv]); load(pa, a); values(v, a, vec(v.decompose(pa.view())), p);
  }
} };
static void variants() { loopD<Case>(list<mrow, mcol, msub>(), list<mrow, mtrans>(), list<mcol, msub>()); }
typedef svd<T, by_reference> S0; typedef svd<T, by_value> S1;
template <typename S> static S *make(int n) { return new S(n + 1, n, US, VS); }
static std::map<std::string, std::vector<double> > svs;
static std::string keyof(Mx const &a) { return std::string((char const *)a.a.data(), a.a.size() * sizeof(Z)); }
static void dec(S0 &s, Mx const &a) { Vector<R> d(std::min(a.m, a.n)); s.decompose(lib(a), d); svs[keyof(a)] = vec(d); }
static void dec(S1 &s, Mx const &a) { svs[keyof(a)] = vec(s.decompose(lib(a))); }
static Mx gen(int k, int n) { return mat(k, n + 1, n); }
static void verify(S0 &s, Mx const &a, char const *w) { all<mrow, mcol>(s, a, svs[keyof(a)], 2, w); }
static void verify(S1 &s, Mx const &a, char const *) { values(s, a, svs[keyof(a)], 2); }
static int const MINN = 1;
#endif
// ---------------------------------------------------------------------------------------------------------------
#if WHICH == 4
template <typename B, typename X, typename A> struct Case { static void go()
{
  int const top = mc::tier(6, 10);
  for (auto const &z : shapes(top, true)) for (int m = z.first, n = z.second, once = 1; once; once = 0) for (int p = 1; p <= 3; ++p) for (int k = 0; k < 2; ++k)
  {
    if (!mc::next()) continue;
    mc::desc("covsol and llsqsol %dx%d, %d columns, matrix %d as %s, b as %s, x as %s", m, n, p, k, A::name(), B::name(), X::name());
    Mx a = mat(k, m, n), rb = rhs(p, n, p), rc = rhs(p, m, p);
    A pa(m, n); load(pa, a);
    B b(n, p); X x(n, p); load(b, rb); x.fill(3);
    covsol(pa.view(), b.view(), x.view());
    Mx g = read(x, n, p); near("covsol", "covariance system", (he_(a) * a) * g, rb, mag(a) * mag(a) * mag(g) * m);
    accept(x, n * p); accept(pa, m * n);
    pa.r.check("solver outside", "memory outside A changed"); b.r.check("solver operand", "b changed"); x.r.check("solver outside", "memory outside x changed");
    load(pa, a); g = refm(covsol(pa.view(), b.view())); near("covsol", "covariance system by value", (he_(a) * a) * g, rb, mag(a) * mag(a) * mag(g) * m);
    B c(m, p); load(c, rc); load(pa, a); x.fill(3);
    llsqsol(pa.view(), c.view(), x.view());
    g = read(x, n, p); near("llsqsol", "least squares", he_(a) * (a * g - rc), Mx(n, p), mag(a) * mag(a) * mag(g) * m * n + mag(a) * mag(rc) * m);
    accept(x, n * p); accept(pa, m * n);
    pa.r.check("solver outside", "memory outside A changed"); c.r.check("solver operand", "b changed"); x.r.check("solver outside", "memory outside x changed");
    load(pa, a); g = refm(llsqsol(pa.view(), c.view())); near("llsqsol", "least squares by value", he_(a) * (a * g - rc), Mx(n, p), mag(a) * mag(a) * mag(g) * m * n + mag(a) * mag(rc) * m);
    mc::nontrivial();
  }
} };
template <typename B, typename X, typename A> struct Toep { static void go()
{
  for (int n : ladder(mc::tier(9, 20), {24, 32, 33, 65})) for (int k = 0; k < 4; ++k)
  {
    if (!mc::next()) continue;
    mc::desc("toepsol of size %d, matrix %d, first row as %s, b as %s, x as %s", n, k, A::name(), B::name(), X::name());
    Mx t(1, n); for (int i = 0; i < n; ++i) t.a[i] = i ? Z(((i * 3 + k * 5) % 7 - 3) * 0.25, CPX ? ((i * 5 + k) % 5 - 2) * 0.25 : 0) : Z(1.5 * n + k, 0);
    Mx m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = j >= i ? t.a[j - i] : std::conj(t.a[i - j]);
    Mx rb = rhs(k, n, 1);
    A pt(n, 1); B b(n, 1); B y(n, 1); X x(n, 1); load(pt, t); load(b, rb); y.fill(2); x.fill(5);
    toepsol(pt.view(), b.view(), y.view(), x.view());
    Mx g = read(x, n, 1); near("toepsol", "Toeplitz system", m * g, rb, mag(m) * mag(g) * n);
    accept(x, n); accept(y, n);
    pt.r.check("solver operand", "first row changed"); b.r.check("solver operand", "b changed"); y.r.check("solver outside", "memory outside the workspace changed"); x.r.check("solver outside", "memory outside x changed");
    g = refm(const_Matrix<T>(lib(Mx(n, 1)))); const_Vector<T> v = toepsol(pt.view(), b.view(), y.view());
    for (int i = 0; i < n; ++i) g.a[i] = zof(v.get(i));
    near("toepsol", "Toeplitz system by value", m * g, rb, mag(m) * mag(g) * n);
    mc::nontrivial();
  }
} };
static void variants()
{
  loopD<Case>(list<mrow, mcol, msub, mtrans>(), list<mrow, msub, plane>(), list<mcol, mtrans, planemid>());
  loopD<Toep>(list<wholev, strided, revv, column>(), list<wholev, strided, rowpart, tensorline>(), list<wholev, revv, column, diagonal>());
  // every Toeplitz matrix of small integers: solved, or refused when a leading minor vanishes
  for (int n = 1; n <= 4; ++n)
  {
    int tot = 1; for (int i = 0; i < n; ++i) tot *= i ? 5 : 2;
    for (int c = 0; c < tot; ++c)
    {
      if (!mc::next()) continue;
      Mx t(1, n); int q = c; for (int i = 0; i < n; ++i) { t.a[i] = i ? q % 5 - 2 : 1 + q % 2; q /= i ? 5 : 2; }
      Mx m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = t.a[i > j ? i - j : j - i];
      mc::desc("toepsol of the first row %g %g %g %g of size %d", t.a[0].real(), n > 1 ? t.a[1].real() : 0, n > 2 ? t.a[2].real() : 0, n > 3 ? t.a[3].real() : 0, n);
      bool pd = true; Mx e = m; for (int k = 0; k < n; ++k) { if (e(k, k).real() < 1e-9) { pd = false; break; } for (int i = k + 1; i < n; ++i) { Z f = e(i, k) / e(k, k); for (int j = k; j < n; ++j) e(i, j) -= f * e(k, j); } }
      Vector<T> tv(n), b(n), y(n), x(n); Mx rb = rhs(1, n, 1); for (int i = 0; i < n; ++i) { tv.put(i, tof(t.a[i])); b.put(i, tof(rb.a[i])); }
      bool thrown = false;
      try { toepsol(tv, b, y, x); } catch (computation_error const &) { thrown = true; }
      if (pd)
      {
        if (thrown) { mc::fail("toepsol refused", "positive definite, refused"); continue; }
        Mx g(n, 1); for (int i = 0; i < n; ++i) g.a[i] = zof(x.get(i));
        near("toepsol", "Toeplitz system", m * g, rb, mag(m) * mag(g) * n * 10); mc::nontrivial();
      }
      else if (thrown) mc::nontrivial();
      // a singular leading part has no solution to give
      else if (n > 1 && std::abs(t.a[1]) == std::abs(t.a[0])) mc::fail("toepsol singular", "a singular leading part is not refused");
    }
  }
}
#endif
// ---------------------------------------------------------------------------------------------------------------
#if WHICH < 4
// every sequence of operations on two objects
enum { DEC_P, DEC_P2, DEC_Q, DEC_Q2, P_IS_Q, Q_IS_P, P_IS_P, COPY_P_TO_Q, COPY_Q_TO_P, OPS };
static char const *const opname[] = {"P.decompose(A) ", "P.decompose(B) ", "Q.decompose(C) ", "Q.decompose(D) ", "P=Q ", "Q=P ", "P=P ", "Q(P) ", "P(Q) "};
template <typename S> static void history(int n, std::vector<int> const &h, char const *kind)
{
  std::unique_ptr<S> p(make<S>(n)), q(make<S>(n)); int ap = -1, aq = -1;
  std::string s; for (int o : h) s += opname[o];
  mc::desc("%s of size %d: %s", kind, n, s.c_str());
  S &r = *p;
  auto assign = [](S &a, S &b) { S &c = (a = b); if (&c != &a) mc::fail("assignment result", "assignment does not return its left operand"); };
  (void)r;
  for (int o : h)
  {
    switch (o)
    {
    case DEC_P: dec(*p, gen(0, n)); ap = 0; break;
    case DEC_P2: dec(*p, gen(1, n)); ap = 1; break;
    case DEC_Q: dec(*q, gen(2, n)); aq = 2; break;
    case DEC_Q2: dec(*q, gen(3, n)); aq = 3; break;
    case P_IS_Q: if (aq < 0) return; assign(*p, *q); ap = aq; break;
    case Q_IS_P: if (ap < 0) return; assign(*q, *p); aq = ap; break;
    case P_IS_P: if (ap < 0) return; assign(*p, *p); break;
    case COPY_P_TO_Q: if (ap < 0) return; q.reset(new S(*p)); aq = ap; break;
    case COPY_Q_TO_P: if (aq < 0) return; p.reset(new S(*q)); ap = aq; break;
    }
    if (ap >= 0) verify(*p, gen(ap, n), "P");
    if (aq >= 0) verify(*q, gen(aq, n), "Q");
  }
  mc::nontrivial();
}
static void histories()
{
  int const depth = mc::tier(WHICH < 2 ? 5 : 4, WHICH < 2 ? 6 : 5);
  for (int n = MINN; n <= 3; n += 2)
  {
    long tot = 1; for (int i = 0; i < depth; ++i) tot *= OPS;
    for (long c = 0; c < tot; ++c)
    {
      if (!mc::next()) continue;
      std::vector<int> h; long x = c; for (int i = 0; i < depth; ++i) { h.push_back(x % OPS); x /= OPS; }
#if WHICH == 1
      UP = c % 2 ? upper : lower;
#elif WHICH == 2
      static storage_type const sts[] = {qrd_nosaveq, qrd_saveq1, qrd_saveq}; ST = sts[(c / OPS + c) % 3];
#elif WHICH == 3
      static storage_type const sts[] = {svd_uvfull, svd_uvpart, svd_uvfull, svd_uvnos}; US = sts[(c / OPS + c) % 4]; VS = sts[(c / OPS / OPS + c) % 4];
#endif
      if (c % 2) history<S1>(n, h, "by value"); else history<S0>(n, h, "by reference");
    }
  }
}
#else
static void histories() {}
#endif
static void enumerate() { init(); if (PART == 0) variants(); else histories(); }
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
