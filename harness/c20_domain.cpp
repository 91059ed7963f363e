// C20: domains, index arithmetic and applied layouts against explicit index sets.
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/domain.hpp>
#include <vsip/dense.hpp>
#include <ovxx/layout.hpp>
#include <ovxx/domain_utils.hpp>
#include <ovxx/adjust_layout.hpp>
#include <ovxx/strided.hpp>
#include <mc.hpp>
#include <algorithm>
#include <string>
#include <vector>
using namespace vsip;
typedef long L;
typedef std::vector<L> Seq;

static std::string show(Domain<1> const &d) { return std::to_string((L)d.first()) + ":" + std::to_string((L)d.stride()) + ":" + std::to_string((L)d.length()); }
static std::string show(Seq const &s) { std::string o; for (L x : s) o += (o.empty() ? "" : ",") + std::to_string(x); return "{" + o + "}"; }
// the index sequence a domain denotes, computed from its defining numbers
static Seq seq(L f, L s, L n) { Seq o; for (L i = 0; i < n; ++i) o.push_back(f + s * i); return o; }
static Seq seq(Domain<1> const &d) { return seq(d.first(), d.stride(), d.length()); }
static Seq sorted(Seq s) { std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); return s; }
static Seq inter(Seq a, Seq b) { a = sorted(a); b = sorted(b); Seq o; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o)); return o; }
struct D1 { L f, s, n; Domain<1> d() const { return Domain<1>(f, s, n); } };
static std::vector<D1> all(int F, int S, int N, bool empty = false)
{
  std::vector<D1> o;
  if (empty) o.push_back({0, 1, 0});
  for (int n = 1; n <= N; ++n) for (int f = 0; f <= F; ++f) for (int s = -S; s <= S; ++s)
    if (s && f + s * (n - 1) >= 0) o.push_back({f, s, n});
  return o;
}

static void one_dimension()
{
  int F = mc::tier(7, 11), S = mc::tier(4, 6), N = mc::tier(5, 7);
  std::vector<D1> ds = all(F, S, N);
  for (D1 const &x : ds)
  {
    if (!mc::next()) continue;
    mc::desc("domain %ld:%ld:%ld", x.f, x.s, x.n);
    if (x.n > 1) mc::nontrivial();
    Domain<1> d(x.f, x.s, x.n), c(d), e; e = d;
    Seq want = seq(x.f, x.s, x.n);
    if (seq(d) != want || seq(c) != want || seq(e) != want) mc::fail("domain", "%s", show(d).c_str());
    for (L i = 0; i < x.n; ++i) if ((L)d.impl_nth(i) != want[i]) mc::fail("nth", "element %ld is %ld", i, (L)d.impl_nth(i));
    if ((L)d.impl_last() != want.back()) mc::fail("last", "%ld", (L)d.impl_last());
    if ((L)d.size() != x.n || (L)d.length() != x.n || !d.impl_is_valid() || !(d[0] == d) || (L)ovxx::size(d) != x.n || (L)ovxx::size_of_dim(d, 0) != x.n) mc::fail("size", "%s", show(d).c_str());
    if (seq(ovxx::normalize(d)) != seq(0, 1, x.n)) mc::fail("normalize", "%s", show(ovxx::normalize(d)).c_str());
    if ((L)ovxx::first(d)[0] != x.f || (L)ovxx::extent(d)[0] != x.n) mc::fail("extent", "%s", show(d).c_str());
    for (L i = 0; i < x.n; ++i) if ((L)ovxx::domain_nth(d, Index<1>(i))[0] != want[i]) mc::fail("domain_nth", "%ld", i);
    for (int k = -4; k <= 6; ++k)
    {
      if (std::min(want[0], want.back()) + k >= 0)
      {
        if (seq(d + index_difference_type(k)) != seq(x.f + k, x.s, x.n) || seq(index_difference_type(k) + d) != seq(x.f + k, x.s, x.n)) mc::fail("add", "plus %d gives %s", k, show(d + k).c_str());
        mc::step(2);
      }
      if (std::min(want[0], want.back()) - k >= 0 && seq(d - index_difference_type(k)) != seq(x.f - k, x.s, x.n)) mc::fail("sub", "minus %d gives %s", k, show(d - k).c_str());
      if (k && x.f + x.s * k * (x.n - 1) >= 0)
      {
        Domain<1> a = d * stride_scalar_type(k), b = stride_scalar_type(k) * d;
        if (seq(a) != seq(x.f, x.s * k, x.n) || seq(b) != seq(x.f, x.s * k, x.n)) mc::fail("mul", "times %d gives %s", k, show(a).c_str());
        if (seq(a / stride_scalar_type(k)) != want) mc::fail("div", "times and divided by %d gives %s", k, show(a / k).c_str());
        mc::step(3);
      }
    }
    mc::step(4);
  }
  // pairs: comparison
  for (D1 const &x : ds) for (D1 const &y : ds)
  {
    if (!mc::next()) continue;
    mc::desc("domains %ld:%ld:%ld and %ld:%ld:%ld", x.f, x.s, x.n, y.f, y.s, y.n);
    if (x.n > 1 && y.n > 1) mc::nontrivial();
    bool eq = sorted(seq(x.f, x.s, x.n)) == sorted(seq(y.f, y.s, y.n));
    Domain<1> a = x.d(), b = y.d();
    if ((a == b) != eq || (a != b) == eq) mc::fail("equal", "compared %s", (a == b) ? "equal" : "different");
    if (a.element_conformant(b) != (x.n == y.n)) mc::fail("conformant", "%d", a.element_conformant(b));
    mc::step(2); mc::outcome(eq);
    // several dimensions: this pair in one of them
    Domain<1> z(2);
    if ((Domain<2>(a, z) == Domain<2>(b, z)) != eq || (Domain<2>(z, a) == Domain<2>(z, b)) != eq || (Domain<2>(a, z) != Domain<2>(b, z)) == eq ||
        (Domain<3>(a, z, z) == Domain<3>(b, z, z)) != eq || (Domain<3>(z, a, z) == Domain<3>(z, b, z)) != eq || (Domain<3>(z, z, a) == Domain<3>(z, z, b)) != eq)
      mc::fail("equal", "in several dimensions");
    if (Domain<2>(a, z).element_conformant(Domain<2>(b, z)) != (x.n == y.n) || Domain<2>(z, a).element_conformant(Domain<2>(z, b)) != (x.n == y.n) ||
        Domain<3>(z, z, a).element_conformant(Domain<3>(z, z, b)) != (x.n == y.n) || Domain<3>(z, a, z).element_conformant(Domain<3>(z, b, z)) != (x.n == y.n))
      mc::fail("conformant", "in several dimensions");
    if (Domain<2>(z, a).product_conformant(Domain<2>(b, z)) != (x.n == y.n) || Domain<3>(z, z, a).product_conformant(Domain<2>(b, z)) || a.product_conformant(Domain<2>(b, z)))
      mc::fail("conformant", "products");
  }
  // intersection of a contiguous domain with any other
  std::vector<D1> cs; cs.push_back({0, 1, 0});
  for (int f = 0; f <= F + 6; ++f) for (int n = 1; n <= N + 6; ++n) cs.push_back({f, 1, n});
  std::vector<D1> es = all(F, S, N, true);
  for (D1 const &x : cs) for (D1 const &y : es)
  {
    if (!mc::next()) continue;
    mc::desc("intersection of %ld:1:%ld with %ld:%ld:%ld", x.f, x.n, y.f, y.s, y.n);
    Seq sx = seq(x.f, 1, x.n), sy = seq(y.f, y.s, y.n), want = inter(sx, sy);
    if (want.size()) mc::nontrivial();
    Domain<1> r(77, 1, 3), a = x.d(), b = y.d();
    bool got = ovxx::intersect(a, b, r);
    mc::step();
    if (got != !want.empty()) { mc::fail("intersect", "%s, the common indices are %s", got ? ("claims " + show(r)).c_str() : "claims to be empty", show(want).c_str()); continue; }
    if (!got) continue;
    mc::outcome(r.first() * 1000003 + r.stride() * 101 + r.length());
    if (sorted(seq(r)) != want || r.length() != want.size()) { mc::fail("intersect", "%s, the common indices are %s", show(r).c_str(), show(want).c_str()); continue; }
    // the result in the direction of the second domain
    Seq sr = seq(r); bool up = sr.size() < 2 || (sr[1] > sr[0]) == (y.s > 0);
    if (!up) mc::fail("intersect", "%s is in the wrong direction", show(r).c_str());
    // where these indices are in the second domain
    Domain<1> p = ovxx::subset_from_intr(b, r);
    for (L i = 0; i < (L)r.length() && p.length() == r.length(); ++i)
      if ((L)b.impl_nth(p.impl_nth(i)) != sr[i]) { mc::fail("subset_from_intr", "%s", show(p).c_str()); break; }
    if (p.length() != r.length()) mc::fail("subset_from_intr", "%s", show(p).c_str());
    // the same indices in local coordinates
    for (L lf : {0, 3}) for (L ls : {1, 2})
    {
      Domain<1> loc(lf, ls, x.n), q = ovxx::apply_intr(loc, a, r);
      for (L i = 0; i < (L)r.length() && q.length() == r.length(); ++i)
        if ((L)q.impl_nth(i) != lf + ls * (sr[i] - x.f)) { mc::fail("apply_intr", "%s", show(q).c_str()); break; }
      if (q.length() != r.length()) mc::fail("apply_intr", "%s", show(q).c_str());
      mc::step();
    }
  }
}
static void more_dimensions()
{
  std::vector<D1> cs = {{0, 1, 3}, {1, 1, 2}, {2, 1, 4}, {5, 1, 1}}, ds = all(3, 2, 3);
  for (D1 const &a : cs) for (D1 const &b : cs)
    for (D1 const &x : ds) for (D1 const &y : ds)
    {
      if (!mc::next()) continue;
      mc::desc("2-D and 3-D intersection of (%ld:1:%ld, %ld:1:%ld) with (%ld:%ld:%ld, %ld:%ld:%ld)", a.f, a.n, b.f, b.n, x.f, x.s, x.n, y.f, y.s, y.n);
      Seq w0 = inter(seq(a.d()), seq(x.d())), w1 = inter(seq(b.d()), seq(y.d()));
      Domain<2> A(a.d(), b.d()), X(x.d(), y.d()), r;
      bool got = ovxx::intersect(A, X, r), want = w0.size() && w1.size();
      if (want) mc::nontrivial();
      mc::step(2);
      if (got != want || (got && (sorted(seq(r[0])) != w0 || sorted(seq(r[1])) != w1 || r.size() != w0.size() * w1.size()))) mc::fail("intersect", "2-D");
      Domain<1> t(1, 1, 4), u(2, -1, 3);
      Domain<3> B(a.d(), t, b.d()), Y(x.d(), u, y.d()), s;
      bool got3 = ovxx::intersect(B, Y, s);
      if (got3 != want || (got3 && (sorted(seq(s[0])) != w0 || sorted(seq(s[2])) != w1 || seq(s[1]) != Seq{2, 1}))) mc::fail("intersect", "3-D");
      if (got && got3)
      {
        Domain<2> q = ovxx::apply_intr(ovxx::normalize(A), A, r), p = ovxx::subset_from_intr(X, r);
        if (seq(q[0]) != seq(ovxx::apply_intr(ovxx::normalize(a.d()), a.d(), r[0])) || seq(q[1]) != seq(ovxx::apply_intr(ovxx::normalize(b.d()), b.d(), r[1]))) mc::fail("apply_intr", "2-D");
        if (X[0].impl_nth(p[0].first()) != r[0].first() || X[1].impl_nth(p[1].first()) != r[1].first() || p[0].length() != r[0].length() || p[1].length() != r[1].length()) mc::fail("subset_from_intr", "2-D");
        Domain<3> q3 = ovxx::apply_intr(ovxx::normalize(B), B, s), p3 = ovxx::subset_from_intr(Y, s);
        if (seq(q3[0]) != seq(q[0]) || seq(q3[2]) != seq(q[1]) || seq(q3[1]) != Seq{1, 0}) mc::fail("apply_intr", "3-D");
        if (p3[0].first() != p[0].first() || p3[2].first() != p[1].first() || Y[1].impl_nth(p3[1].first()) != s[1].first() || p3[1].length() != 2) mc::fail("subset_from_intr", "3-D");
      }
      // arithmetic acts on every dimension
      Domain<2> P = X + index_difference_type(5), M = (X + index_difference_type(20)) * stride_scalar_type(-2), Q = M / stride_scalar_type(-2), S = P - index_difference_type(5), E = index_difference_type(5) + X, G = stride_scalar_type(-2) * (X + index_difference_type(20));
      if (seq(P[0]) != seq(x.f + 5, x.s, x.n) || seq(P[1]) != seq(y.f + 5, y.s, y.n) || seq(M[0]) != seq(x.f + 20, -2 * x.s, x.n) || seq(M[1]) != seq(y.f + 20, -2 * y.s, y.n) ||
          seq(Q[0]) != seq(x.f + 20, x.s, x.n) || seq(Q[1]) != seq(y.f + 20, y.s, y.n) || !(S == X) || !(E == P) || !(G == M)) mc::fail("arithmetic", "2-D");
      Domain<3> Z(x.d(), y.d(), t), Z5 = Z + index_difference_type(5), ZM = stride_scalar_type(3) * (Z + index_difference_type(20));
      if (seq(Z5[0]) != seq(P[0]) || seq(Z5[1]) != seq(P[1]) || seq(Z5[2]) != seq(6, 1, 4) || seq(ZM[0]) != seq(x.f + 20, 3 * x.s, x.n) || seq(ZM[2]) != seq(21, 3, 4) || !(Z5 - index_difference_type(5) == Z) || !(ZM / stride_scalar_type(3) == Z + index_difference_type(20))) mc::fail("arithmetic", "3-D");
      if ((L)X.size() != x.n * y.n || (L)Z.size() != x.n * y.n * 4 || ovxx::size(X) != X.size() || ovxx::size(Z) != Z.size()) mc::fail("size", "%ld", (L)X.size());
      Domain<2> N2 = ovxx::normalize(X); Domain<3> N3 = ovxx::normalize(Z);
      if (seq(N2[0]) != seq(0, 1, x.n) || seq(N2[1]) != seq(0, 1, y.n) || seq(N3[0]) != seq(0, 1, x.n) || seq(N3[1]) != seq(0, 1, y.n) || seq(N3[2]) != seq(0, 1, 4)) mc::fail("normalize", "several dimensions");
      Index<2> f2 = ovxx::first(X); Index<3> f3 = ovxx::first(Z), n3 = ovxx::domain_nth(Z, Index<3>(x.n - 1, y.n - 1, 2));
      if ((L)f2[0] != x.f || (L)f2[1] != y.f || (L)f3[0] != x.f || (L)f3[1] != y.f || f3[2] != 1 || (L)n3[0] != x.f + x.s * (x.n - 1) || (L)n3[1] != y.f + y.s * (y.n - 1) || n3[2] != 3) mc::fail("domain_nth", "several dimensions");
      if (!(ovxx::project<1>(Z) == x.d()) || !(ovxx::project<2>(Z) == X) || !(ovxx::project<3>(Z) == Z)) mc::fail("project", "of %s", show(x.d()).c_str());
      ovxx::Length<3> ex = ovxx::extent(Z); ovxx::Length<2> ex2 = ovxx::extent(X);
      if ((L)ex[0] != x.n || (L)ex[1] != y.n || ex[2] != 4 || (L)ovxx::total_size(ex) != x.n * y.n * 4 || (L)ovxx::total_size(ex2) != x.n * y.n || (L)ovxx::size_of_dim(ex2, 1) != y.n) mc::fail("extent", "several dimensions");
      Domain<2> dl = ovxx::domain(Index<2>(x.f, y.f), ex2), d0 = ovxx::domain(ex2); Domain<3> dl3 = ovxx::domain(Index<3>(x.f, y.f, 1), ex), d03 = ovxx::domain(ex);
      if (seq(dl[0]) != seq(x.f, 1, x.n) || seq(dl[1]) != seq(y.f, 1, y.n) || !(d0 == N2) || !(d03 == N3) || seq(dl3[0]) != seq(dl[0]) || seq(dl3[1]) != seq(dl[1]) || seq(dl3[2]) != seq(1, 1, 4)) mc::fail("domain", "from an index and a length");
    }
}
static void indices()
{
  for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int c = 0; c < 4; ++c)
    for (int d = 0; d < 4; ++d) for (int e = 0; e < 4; ++e) for (int f = 0; f < 4; ++f)
    {
      if (!mc::next()) continue;
      mc::desc("indices (%d,%d,%d) and (%d,%d,%d)", a, b, c, d, e, f);
      mc::step(3);
      Index<3> i(a, b, c), j(d, e, f), s = i + j, t = i - j; Index<2> k(a, b), l(d, e), u = k + l, v = k - l; Index<1> m(a), n(d), p = m + n, q = m - n;
      if ((L)s[0] != a + d || (L)s[1] != b + e || (L)s[2] != c + f || (L)t[0] != a - d || (L)t[1] != b - e || (L)t[2] != c - f || (i == j) != (a == d && b == e && c == f)) mc::fail("index", "3-D");
      if ((L)u[0] != a + d || (L)u[1] != b + e || (L)v[0] != a - d || (L)v[1] != b - e || (k == l) != (a == d && b == e)) mc::fail("index", "2-D");
      if ((L)p[0] != a + d || (L)q[0] != a - d || (m == n) != (a == d)) mc::fail("index", "1-D");
      if ((i != j) != (a != d || b != e || c != f) || (k != l) != (a != d || b != e) || (m != n) != (a != d)) mc::fail("index", "inequality");
    }
}
// traversal of index spaces in every order
template <dimension_type D, typename O> void traverse(char const *name, dimension_type const *ord)
{
  int M = mc::tier(4, 6);
  for (int a = 0; a <= M; ++a) for (int b = 0; b <= (D > 1 ? M : 0); ++b) for (int c = 0; c <= (D > 2 ? M : 0); ++c)
  {
    if (D > 1 && (a == 0 || b == 0 || (D > 2 && c == 0)) != 0) continue;
    if (!mc::next()) continue;
    int n[3] = {a, D > 1 ? b : 1, D > 2 ? c : 1};
    mc::desc("traversal of %dx%dx%d in order %s", n[0], n[1], n[2], name);
    if (n[0] * n[1] * n[2] > 1) mc::nontrivial();
    ovxx::Length<D> len; for (dimension_type d = 0; d < D; ++d) len[d] = n[d];
    std::vector<Seq> seen;
    long steps = 0;
    for (Index<D> i; ovxx::valid(len, i); ovxx::next<O>(len, i))
    {
      Seq s(3, 0); for (dimension_type d = 0; d < D; ++d) s[d] = i[d];
      seen.push_back(s);
      if (++steps > 1000) { mc::fail("traverse", "does not end"); return; }
    }
    mc::step(steps);
    std::vector<Seq> want;
    int e[3] = {1, 1, 1}; for (dimension_type d = 0; d < D; ++d) e[d] = n[ord[d]];
    for (int i = 0; i < e[0]; ++i) for (int j = 0; j < e[1]; ++j) for (int k = 0; k < e[2]; ++k)
    { int x[3] = {i, j, k}; Seq s(3, 0); for (dimension_type d = 0; d < D; ++d) s[ord[d]] = x[d]; want.push_back(s); }
    if (seen != want) mc::fail("traverse", "visits %zu indices, %zu expected, or in another order", seen.size(), want.size());
    if (ord[0] == 0 && (D < 3 || ord[1] == 1))
    {
      std::vector<Seq> again;
      for (Index<D> i; ovxx::valid(len, i); ovxx::next(len, i)) { Seq s(3, 0); for (dimension_type d = 0; d < D; ++d) s[d] = i[d]; again.push_back(s); if (again.size() > 1000) break; }
      if (again != want) mc::fail("traverse", "default order");
    }
  }
}
// layouts
template <dimension_type D> struct ix;
template <> struct ix<1> { template <typename A> static L get(A const &a, int const *i) { return a.index(i[0]); } };
template <> struct ix<2> { template <typename A> static L get(A const &a, int const *i) { return a.index(i[0], i[1]); } };
template <> struct ix<3> { template <typename A> static L get(A const &a, int const *i) { return a.index(i[0], i[1], i[2]); } };
// align: the number of elements lines start at multiples of (0: no padding allowed)
template <dimension_type D, typename A> void judge(A const &a, int const *n, dimension_type const *ord, L align, bool direct, char const *how)
{
  L total = a.total_size(), count = 1;
  for (dimension_type d = 0; d < D; ++d) { count *= n[d]; if ((L)a.size(d) != n[d]) mc::fail("layout", "%s: size of dimension %d is %ld", how, (int)d, (L)a.size(d)); }
  L line = n[ord[D - 1]], padded = align && D > 1 ? (line + align - 1) / align * align : line;
  L most = D == 1 ? line : padded; for (dimension_type d = 0; d + 1 < D; ++d) most *= n[ord[d]];
  if (total < 0 || total > most) { mc::fail("layout", "%s: total size %ld, at most %ld is needed", how, total, most); return; }
  if (!count) return;
  std::vector<char> used(total, 0);
  int m[3] = {n[0], D > 1 ? n[1] : 1, D > 2 ? n[2] : 1};
  for (int i = 0; i < m[0]; ++i) for (int j = 0; j < m[1]; ++j) for (int k = 0; k < m[2]; ++k)
  {
    int x[3] = {i, j, k}; Index<D> id; L lin = 0;
    for (dimension_type d = 0; d < D; ++d) { id[d] = x[d]; lin += x[d] * (L)a.stride(d); }
    L o = a.index(id);
    mc::step();
    if (o != lin) { mc::fail("layout", "%s: index (%d,%d,%d) is at %ld, by the strides at %ld", how, i, j, k, o, lin); return; }
    if (o < 0 || o >= total) { mc::fail("layout", "%s: index (%d,%d,%d) is at %ld, the total size is %ld", how, i, j, k, o, total); return; }
    if (used[o]++) { mc::fail("layout", "%s: offset %ld is used twice", how, o); return; }
    if (x[ord[D - 1]] == 0 && align && D > 1 && o % align) { mc::fail("layout", "%s: the line of (%d,%d,%d) starts at %ld", how, i, j, k, o); return; }
  }
  // the order of the dimensions
  if ((L)a.stride(ord[D - 1]) != 1) mc::fail("layout", "%s: the last dimension has stride %ld", how, (L)a.stride(ord[D - 1]));
  if (D > 1 && (L)a.stride(ord[D - 2]) != padded) mc::fail("layout", "%s: lines are %ld apart, expected %ld", how, (L)a.stride(ord[D - 2]), padded);
  if (D > 2 && (L)a.stride(ord[0]) != padded * n[ord[1]]) mc::fail("layout", "%s: planes are %ld apart", how, (L)a.stride(ord[0]));
}
template <dimension_type D> struct args { template <typename A> static void two(int const *, dimension_type const *, L) {} };
template <> struct args<2> { template <typename A> static void two(int const *n, dimension_type const *o, L al) { A a(n[0], n[1]); judge<2>(a, n, o, al, true, "from two sizes"); } };
template <> struct args<1> { template <typename A> static void two(int const *n, dimension_type const *o, L al) { A a = A(length_type(n[0])); judge<1>(a, n, o, al, true, "from a size"); } };
template <dimension_type D, typename O, pack_type P> void layout(char const *name, dimension_type const *ord)
{
  typedef Layout<D, O, P, array> LY; typedef ovxx::Applied_layout<LY> A;
  L align = P >= aligned_8 ? (L)P : 0;
  int step = align > 32 ? align / 2 : align ? align / 4 : 1;
  int M = mc::tier(4, 5);
  for (int a = 0; a <= M; ++a) for (int b = 0; b <= (D > 1 ? M : 0); ++b) for (int c = 0; c <= (D > 2 ? M : 0); ++c)
    for (int big = 0; big < (align ? 2 : 1); ++big)
    {
      int n[3] = {a, D > 1 ? b : 1, D > 2 ? c : 1};
      if (big) { n[ord[D - 1]] = n[ord[D - 1]] * step + (n[ord[D - 1]] == 3); }
      if (!mc::next()) continue;
      mc::desc("layout %dx%dx%d, order %s, packing %d", n[0], n[1], n[2], name, (int)P);
      if (n[0] * n[1] * n[2] > 1) mc::nontrivial();
      ovxx::Length<D> len; Domain<1> dd[3];
      for (dimension_type d = 0; d < D; ++d) { len[d] = n[d]; dd[d] = n[d] ? Domain<1>(3 + 2 * n[d], -2, n[d]) : Domain<1>(0); }
      A x(len); judge<D>(x, n, ord, align, true, "from a length");
      A y(ovxx::construct_domain<D>(dd)); judge<D>(y, n, ord, align, true, "from a domain");
      args<D>::template two<A>(n, ord, align);
      // the same at run time, for several element sizes
      for (int es : {1, 4, 8})
      {
        if (align && align % es) continue;
        ovxx::Rt_layout<D> rl(P, ovxx::Rt_tuple(O()), array, align);
        ovxx::Applied_layout<ovxx::Rt_layout<D> > r(rl, len, es);
        judge<D>(r, n, ord, align ? align / es : 0, false, "at run time");
        if (ovxx::layout_packing(rl) != P || ovxx::layout_nth_dim(rl, 0) != O::impl_dim0 || ovxx::layout_nth_dim(rl, 1) != O::impl_dim1 || ovxx::layout_nth_dim(rl, 2) != O::impl_dim2) mc::fail("traits", "run-time layout");
      }
      if (ovxx::layout_packing(LY()) != P || ovxx::layout_nth_dim(LY(), 0) != O::impl_dim0 || ovxx::layout_nth_dim(LY(), 1) != O::impl_dim1 || ovxx::layout_nth_dim(LY(), 2) != O::impl_dim2 || ovxx::layout_storage_format(LY()) != array ||
          (L)ovxx::layout_alignment(LY()) != align || ovxx::is_packing_aligned<P>::value != (align > 0) || is_packing_unit_stride<P>::value != (P != any_packing)) mc::fail("traits", "layout");
      mc::outcome(mc::mix(x.total_size(), (uint64_t)P * 8 + O::impl_dim0));
    }
}
// blocks allocate and address what their layout says
template <dimension_type D> struct get_put;
template <> struct get_put<2>
{
  template <typename B> static void put(B &b, int i, int j, int, float v) { b.put(i, j, v); }
  template <typename B> static float get(B &b, int i, int j, int) { return b.get(i, j); }
};
template <> struct get_put<3>
{
  template <typename B> static void put(B &b, int i, int j, int k, float v) { b.put(i, j, k, v); }
  template <typename B> static float get(B &b, int i, int j, int k) { return b.get(i, j, k); }
};
template <dimension_type D, typename O, pack_type P> void blocks(char const *name)
{
  int M = mc::tier(3, 5);
  for (int a = 0; a <= M; ++a) for (int b = 0; b <= M; ++b) for (int c = 0; c <= (D > 2 ? M : 0); ++c)
  {
    if (!mc::next()) continue;
    int n[3] = {a, b, D > 2 ? c : 1};
    mc::desc("block of %dx%dx%d, order %s, packing %d", n[0], n[1], n[2], name, (int)P);
    Domain<1> dd[3] = {Domain<1>(n[0]), Domain<1>(n[1]), Domain<1>(n[2])};
    typedef ovxx::Strided<D, float, Layout<D, O, P, array> > B;
    B blk(ovxx::construct_domain<D>(dd));
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) get_put<D>::put(blk, i, j, k, i * 100 + j * 10 + k);
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
      if (get_put<D>::get(blk, i, j, k) != i * 100 + j * 10 + k) { mc::fail("block", "element (%d,%d,%d) is %g", i, j, k, get_put<D>::get(blk, i, j, k)); i = j = 99; break; }
    if ((L)blk.size() != n[0] * n[1] * n[2]) mc::fail("block", "size %ld", (L)blk.size());
    mc::step(n[0] * n[1] * n[2]);
  }
}
template <dimension_type D, typename O> void packings(char const *name, dimension_type a, dimension_type b = 0, dimension_type c = 0)
{
  dimension_type o[3] = {a, b, c};
  traverse<D, O>(name, o);
  layout<D, O, dense>(name, o);
  layout<D, O, aligned_8>(name, o); layout<D, O, aligned_16>(name, o); layout<D, O, aligned_32>(name, o); layout<D, O, aligned_64>(name, o);
  layout<D, O, aligned_128>(name, o); layout<D, O, aligned_256>(name, o); layout<D, O, aligned_512>(name, o); layout<D, O, aligned_1024>(name, o);
}
// layouts with given strides
static void strided()
{
  for (int n0 = 1; n0 <= 4; ++n0) for (int n1 = 1; n1 <= 4; ++n1)
    for (int s0 = -3; s0 <= 8; ++s0) for (int s1 = -3; s1 <= 8; ++s1)
    {
      if (!mc::next()) continue;
      mc::desc("strided layout %dx%d with strides %d and %d", n0, n1, s0, s1);
      typedef Layout<1, row1_type, any_packing, array> L1; typedef Layout<2, row2_type, any_packing, array> L2;
      ovxx::Applied_layout<L1> a(n0, s0); ovxx::Applied_layout<L2> b(n0, s0, n1, s1);
      Domain<1> d0(40, s0 ? s0 : 1, n0), d1(40, s1 ? s1 : 1, n1); L t0 = d0.stride(), t1 = d1.stride();
      ovxx::Applied_layout<ovxx::Rt_layout<1> > r1(d0, array); ovxx::Applied_layout<ovxx::Rt_layout<2> > r2(Domain<2>(d0, d1), array); ovxx::Applied_layout<ovxx::Rt_layout<3> > r3(Domain<3>(d0, Domain<1>(3), d1), array);
      for (L i = 0; i < n0; ++i)
      {
        if ((L)a.index(i) != i * s0 || (L)a.index(Index<1>(i)) != i * s0 || (L)r1.index(Index<1>(i)) != i * t0) mc::fail("layout", "1-D index %ld", i);
        for (L j = 0; j < n1; ++j)
          if ((L)b.index(i, j) != i * s0 + j * s1 || (L)b.index(Index<2>(i, j)) != i * s0 + j * s1 || (L)r2.index(Index<2>(i, j)) != i * t0 + j * t1 || (L)r3.index(Index<3>(i, 2, j)) != i * t0 + 2 + j * t1) mc::fail("layout", "index (%ld,%ld)", i, j);
      }
      if (a.stride(0) != s0 || (int)a.size(0) != n0 || b.stride(0) != s0 || b.stride(1) != s1 || (int)b.size(0) != n0 || (int)b.size(1) != n1 || r2.stride(0) != t0 || r2.stride(1) != t1 || (int)r3.size(0) != n0 || r3.size(1) != 3 || (int)r3.size(2) != n1 || r3.stride(2) != t1) mc::fail("layout", "sizes and strides");
      mc::step(n0 * n1 * 6);
    }
}
static void enumerate()
{
  static vsip::vsipl *lib = new vsip::vsipl; (void)lib;
  one_dimension(); strided(); more_dimensions(); indices();
  packings<1, tuple<0, 1, 2> >("0", 0);
  packings<2, tuple<0, 1, 2> >("01", 0, 1); packings<2, tuple<1, 0, 2> >("10", 1, 0);
  packings<3, tuple<0, 1, 2> >("012", 0, 1, 2); packings<3, tuple<0, 2, 1> >("021", 0, 2, 1); packings<3, tuple<1, 0, 2> >("102", 1, 0, 2);
  packings<3, tuple<1, 2, 0> >("120", 1, 2, 0); packings<3, tuple<2, 0, 1> >("201", 2, 0, 1); packings<3, tuple<2, 1, 0> >("210", 2, 1, 0);
  blocks<2, tuple<0, 1, 2>, aligned_16>("01"); blocks<2, tuple<1, 0, 2>, aligned_32>("10"); blocks<2, tuple<0, 1, 2>, dense>("01"); blocks<2, tuple<1, 0, 2>, dense>("10");
  blocks<3, tuple<0, 1, 2>, aligned_16>("012"); blocks<3, tuple<2, 0, 1>, aligned_64>("201"); blocks<3, tuple<1, 2, 0>, dense>("120");
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
