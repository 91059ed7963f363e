// C18: matrix and vector products over every placement of operands and result.
#include "place.hpp"
PL(mcolsub, C2, ({n0 + 1, n1 + 2}), r.view()(Domain<2>(Domain<1>(1, 1, n[0]), Domain<1>(0, 1, n[1]))), FOR2((1 + i) * (n1 + 2) + j))
PL(mrowsub, R2, ({n0 + 1, n1 + 2}), r.view()(Domain<2>(Domain<1>(1, 1, n[0]), Domain<1>(2, 1, n[1]))), FOR2((1 + i) * (n1 + 2) + j + 2))
PL(mrev, R2, ({n0, n1}), r.view()(Domain<2>(Domain<1>(n[0] - 1, -1, n[0]), Domain<1>(n[1]))), FOR2((n0 - 1 - i) * n1 + j))
PL(mcolrev, C2, ({n0, n1}), r.view()(Domain<2>(Domain<1>(n[0]), Domain<1>(n[1] - 1, -1, n[1]))), FOR2(i * n1 + n1 - 1 - j))
PL(mskip, R2, ({2 * n0, n1 + 1}), r.view()(Domain<2>(Domain<1>(0, 2, n[0]), Domain<1>(1, 1, n[1]))), FOR2(2 * i * (n1 + 1) + j + 1))

typedef std::complex<double> Z;
static Z zz(T x) { return Z(comp(x, 0), cplx<T>::value ? comp(x, 1) : 0); }
struct Ref { Z v; double m; Ref() : v(0), m(0) {} void add(Z x, Z y) { v += x * y; m += std::abs(x) * std::abs(y); } };
static double const eps = sizeof(R) == 8 ? 1e-12 : 6e-6;
template <typename P> static bool result(P &d, char const *what, std::vector<Ref> const &w)
{
  for (size_t l = 0; l < w.size(); ++l)
  {
    T g = d.get(l);
    if (!(std::abs(zz(g) - w[l].v) <= eps * (1 + w[l].m))) { mc::fail("value", "%s: element %d is %s, expected %s", what, (int)l, mc::str(g).c_str(), mc::str(w[l].v).c_str()); return false; }
    mc::outcome(mc::hash(&g, sizeof g)); d.accept(l);
  }
  mc::step();
  return d.r.check("outside", what);
}
template <typename V> static bool scalar(V g, Ref w, char const *what)
{ mc::step(); mc::outcome(mc::hash(&g, sizeof g)); if (std::abs(zz(g) - w.v) <= eps * (1 + w.m)) return true; mc::fail("value", "%s is %s, expected %s", what, mc::str(g).c_str(), mc::str(w.v).c_str()); return false; }
// a result returned as a view of its own
template <typename V> static bool returned(V const &v, int n0, int n1, std::vector<Ref> const &w, char const *what)
{
  if ((int)v.size(0) != n0 || (int)v.size(1) != n1) { mc::fail("size", "%s is %ldx%ld, expected %dx%d", what, (long)v.size(0), (long)v.size(1), n0, n1); return false; }
  mc::step();
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j)
    if (!(std::abs(zz(v.get(i, j)) - w[i * n1 + j].v) <= eps * (1 + w[i * n1 + j].m))) { mc::fail("value", "%s: element (%d,%d) is %s, expected %s", what, i, j, mc::str(v.get(i, j)).c_str(), mc::str(w[i * n1 + j].v).c_str()); return false; }
  return true;
}
static Z cj(Z x, bool c) { return c ? std::conj(x) : x; }
// reference of alpha op(A) op(B) + beta C
template <typename PA, typename PB> static std::vector<Ref> product(PA &a, int am, int an, bool at, bool ac, PB &b, int bm, int bn, bool bt, bool bc)
{
  int m = at ? an : am, k = at ? am : an, n = bt ? bm : bn; std::vector<Ref> w(m * n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < k; ++l)
    w[i * n + j].add(cj(zz(a.get(at ? l * an + i : i * an + l)), ac), cj(zz(b.get(bt ? j * bn + l : l * bn + j)), bc));
  return w;
}
template <typename PA, typename PB, typename PD> static void gemms(PA &pa, PB &pb, PD &pd, int m, int k, int n, std::true_type)   // complex
{
  auto w = product(pa, m, k, false, false, pb, k, n, false, true);
  pd.fill(3); pd.view() = prodj(pa.view(), pb.view()); result(pd, "prodj", w);
}
template <typename PA, typename PB, typename PD> static void gemms(PA &, PB &, PD &, int, int, int, std::false_type) {}
template <typename PA, typename PB, typename PD> static void prodhs(PA &pa, PB &pb, PD &pd, int m, int k, int n, std::true_type)
{ auto w = product(pa, m, k, false, false, pb, n, k, true, true); pd.fill(3); pd.view() = prodh(pa.view(), pb.view()); result(pd, "prodh", w); }
template <typename PA, typename PB, typename PD> static void prodhs(PA &, PB &, PD &, int, int, int, std::false_type) {}
#define K(x) std::integral_constant<mat_op_type, x>()
template <mat_op_type OA, mat_op_type OB, typename PA, typename PB, typename PD> static void gemp1(int m, int k, int n)
{
  bool at = OA == mat_trans || OA == mat_herm, bt = OB == mat_trans || OB == mat_herm, ac = cplx<T>::value && (OA == mat_herm || OA == mat_conj), bc = cplx<T>::value && (OB == mat_herm || OB == mat_conj);
  int am = at ? k : m, an = at ? m : k, bm = bt ? n : k, bn = bt ? k : n;
  PA pa(am, an); PB pb(bm, bn); PD pd(m, n); pa.fill(1); pb.fill(2);
  auto p = product(pa, am, an, at, ac, pb, bm, bn, bt, bc);
  static T const al[] = {val<T>::of(2), T(1), val<T>::of(2), T(1), T(0)}, be[] = {val<T>::of(-1), val<T>::of(-1), T(0), T(1), val<T>::of(2)};
  for (int c = 0; c < 5; ++c)
  {
    pd.fill(3); T alpha = al[c], beta = be[c];
    std::vector<Ref> w = p; for (size_t l = 0; l < w.size(); ++l) { w[l].v = zz(alpha) * w[l].v + zz(beta) * zz(pd.get(l)); w[l].m = std::abs(zz(alpha)) * w[l].m + std::abs(zz(beta)) * std::abs(zz(pd.get(l))); }
    char b[60]; snprintf(b, sizeof b, "gemp<%d,%d>", (int)OA, (int)OB);
    gemp<OA, OB>(alpha, pa.view(), pb.view(), beta, pd.view()); if (!result(pd, b, w)) break;
  }
  pa.r.check("operand", "gemp"); pb.r.check("operand", "gemp");
}
template <mat_op_type OA, typename PA, typename PD> static void gems1(int m, int n)
{
  bool at = OA == mat_trans || OA == mat_herm, ac = cplx<T>::value && (OA == mat_herm || OA == mat_conj);
  PA pa(at ? n : m, at ? m : n); PD pd(m, n); pa.fill(1); pd.fill(3);
  T alpha = val<T>::of(2), beta = val<T>::of(-1); std::vector<Ref> w(m * n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { w[i * n + j].add(zz(alpha), cj(zz(pa.get(at ? j * m + i : i * n + j)), ac)); w[i * n + j].add(zz(beta), zz(pd.get(i * n + j))); }
  gems<OA>(alpha, pa.view(), beta, pd.view()); result(pd, "gems", w); pa.r.check("operand", "gems");
}
static int const sz[][3] = {{1, 1, 1}, {1, 2, 3}, {2, 1, 3}, {3, 2, 1}, {2, 3, 4}, {4, 4, 4}, {5, 2, 3}, {3, 3, 3}, {3, 5, 2}, {1, 4, 1}, {4, 1, 1}, {1, 1, 5}, {16, 17, 33}, {33, 9, 16}, {6, 5, 7}, {9, 8, 5}};
template <typename PA, typename PB, typename PD> struct MM
{
  static void go()
  {
    int nc = mc::tier(14, 16);
    for (int c = 0; c < nc; ++c)
    {
      int m = sz[c][0], k = sz[c][1], n = sz[c][2];
      if (mc::next())
      {
        mc::desc("products %s = %s * %s, %dx%d times %dx%d", PD::name(), PA::name(), PB::name(), m, k, k, n); mc::nontrivial();
        PA pa(m, k); PB pb(k, n); PD pd(m, n); pa.fill(1); pb.fill(2); pd.fill(3);
        auto w = product(pa, m, k, false, false, pb, k, n, false, false);
        pd.view() = prod(pa.view(), pb.view()); result(pd, "prod", w);
        pd.fill(3); { std::vector<Ref> v = w; for (size_t l = 0; l < v.size(); ++l) { v[l].v += zz(pd.get(l)); v[l].m += std::abs(zz(pd.get(l))); } pd.view() += prod(pa.view(), pb.view()); result(pd, "+= prod", v); }
        if (m == 3 && k == 3) { pd.fill(3); pd.view() = prod3(pa.view(), pb.view()); result(pd, "prod3", w); }
        if (m == 4 && k == 4) { pd.fill(3); pd.view() = prod4(pa.view(), pb.view()); result(pd, "prod4", w); }
        gemms(pa, pb, pd, m, k, n, std::integral_constant<bool, cplx<T>::value>());
        pa.r.check("operand", "prod"); pb.r.check("operand", "prod");
        PB pt(n, k); pt.fill(4); pd.fill(3);
        auto wt = product(pa, m, k, false, false, pt, n, k, true, false);
        pd.view() = prodt(pa.view(), pt.view()); result(pd, "prodt", wt);
        prodhs(pa, pt, pd, m, k, n, std::integral_constant<bool, cplx<T>::value>());
        pa.r.check("operand", "prodt"); pt.r.check("operand", "prodt");
      }
#ifdef GEMP
      if (mc::next())
      {
        mc::desc("gemp and gems %s = %s * %s, %dx%dx%d", PD::name(), PA::name(), PB::name(), m, k, n); mc::nontrivial();
        gemp1<mat_ntrans, mat_ntrans, PA, PB, PD>(m, k, n); gemp1<mat_trans, mat_ntrans, PA, PB, PD>(m, k, n); gemp1<mat_ntrans, mat_trans, PA, PB, PD>(m, k, n); gemp1<mat_trans, mat_trans, PA, PB, PD>(m, k, n);
        gemp1<mat_herm, mat_ntrans, PA, PB, PD>(m, k, n); gemp1<mat_conj, mat_herm, PA, PB, PD>(m, k, n); gemp1<mat_trans, mat_conj, PA, PB, PD>(m, k, n); gemp1<mat_herm, mat_herm, PA, PB, PD>(m, k, n);
        gems1<mat_ntrans, PA, PD>(m, n); gems1<mat_trans, PA, PD>(m, n); gems1<mat_herm, PA, PD>(m, n); gems1<mat_conj, PA, PD>(m, n);
      }
#endif
    }
  }
};
template <typename V> static void conjdot(V &a, V &b, Ref w, std::true_type) { scalar(cvjdot(a, b), w, "cvjdot"); }
// A matrix, B vector, D vector
template <typename PA, typename PB, typename PD> struct MV
{
  static void go()
  {
    static int const s[][2] = {{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 3}, {4, 4}, {5, 2}, {8, 9}, {17, 33}, {33, 16}, {64, 65}};
    for (auto &x : s) if (mc::next())
    {
      int m = x[0], n = x[1];
      mc::desc("products %s = %s * %s and reverse, %dx%d", PD::name(), PA::name(), PB::name(), m, n); mc::nontrivial();
      {
        PA pa(m, n); PB pb(n, 1); PD pd(m, 1); pa.fill(1); pb.fill(2); pd.fill(3);
        auto w = product(pa, m, n, false, false, pb, n, 1, false, false);
        pd.view() = prod(pa.view(), pb.view()); result(pd, "matrix * vector", w);
        if (m == 3 && n == 3) { pd.fill(3); pd.view() = prod3(pa.view(), pb.view()); result(pd, "prod3", w); }
        if (m == 4 && n == 4) { pd.fill(3); pd.view() = prod4(pa.view(), pb.view()); result(pd, "prod4", w); }
        // as part of an expression, and read element by element
        pd.fill(3); for (size_t l = 0; l < w.size(); ++l) { w[l].v = w[l].v * 2. + zz(pd.get(l)); w[l].m = w[l].m * 2 + std::abs(zz(pd.get(l))); }
        pd.view() = prod(pa.view(), pb.view()) * T(2) + pd.view(); result(pd, "expression of matrix * vector", w);
        pa.r.check("operand", "prod"); pb.r.check("operand", "prod");
      }
      {
        PA pa(m, n); PB pb(m, 1); PD pd(n, 1); pa.fill(1); pb.fill(2); pd.fill(3);
        auto w = product(pb, 1, m, false, false, pa, m, n, false, false);
        pd.view() = prod(pb.view(), pa.view()); result(pd, "vector * matrix", w);
        auto e = prod(pb.view(), pa.view()); for (int i = 0; i < n; ++i) if (!scalar(T(e.get(i)), w[i], "element of vector * matrix")) break;
        pa.r.check("operand", "prod"); pb.r.check("operand", "prod");
      }
      {
        PA pa(m, n); PA pr(m, n); pa.fill(1); 
        for (int d = 0; d < 2; ++d)
        {
          PB pb(d ? m : n, 1); pb.fill(2); pr.fill(3); std::vector<Ref> w(m * n);
          for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) w[i * n + j].add(zz(pa.get(i * n + j)), zz(pb.get(d ? i : j)));
          if (d) pr.view() = vmmul<1>(pb.view(), pa.view()); else pr.view() = vmmul<0>(pb.view(), pa.view());
          result(pr, d ? "vmmul<col>" : "vmmul<row>", w);
          pr.fill(3); for (size_t l = 0; l < w.size(); ++l) { w[l].v -= zz(pr.get(l)); w[l].m += std::abs(zz(pr.get(l))); }
          if (d) pr.view() = vmmul<1>(pb.view(), pa.view()) - pr.view(); else pr.view() = vmmul<0>(pb.view(), pa.view()) - pr.view();
          result(pr, "expression of vmmul", w);
          pa.r.check("operand", "vmmul"); pb.r.check("operand", "vmmul");
        }
      }
    }
  }
};
template <typename V, typename W> static void cdot(V a, W b, Ref w, std::true_type) { scalar(cvjdot(a, b), w, "cvjdot"); }
template <typename V, typename W> static void cdot(V, W, Ref, std::false_type) {}
template <typename V, typename W> static void modul(V a, W d, R nu, R phi, R &next, std::true_type) { next = modulate(a, nu, phi, d); }
template <typename V, typename W> static void modul(V, W, R, R, R &, std::false_type) {}
template <typename PA, typename PB, typename PD> struct VV
{
  static void go()
  {
    static int const s[] = {1, 2, 3, 4, 7, 16, 33, 64, 100, 257};
    for (int n : s) if (mc::next())
    {
      mc::desc("dot, outer, kron, cumsum of %s and %s, %d elements", PA::name(), PB::name(), n); mc::nontrivial();
      PA pa(n, 1); PB pb(n, 1); PD pd(n, 1); pa.fill(1); pb.fill(2);
      { Ref w, c; for (int i = 0; i < n; ++i) { w.add(zz(pa.get(i)), zz(pb.get(i))); c.add(zz(pa.get(i)), std::conj(zz(pb.get(i)))); } scalar(dot(pa.view(), pb.view()), w, "dot"); cdot(pa.view(), pb.view(), c, std::integral_constant<bool, cplx<T>::value>());
        Ref t; for (int i = 0; i < n; ++i) t.add(zz(pa.get(i)) + 2., zz(pb.get(i))); scalar(dot(pa.view() + T(2), pb.view()), t, "dot of an expression"); }
      for (int k : {1, 2, 5}) if (n < 10)
      {
        PB pk(k, 1); pk.fill(2); T alpha = val<T>::of(3); std::vector<Ref> w(n * k), q(n * k);
        for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { w[i * k + j].add(zz(alpha) * zz(pa.get(i)), cj(zz(pk.get(j)), cplx<T>::value)); q[j * n + i].add(zz(alpha) * zz(pa.get(i)), zz(pk.get(j))); }
        returned(outer(alpha, pa.view(), pk.view()), n, k, w, "outer"); returned(kron(alpha, pa.view(), pk.view()), k, n, q, "kron of vectors"); pk.r.check("operand", "outer");
      }
      { pd.fill(3); std::vector<Ref> w(n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) w[i].add(zz(pa.get(j)), 1.); cumsum<0>(pa.view(), pd.view()); result(pd, "cumsum", w); }
      if (cplx<T>::value)
      {
        pd.fill(3); R nu = R(0.375), phi = R(-1.25), next = R(99); std::vector<Ref> w(n); for (int i = 0; i < n; ++i) w[i].add(zz(pa.get(i)), std::polar(1., (double)(i * nu + phi)));
        modul(pa.view(), pd.view(), nu, phi, next, std::integral_constant<bool, cplx<T>::value>()); result(pd, "modulate", w);
        if (!(std::abs(next - (n * nu + phi)) <= eps * 20)) mc::fail("value", "modulate returns %g, expected %g", (double)next, (double)(n * nu + phi));
      }
      pa.r.check("operand", "vector functions"); pb.r.check("operand", "vector functions");
    }
  }
};
template <typename V> static void hermi(V a, std::vector<Ref> w, int m, int n, std::true_type) { returned(herm(a), n, m, w, "herm"); }
template <typename V> static void hermi(V, std::vector<Ref>, int, int, std::false_type) {}
// kron of matrices, cumsum, trans, herm
template <typename PA, typename PB, typename PD> struct MK
{
  static void go()
  {
    static int const s[][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};
    for (auto &x : s) if (mc::next())
    {
      int m = x[0], n = x[1];
      mc::desc("kron, cumsum, transpose of %s and %s, %dx%d", PA::name(), PB::name(), m, n); mc::nontrivial();
      PA pa(m, n); PD pd(m, n); pa.fill(1);
      for (auto &y : s)
      {
        PB pb(y[0], y[1]); pb.fill(2); int M = m * y[0], N = n * y[1]; std::vector<Ref> w(M * N); T alpha = val<T>::of(3);
        for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) w[i * N + j].add(zz(alpha) * zz(pa.get(i / y[0] * n + j / y[1])), zz(pb.get(i % y[0] * y[1] + j % y[1])));
        returned(kron(alpha, pa.view(), pb.view()), M, N, w, "kron"); pb.r.check("operand", "kron");
      }
      for (int d = 0; d < 2; ++d)
      {
        pd.fill(3); std::vector<Ref> w(m * n);
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= (d ? i : j); ++k) w[i * n + j].add(zz(pa.get(d ? k * n + j : i * n + k)), 1.);
        if (d) cumsum<1>(pa.view(), pd.view()); else cumsum<0>(pa.view(), pd.view()); result(pd, d ? "cumsum<1>" : "cumsum<0>", w);
      }
      std::vector<Ref> t(m * n), h(m * n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { t[j * m + i].add(zz(pa.get(i * n + j)), 1.); h[j * m + i].add(std::conj(zz(pa.get(i * n + j))), 1.); }
      returned(trans(pa.view()), n, m, t, "trans"); hermi(pa.view(), h, m, n, std::integral_constant<bool, cplx<T>::value>());
      pa.r.check("operand", "matrix functions");
    }
  }
};
static void cases()
{
  typedef list<wholev, strided, revv, rowline, column, tensorline> VL;
#if defined VECTORS
  loopD<VV>(list<wholev, strided, revv>(), VL(), VL());
  loopD<MK>(list<mrow, mcolsub>(), list<mrow, mcol, msub, mtrans, plane>(), list<mrow, mcol, msub>());
#elif defined MATVEC
  loopD<MV>(VL(), list<APS>(), list<wholev, strided, revv, column>());
#else
  loopD<MM>(list<DPS>(), list<APS>(), list<BPS>());
#endif
}
int main(int argc, char **argv) { init(); return mc::run(argc, argv, cases); }
