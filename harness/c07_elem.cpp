// C07: expressions with single elements of views (element proxies and references): every operator on every pair of
// elements of every kind of subview, the whole memory of the root compared with a reference memory after each.
#include "seq.hpp"
#include <sstream>
using namespace seq;
typedef ET T;
typedef Layout<D_, ORDER, PACK, FORMAT> L;
#ifdef DENSE
typedef Root<D_, T, L, Dense<D_, T, ORDER> > Rt;
#else
typedef Root<D_, T, L> Rt;
#endif
typedef Rt::R R;
static Rt *root;

template <typename X> auto el(X &v, int const *i, std::integral_constant<int, 1>) -> decltype(v(0)) { return v(i[0]); }
template <typename X> auto el(X &v, int const *i, std::integral_constant<int, 2>) -> decltype(v(0, 0)) { return v(i[0], i[1]); }
template <typename X> auto el(X &v, int const *i, std::integral_constant<int, 3>) -> decltype(v(0, 0, 0)) { return v(i[0], i[1], i[2]); }
#define AT(v, i) el(v, i, std::integral_constant<int, X::dim>())

template <typename U> struct Rf { static U get(int id, int) { return root->expect(id); } static void set(int id, int, U x) { root->set(id, x); } };
struct Rc { static R get(int id, int c) { return root->expc(id, c); } static void set(int id, int c, R x) { root->setc(id, c, x); } };
template <typename U> struct Sel { typedef typename std::conditional<std::is_same<U, T>::value, Rf<U>, Rc>::type type; };

static int const OPS = 22;
static char const *const NAME[OPS] = {"a = x", "a = b", "a += x", "a -= x", "a *= x", "a /= x", "a += b", "a -= b", "a *= b", "a /= b",
  "x += b", "x -= b", "x *= b", "x /= b", "x op b", "b op x", "a op b", "a = a op b", "a == b", "a = f(b)", "os << b", "a = b = x"};

template <typename X> void ops(X v, int c, char const *what)
{
  typedef typename X::value_type U; typedef typename Sel<U>::type M;
  int n[3] = {1, 1, 1}; for (unsigned k = 0; k < X::dim; ++k) n[k] = v.size(k);
  // where each element of the view is in the root (its values are distinct)
  root->reset();
  std::vector<int> id;
  for (Iter i(X::dim, n); i.more(); i.next())
  {
    U x = at<X::dim>::get(v, i.i); int f = -1;
    for (int k = 0; k < root->count; ++k) if (M::get(k, c) == x) f = k;
    if (f < 0) { mc::fail("lost", "%s: element %d is none of the elements of the block", what, (int)i.lin); return; }
    id.push_back(f);
  }
  for (Iter i(X::dim, n); i.more(); i.next())
    for (Iter j(X::dim, n); j.more(); j.next())
    {
      if (!mc::next()) continue;
      mc::desc("%s %s: %s, a=element %d, b=element %d", Rt::name().c_str(), show(D_, root->n).c_str(), what, (int)i.lin, (int)j.lin);
      mc::state(mc::mix(mc::hash(what, strlen(what), c + 7), i.lin * 1000 + j.lin));
      if (i.lin != j.lin) mc::nontrivial();
      for (int o = 0; o < OPS; ++o)
      {
        root->reset(o);
        U x = val<U>::of(5 + o), y = x, a = M::get(id[i.lin], c), b = M::get(id[j.lin], c);
        U r[8], w[8]; int k = 0; bool ok = true;
        for (int q = 0; q < 8; ++q) r[q] = w[q] = U();
        switch (o)
        {
        case 0: AT(v, i.i) = x; a = x; break;
        case 1: AT(v, i.i) = AT(v, j.i); a = b; break;
        case 2: r[k] = AT(v, i.i) += x; a += x; w[k++] = a; break;
        case 3: r[k] = AT(v, i.i) -= x; a -= x; w[k++] = a; break;
        case 4: r[k] = AT(v, i.i) *= x; a *= x; w[k++] = a; break;
        case 5: r[k] = AT(v, i.i) /= x; a /= x; w[k++] = a; break;
        case 6: AT(v, i.i) += AT(v, j.i); a += b; break;
        case 7: AT(v, i.i) -= AT(v, j.i); a -= b; break;
        case 8: AT(v, i.i) *= AT(v, j.i); a = U(a * b); break;
        case 9: if (b == U()) break; AT(v, i.i) /= AT(v, j.i); a = U(a / b); break;
        case 10: r[k] = x += AT(v, j.i); y += b; w[k++] = y; r[k] = x; w[k++] = y; break;
        case 11: r[k] = x -= AT(v, j.i); y -= b; w[k++] = y; r[k] = x; w[k++] = y; break;
        case 12: r[k] = x *= AT(v, j.i); y *= b; w[k++] = y; r[k] = x; w[k++] = y; break;
        case 13: if (b == U()) break; r[k] = x /= AT(v, j.i); y /= b; w[k++] = y; r[k] = x; w[k++] = y; break;
        case 14:
          r[k] = x + AT(v, j.i); w[k++] = x + b; r[k] = x - AT(v, j.i); w[k++] = x - b; r[k] = x * AT(v, j.i); w[k++] = x * b;
          if (!(b == U())) { r[k] = x / AT(v, j.i); w[k++] = x / b; } break;
        case 15:
          r[k] = AT(v, j.i) + x; w[k++] = b + x; r[k] = AT(v, j.i) - x; w[k++] = b - x; r[k] = AT(v, j.i) * x; w[k++] = b * x;
          r[k] = AT(v, j.i) / x; w[k++] = b / x; break;
        case 16:
          r[k] = AT(v, i.i) + AT(v, j.i); w[k++] = a + b; r[k] = AT(v, i.i) - AT(v, j.i); w[k++] = a - b;
          r[k] = AT(v, i.i) * AT(v, j.i); w[k++] = a * b; if (!(b == U())) { r[k] = AT(v, i.i) / AT(v, j.i); w[k++] = a / b; } break;
        case 17: AT(v, i.i) = AT(v, i.i) - AT(v, j.i); a = a - b; break;
        case 18: ok = (AT(v, i.i) == AT(v, j.i)) == (a == b) && AT(v, j.i) == b && !(AT(v, j.i) == U(b + x)); break;
        case 19: { auto &&p = AT(v, j.i); AT(v, i.i) = sq(p); a = b * b; break; }
        case 20: { std::ostringstream s, t; s << AT(v, j.i); t << b; ok = s.str() == t.str(); break; }
        case 21: AT(v, i.i) = AT(v, j.i) = x; a = x; if (i.lin != j.lin) M::set(id[j.lin], c, x); break;
        }
        mc::step();
        M::set(id[i.lin], c, a);
        for (int q = 0; q < k; ++q)
          if (!(r[q] == w[q])) { mc::fail(NAME[o], "%s (result %d) gives %s, expected %s", NAME[o], q, mc::str(r[q]).c_str(), mc::str(w[q]).c_str()); return; }
        if (!ok) { mc::fail(NAME[o], "%s is wrong", NAME[o]); return; }
        if (!root->check(NAME[o], NAME[o])) return;
      }
    }
}
template <typename X> typename std::enable_if<!cplx<typename X::value_type>::value>::type both(X v, char const *what) { ops(v, -1, what); }
template <typename X> typename std::enable_if<cplx<typename X::value_type>::value>::type both(X v, char const *what)
{
  ops(v, -1, what);
#ifndef NOREIM
  std::string s(what);
  ops(v.real(), 0, (s + ".real()").c_str());
  ops(v.imag(), 1, (s + ".imag()").c_str());
#endif
}
typedef Domain<1> D1;
template <typename X> void kinds(X v, std::integral_constant<int, 1>)
{
  int n = v.size(0);
  both(v, "whole");
  if (n > 1) both(v(D1(0, 2, (n + 1) / 2)), "every second");
  if (n > 1) both(v(D1(n - 1, -1, n)), "reversed");
}
template <typename X> void kinds(X v, std::integral_constant<int, 2>)
{
  int n = v.size(0), m = v.size(1);
  both(v, "whole");
  both(v(Domain<2>(D1(0, 1, n > 1 ? n - 1 : n), D1(m - 1, -1, m))), "sub-matrix");
  both(v.transpose(), "transpose");
  for (int i = 0; i < n; ++i) both(v.row(i), "row");
  for (int i = 0; i < m; ++i) both(v.col(i), "column");
  both(v.diag(0), "diagonal");
  if (m > 1) both(v.diag(1), "upper diagonal");
}
template <typename X> void kinds(X v, std::integral_constant<int, 3>)
{
  both(v, "whole");
  typedef vsip::whole_domain_type W; W w = vsip::whole_domain;
  both(v(0, w, w), "slice 0"); both(v(w, 1, w), "slice 1"); both(v(w, w, 1), "slice 2");
#ifndef NOREF
  both(v(0, 1, w), "line 2"); both(v(1, w, 0), "line 1"); both(v(w, 2, 1), "line 0");
#endif
}
static void enumerate()
{
  init();
  static int const N1[][3] = {{1, 1, 1}, {5, 1, 1}, {9, 1, 1}}, N2[][3] = {{1, 2, 1}, {2, 3, 1}, {4, 3, 1}}, N3[][3] = {{2, 3, 2}, {2, 3, 4}, {3, 4, 2}};
  for (int k = 0; k < mc::tier(2, 3); ++k)
  {
    root = new Rt(D_ == 1 ? N1[k] : D_ == 2 ? N2[k] : N3[k]);
    kinds(root->view(), std::integral_constant<int, D_>());
    delete root;
  }
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
