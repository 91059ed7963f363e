// C07: every composition of view operations up to a depth, on a root block of one layout.
#include "seq.hpp"
using namespace seq;
typedef ET T;
typedef Layout<D_, ORDER, PACK, FORMAT> L;
#ifdef DENSE
typedef Root<D_, T, L, Dense<D_, T, ORDER> > Rt;
#else
typedef Root<D_, T, L> Rt;
#endif
typedef Rt::R R;
static Rt *root;

struct Path { std::string s; long h; };
struct Shape { int n[3]; std::vector<int> ids; int c; }; // c: -1 whole element, 0/1 component

template <typename U> struct Ref
{ // whole elements
  static U get(int id, int) { return root->expect(id); }
  static void set(int id, int, U v) { root->set(id, v); }
};
struct CRef
{
  static R get(int id, int c) { return root->expc(id, c); }
  static void set(int id, int c, R v) { root->setc(id, c, v); }
};
template <typename U> struct Sel { typedef typename std::conditional<std::is_same<U, T>::value, Ref<U>, CRef>::type type; };

template <dimension_type D, typename B> struct Dd
{
  template <typename X, typename S> static void run(X v, S const &s)
  {
    typedef typename X::value_type U; typedef typename Sel<U>::type M;
    {
      vsip::dda::Data<B, vsip::dda::inout> d(v.block());
      for (unsigned k = 0; k < D; ++k) if ((int)d.size(k) != s.n[k]) { mc::fail("dda", "size %d in dimension %u, expected %d", (int)d.size(k), k, s.n[k]); return; }
      for (Iter i(D, s.n); i.more(); i.next())
      {
        long o = 0; for (unsigned k = 0; k < D; ++k) o += d.stride(k) * i.i[k];
        U got = rd(d.ptr(), o, (U *)0), w = M::get(s.ids[i.lin], s.c);
        if (!(got == w)) { mc::fail("dda", "direct access reads %s at %d,%d,%d, expected %s", mc::str(got).c_str(), i.i[0], i.i[1], i.i[2], mc::str(w).c_str()); return; }
        U nv = val<U>::of(700 + 3 * i.lin);
        wr(d.ptr(), o, nv); M::set(s.ids[i.lin], s.c, nv);
      }
    }
    root->check("dda", "after direct data access");
  }
  template <typename U> static U rd(U *p, long o, U *) { return p[o]; }
  template <typename U> static std::complex<U> rd(U *p, long o, std::complex<U> *) { return std::complex<U>(p[2 * o], p[2 * o + 1]); }
  template <typename U> static std::complex<U> rd(std::pair<U *, U *> p, long o, std::complex<U> *) { return std::complex<U>(p.first[o], p.second[o]); }
  template <typename U> static void wr(U *p, long o, U v) { p[o] = v; }
  template <typename U> static void wr(U *p, long o, std::complex<U> v) { p[2 * o] = v.real(); p[2 * o + 1] = v.imag(); }
  template <typename U> static void wr(std::pair<U *, U *> p, long o, std::complex<U> v) { p.first[o] = v.real(); p.second[o] = v.imag(); }
};

#ifdef NOREF // lvalue access to lines of a split-complex tensor, or of a component of a tensor, does not compile
template <typename X, typename U> void setref(X v, int const *i, U x) { at<X::dim>::put(v, i, x); }
template <typename X> typename X::value_type getref(X v, int const *i) { return at<X::dim>::get(v, i); }
#else
template <typename X, typename U> void setref(X v, int const *i, U x) { at<X::dim>::ref(v, i, x); }
template <typename X> typename X::value_type getref(X v, int const *i) { return at<X::dim>::rd(v, i); }
#endif
template <dimension_type D, typename U> struct Fresh;
template <typename U> struct Fresh<1, U> { typedef Vector<U> type; static type make(int const *n) { return type(n[0]); } };
template <typename U> struct Fresh<2, U> { typedef Matrix<U> type; static type make(int const *n) { return type(n[0], n[1]); } };
template <typename U> struct Fresh<3, U> { typedef Tensor<U> type; static type make(int const *n) { return type(n[0], n[1], n[2]); } };

template <typename X> bool check_view(X v, Shape const &s)
{
  static dimension_type const D = X::dim;
  typedef typename X::value_type U; typedef typename X::block_type B; typedef typename Sel<U>::type M;
  long fails = mc::g().sh->fails;
  root->reset();
  int tot = 1;
  for (unsigned d = 0; d < D; ++d)
  {
    tot *= s.n[d];
    if ((int)v.size(d) != s.n[d]) { mc::fail("size", "size %d in dimension %u, expected %d", (int)v.size(d), d, s.n[d]); return false; }
  }
  if ((int)v.size() != tot) { mc::fail("size", "total size %d, expected %d", (int)v.size(), tot); return false; }
  // reading
  for (Iter i(D, s.n); i.more(); i.next())
  {
    U g = at<D>::get(v, i.i), w = M::get(s.ids[i.lin], s.c), r = getref(v, i.i);
    if (!(g == w) || !(r == w)) { mc::fail("read", "element %d,%d,%d reads %s / %s, expected %s", i.i[0], i.i[1], i.i[2], mc::str(g).c_str(), mc::str(r).c_str(), mc::str(w).c_str()); return false; }
    mc::step();
  }
  // writing one element at a time, through put and through the lvalue
  for (Iter i(D, s.n); i.more(); i.next())
  {
    U x = val<U>::of(300 + 2 * i.lin), y = val<U>::of(301 + 2 * i.lin);
    at<D>::put(v, i.i, x); M::set(s.ids[i.lin], s.c, x); if (!root->check("write", "after put")) return false;
    setref(v, i.i, y); M::set(s.ids[i.lin], s.c, y); if (!root->check("write", "after assignment to the element")) return false;
    mc::step(2);
  }
  // whole-view assignment to and from
  typename Fresh<D, U>::type w = Fresh<D, U>::make(s.n), z = Fresh<D, U>::make(s.n);
  for (Iter i(D, s.n); i.more(); i.next()) { U x = val<U>::of(500 + i.lin); at<D>::put(w, i.i, x); M::set(s.ids[i.lin], s.c, x); }
  v = w;
  if (!root->check("assign", "after assigning a view")) return false;
  z = v;
  for (Iter i(D, s.n); i.more(); i.next()) if (!(at<D>::get(z, i.i) == at<D>::get(w, i.i))) { mc::fail("assign", "copying out of the view gives another value at %d,%d,%d", i.i[0], i.i[1], i.i[2]); return false; }
  Dd<D, B>::run(v, s);
  U c = val<U>::of(900);
  v = c;
  for (size_t i = 0; i < s.ids.size(); ++i) M::set(s.ids[i], s.c, c);
  root->check("assign", "after assigning a scalar");
  // a copy of the view names the same data; the const view as well
  X v2(v); typename ovxx::view_of<B>::const_type cv(v);
  for (Iter i(D, s.n); i.more(); i.next())
  {
    U x = val<U>::of(950 + i.lin); at<D>::put(v2, i.i, x); M::set(s.ids[i.lin], s.c, x);
    if (!(at<D>::get(cv, i.i) == x) || !(at<D>::get(v, i.i) == x)) { mc::fail("copy", "a copy of the view does not name the same data"); return false; }
  }
  root->check("copy", "after writing through a copy of the view");
  mc::step(6);
  mc::outcome(root->hash());
  return mc::g().sh->fails == fails;
}

static Shape pick(Shape const &s, int D, int ND, int const *n, std::function<void(int const *, int *)> f)
{
  Shape r; r.c = s.c; for (int k = 0; k < 3; ++k) r.n[k] = k < ND ? n[k] : 1;
  for (Iter i(ND, n); i.more(); i.next())
  { int o[3] = {0, 0, 0}; f(i.i, o); long l = 0; for (int k = 0; k < D; ++k) l = l * s.n[k] + o[k]; r.ids.push_back(s.ids[l]); }
  return r;
}
static int nth(Domain<1> const &d, int i) { return d.first() + d.stride() * i; }

template <int K> struct Go;
template <int K, typename X> void go(X v, Shape const &s, std::string const &p);

template <int K, typename X> void leaf(X v, Shape const &s, std::string const &p)
{
  if (mc::next())
  {
    mc::desc("%s %s: %s", Rt::name().c_str(), show(D_, root->n).c_str(), p.c_str());
    mc::state(mc::hash(&s.ids[0], s.ids.size() * sizeof(int), mc::hash(s.n, sizeof s.n, s.c + 7)));
    if (s.ids.size() > 1) mc::nontrivial();
    check_view(v, s);
  }
  if (K > 0) Go<K - 1>::run(v, s, p + " ");
}
// how dense the sub-domains are at each position of the composition
static int level(int k, int D)
{
  int t = mc::thorough(), top = k + 1 == DEPTH, second = k + 2 == DEPTH;
  if (D == 1) return top || t ? 3 : 2;
  if (D == 2) return top ? 3 : second ? 2 : 1;
  return top ? 2 : second && t ? 2 : 1;
}

template <int K> struct Go
{
  template <typename U, typename B> static void run(Vector<U, B> v, Shape const &s, std::string const &p)
  {
    for (Domain<1> const &d : domains(s.n[0], level(K, 1)))
    {
      int n[3] = {(int)d.length(), 1, 1};
      Shape r = pick(s, 1, 1, n, [&](int const *i, int *o) { o[0] = nth(d, i[0]); });
      leaf<K>(v(d), r, p + "(" + show(d) + ")");
    }
    reim(v, s, p);
  }
  template <typename U, typename B> static void run(Matrix<U, B> v, Shape const &s, std::string const &p)
  {
    for (Domain<1> const &d : domains(s.n[0], level(K, 2))) for (Domain<1> const &e : domains(s.n[1], level(K, 2)))
    {
      int n[3] = {(int)d.length(), (int)e.length(), 1};
      Shape r = pick(s, 2, 2, n, [&](int const *i, int *o) { o[0] = nth(d, i[0]); o[1] = nth(e, i[1]); });
      leaf<K>(v(Domain<2>(d, e)), r, p + "(" + show(d) + "," + show(e) + ")");
    }
    { int n[3] = {s.n[1], s.n[0], 1}; leaf<K>(v.transpose(), pick(s, 2, 2, n, [&](int const *i, int *o) { o[0] = i[1]; o[1] = i[0]; }), p + "transpose"); }
    for (int k = 0; k < s.n[0]; ++k) { int n[3] = {s.n[1], 1, 1}; Shape r = pick(s, 2, 1, n, [&](int const *i, int *o) { o[0] = k; o[1] = i[0]; }); if (k % 2) leaf<K>(v.row(k), r, p + "row " + mc::str(k)); else leaf<K>(v(k, whole_domain), r, p + "row " + mc::str(k)); }
    for (int k = 0; k < s.n[1]; ++k) { int n[3] = {s.n[0], 1, 1}; Shape r = pick(s, 2, 1, n, [&](int const *i, int *o) { o[1] = k; o[0] = i[0]; }); if (k % 2) leaf<K>(v.col(k), r, p + "col " + mc::str(k)); else leaf<K>(v(whole_domain, k), r, p + "col " + mc::str(k)); }
    for (int k = 1 - s.n[0]; k < s.n[1]; ++k)
    {
      int len = 0; for (int i = 0; i < s.n[0]; ++i) if (i + k >= 0 && i + k < s.n[1]) ++len;
      int n[3] = {len, 1, 1};
      leaf<K>(v.diag(k), pick(s, 2, 1, n, [&](int const *i, int *o) { o[0] = i[0] + (k < 0 ? -k : 0); o[1] = i[0] + (k > 0 ? k : 0); }), p + "diag " + mc::str(k));
    }
    reim(v, s, p);
  }
  template <int a, int b, int c, typename U, typename B> static void perm(Tensor<U, B> v, Shape const &s, std::string const &p)
  {
    int q[3] = {a, b, c}, n[3] = {s.n[a], s.n[b], s.n[c]};
    leaf<K>(v.template transpose<a, b, c>(), pick(s, 3, 3, n, [&](int const *i, int *o) { for (int k = 0; k < 3; ++k) o[q[k]] = i[k]; }), p + "transpose<" + mc::str(a) + mc::str(b) + mc::str(c) + ">");
  }
  template <typename U, typename B> static void run(Tensor<U, B> v, Shape const &s, std::string const &p)
  {
    for (Domain<1> const &d : domains(s.n[0], level(K, 3))) for (Domain<1> const &e : domains(s.n[1], level(K, 3))) for (Domain<1> const &f : domains(s.n[2], level(K, 3)))
    {
      int n[3] = {(int)d.length(), (int)e.length(), (int)f.length()};
      leaf<K>(v(Domain<3>(d, e, f)), pick(s, 3, 3, n, [&](int const *i, int *o) { o[0] = nth(d, i[0]); o[1] = nth(e, i[1]); o[2] = nth(f, i[2]); }), p + "(" + show(d) + "," + show(e) + "," + show(f) + ")");
    }
    perm<0, 1, 2>(v, s, p); perm<0, 2, 1>(v, s, p); perm<1, 0, 2>(v, s, p); perm<1, 2, 0>(v, s, p); perm<2, 0, 1>(v, s, p); perm<2, 1, 0>(v, s, p);
    for (int k = 0; k < s.n[0]; ++k) { int n[3] = {s.n[1], s.n[2], 1}; leaf<K>(v(k, whole_domain, whole_domain), pick(s, 3, 2, n, [&](int const *i, int *o) { o[0] = k; o[1] = i[0]; o[2] = i[1]; }), p + "slice " + mc::str(k) + ",:,:"); }
    for (int k = 0; k < s.n[1]; ++k) { int n[3] = {s.n[0], s.n[2], 1}; leaf<K>(v(whole_domain, k, whole_domain), pick(s, 3, 2, n, [&](int const *i, int *o) { o[0] = i[0]; o[1] = k; o[2] = i[1]; }), p + "slice :," + mc::str(k) + ",:"); }
    for (int k = 0; k < s.n[2]; ++k) { int n[3] = {s.n[0], s.n[1], 1}; leaf<K>(v(whole_domain, whole_domain, k), pick(s, 3, 2, n, [&](int const *i, int *o) { o[0] = i[0]; o[1] = i[1]; o[2] = k; }), p + "slice :,:," + mc::str(k)); }
    for (int a = 0; a < s.n[0]; ++a) for (int b = 0; b < s.n[1]; ++b) { int n[3] = {s.n[2], 1, 1}; leaf<K>(v(a, b, whole_domain), pick(s, 3, 1, n, [&](int const *i, int *o) { o[0] = a; o[1] = b; o[2] = i[0]; }), p + "line " + mc::str(a) + "," + mc::str(b) + ",:"); }
    for (int a = 0; a < s.n[0]; ++a) for (int b = 0; b < s.n[2]; ++b) { int n[3] = {s.n[1], 1, 1}; leaf<K>(v(a, whole_domain, b), pick(s, 3, 1, n, [&](int const *i, int *o) { o[0] = a; o[2] = b; o[1] = i[0]; }), p + "line " + mc::str(a) + ",:," + mc::str(b)); }
    for (int a = 0; a < s.n[1]; ++a) for (int b = 0; b < s.n[2]; ++b) { int n[3] = {s.n[0], 1, 1}; leaf<K>(v(whole_domain, a, b), pick(s, 3, 1, n, [&](int const *i, int *o) { o[1] = a; o[2] = b; o[0] = i[0]; }), p + "line :," + mc::str(a) + "," + mc::str(b)); }
    if (K == DEPTH - 1)
    { // slices and lines of sub-domains, in one step (only on the root: these are compositions)
      for (int k = 0; k < 3; ++k)
      {
        int x = k == 0 ? 1 : 0, y = k == 2 ? 1 : 2;
        for (int j = 0; j < s.n[k]; ++j) for (Domain<1> const &d : domains(s.n[x], 2)) for (Domain<1> const &e : domains(s.n[y], 2))
        {
          int n[3] = {(int)d.length(), (int)e.length(), 1};
          Shape r = pick(s, 3, 2, n, [&](int const *i, int *o) { o[k] = j; o[x] = nth(d, i[0]); o[y] = nth(e, i[1]); });
          std::string q = p + "slice of dimension " + mc::str(k) + " at " + mc::str(j) + " (" + show(d) + "," + show(e) + ")";
          if (k == 0) leaf<0>(v(j, d, e), r, q); else if (k == 1) leaf<0>(v(d, j, e), r, q); else leaf<0>(v(d, e, j), r, q);
        }
        for (int i0 = 0; i0 < s.n[x]; ++i0) for (int i1 = 0; i1 < s.n[y]; ++i1) for (Domain<1> const &d : domains(s.n[k], 2))
        {
          int n[3] = {(int)d.length(), 1, 1};
          Shape r = pick(s, 3, 1, n, [&](int const *i, int *o) { o[x] = i0; o[y] = i1; o[k] = nth(d, i[0]); });
          std::string q = p + "line along " + mc::str(k) + " at " + mc::str(i0) + "," + mc::str(i1) + " (" + show(d) + ")";
          if (k == 0) leaf<0>(v(d, i0, i1), r, q); else if (k == 1) leaf<0>(v(i0, d, i1), r, q); else leaf<0>(v(i0, i1, d), r, q);
        }
      }
    }
    reim(v, s, p);
  }
  template <typename X> static void reim(X v, Shape const &s, std::string const &p) { reim_(v, s, p, std::integral_constant<bool, cplx<typename X::value_type>::value>()); }
  template <typename X> static void reim_(X v, Shape const &s, std::string const &p, std::true_type)
  {
#ifdef NOREIM
    return;
#else
    reim2(v, s, p);
#endif
  }
  template <typename X> static void reim2(X v, Shape const &s, std::string const &p)
  { Shape r = s; r.c = 0; leaf<K>(v.real(), r, p + "real"); r.c = 1; leaf<K>(v.imag(), r, p + "imag"); }
  template <typename X> static void reim_(X, Shape const &, std::string const &, std::false_type) {}
};
template <> struct Go<-1> { template <typename X> static void run(X, Shape const &, std::string const &) {} };

static void enumerate()
{
  init();
  static int const N1[][3] = {{1, 1, 1}, {4, 1, 1}, {5, 1, 1}}, N2[][3] = {{3, 4, 1}, {1, 3, 1}, {2, 1, 1}}, N3[][3] = {{2, 3, 2}, {3, 1, 2}};
  int cnt = D_ == 1 ? 3 : D_ == 2 ? 3 : 2;
  for (int k = 0; k < cnt; ++k)
  {
    root = new Rt(D_ == 1 ? N1[k] : D_ == 2 ? N2[k] : N3[k]);
    Shape s; s.c = -1; for (int d = 0; d < 3; ++d) s.n[d] = root->n[d];
    for (int i = 0; i < root->count; ++i) s.ids.push_back(i);
    leaf<DEPTH>(root->view(), s, "whole");
    delete root;
  }
  // larger blocks, shorter compositions
  static int const M1[][3] = {{17, 1, 1}, {40, 1, 1}}, M2[][3] = {{5, 8, 1}, {17, 4, 1}}, M3[][3] = {{4, 5, 3}, {2, 3, 9}};
  for (int k = 0; k < 2; ++k)
  {
    root = new Rt(D_ == 1 ? M1[k] : D_ == 2 ? M2[k] : M3[k]);
    Shape s; s.c = -1; for (int d = 0; d < 3; ++d) s.n[d] = root->n[d];
    for (int i = 0; i < root->count; ++i) s.ids.push_back(i);
    leaf<1>(root->view(), s, "whole of a larger block");
    delete root;
  }
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
