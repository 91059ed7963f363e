// Shared pieces of the parallel harnesses: map specifications with an independent
// reference for ownership, view creation, filling and checking.
#ifndef PAR_HPP
#define PAR_HPP
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vsip/math.hpp>
#include <ovxx/domain_utils.hpp>
#include <ovxx/parallel/assign.hpp>
#include <fakempi.hpp>
#include <string>
#include <vector>
#include <sstream>

namespace par
{
using namespace vsip;
namespace vp = ovxx::parallel;

struct Dim { char kind; int nsb, contig; };  // kind: b, c, w
struct Spec { Dim d[3]; int pv; bool repl; };

inline int &np() { static int n = 1; return n; }

// ---- reference distribution ---------------------------------------------------
inline int ref_sb(Dim const &d, int size, int i)
{
  if (d.kind == 'w') return 0;
  if (d.kind == 'c') return (i / d.contig) % d.nsb;
  int at = 0;
  for (int s = 0; s < d.nsb; ++s)
  { int n = size / d.nsb + (s < size % d.nsb ? 1 : 0); if (i < at + n) return s; at += n; }
  return -1;
}
// position of i within its subblock: how many smaller indices the subblock holds
inline int ref_local(Dim const &d, int size, int i)
{
  int s = ref_sb(d, size, i), n = 0;
  for (int k = 0; k < i; ++k) if (ref_sb(d, size, k) == s) ++n;
  return n;
}
inline int ref_size(Dim const &d, int size, int sb)
{ int n = 0; for (int k = 0; k < size; ++k) if (ref_sb(d, size, k) == sb) ++n; return n; }

// processor that owns subblock s (rank within the processor vector -> processor)
inline int pv_proc(Spec const &s, int k)
{
  int n = np();
  switch (s.pv)
  {
    case 0: return k;
    case 1: return n - 1 - k;
    default: return (k + 1) % n;
  }
}
inline int nsub(Spec const &s, int D) { int n = 1; for (int d = 0; d < 3; ++d) n *= s.d[d].nsb; return n; }
// subblock held by processor p, -1 if none
inline int sub_of(Spec const &s, int p, int D)
{
  if (s.repl) { for (int k = 0; k < s.d[0].nsb; ++k) if (pv_proc(s, k) == p) return 0; return -1; }
  for (int k = 0; k < nsub(s, D); ++k) if (pv_proc(s, k) == p) return k;
  return -1;
}
template <dimension_type D>
inline bool owns(Spec const &s, int const *size, int const *g, int p, int *l)
{
  int sb = sub_of(s, p, D);
  if (sb < 0) return false;
  if (s.repl) { for (unsigned d = 0; d < D; ++d) l[d] = g[d]; return true; }
  int part[3] = {0, 0, 0}, v = sb;
  for (int d = 3; d-- > 0;) { part[d] = v % s.d[d].nsb; v /= s.d[d].nsb; }
  for (unsigned d = 0; d < D; ++d)
  {
    if (ref_sb(s.d[d], size[d], g[d]) != part[d]) return false;
    l[d] = ref_local(s.d[d], size[d], g[d]);
  }
  return true;
}

inline std::string show(Spec const &s, int D)
{
  std::ostringstream o;
  if (s.repl) o << "repl(" << s.d[0].nsb << ")";
  else
    for (int d = 0; d < D; ++d)
    { o << (d ? "x" : "") << s.d[d].kind; if (s.d[d].kind != 'w') o << s.d[d].nsb; if (s.d[d].kind == 'c') o << "/" << s.d[d].contig; }
  if (s.pv) o << (s.pv == 1 ? " reversed" : " rotated");
  return o.str();
}

// ---- building maps --------------------------------------------------------------
template <typename D> struct mk;
template <> struct mk<Block_dist> { static Block_dist make(Dim const &d) { return Block_dist(d.nsb); } static std::string kinds() { return "b"; } };
template <> struct mk<Cyclic_dist> { static Cyclic_dist make(Dim const &d) { return Cyclic_dist(d.nsb, d.contig); } static std::string kinds() { return "c"; } };
template <> struct mk<Whole_dist> { static Whole_dist make(Dim const &d) { return Whole_dist(1); } static std::string kinds() { return "w"; } };

template <typename M> struct mkmap;
template <typename D0, typename D1, typename D2> struct mkmap<Map<D0, D1, D2> >
{
  static Map<D0, D1, D2> make(Spec const &s)
  {
    int n = nsub(s, 3);
    if (s.pv == 0)
      return Map<D0, D1, D2>(mk<D0>::make(s.d[0]), mk<D1>::make(s.d[1]), mk<D2>::make(s.d[2]));
    Vector<processor_type> pv(n);
    for (int k = 0; k < n; ++k) pv.put(k, pv_proc(s, k));
    return Map<D0, D1, D2>(pv, mk<D0>::make(s.d[0]), mk<D1>::make(s.d[1]), mk<D2>::make(s.d[2]));
  }
  static std::string kinds() { return mk<D0>::kinds() + mk<D1>::kinds() + mk<D2>::kinds(); }
};
template <dimension_type D> struct mkmap<Replicated_map<D> >
{
  static Replicated_map<D> make(Spec const &s)
  {
    if (s.pv == 0 && s.d[0].nsb == np()) return Replicated_map<D>();
    Vector<processor_type> pv(s.d[0].nsb);
    for (int k = 0; k < s.d[0].nsb; ++k) pv.put(k, pv_proc(s, k));
    return Replicated_map<D>(pv);
  }
  static std::string kinds() { return "r"; }
};

// every specification of a map type for D dimensions on np processors
template <typename M>
std::vector<Spec> specs(int D, std::vector<int> contigs, bool allpv = true)
{
  std::vector<Spec> out;
  std::string k = mkmap<M>::kinds();
  int n = np();
  if (k == "r")
  {
    for (int m = 1; m <= n; ++m)
      for (int pv = 0; pv < (n == 1 ? 1 : allpv ? 3 : 2); ++pv)
      {
        if (n == 2 && pv == 2) continue;
        Spec s = {{{'w', m, 0}, {'w', 1, 0}, {'w', 1, 0}}, pv, true}; out.push_back(s);
      }
    return out;
  }
  auto opts = [&](char c, int d)
  {
    std::vector<Dim> o;
    if (d >= D) { o.push_back(Dim{c, 1, 1}); return o; }
    if (c == 'w') o.push_back(Dim{'w', 1, 0});
    else for (int m = 1; m <= n; ++m)
    {
      if (c == 'b') o.push_back(Dim{'b', m, 0});
      else for (int q : contigs) o.push_back(Dim{'c', m, q});
    }
    return o;
  };
  for (Dim a : opts(k[0], 0)) for (Dim b : opts(k[1], 1)) for (Dim c : opts(k[2], 2))
  {
    if (a.nsb * b.nsb * c.nsb > n) continue;
    for (int pv = 0; pv < (n == 1 ? 1 : allpv ? 3 : 2); ++pv)
    {
      if (n == 2 && pv == 2) continue;
      Spec s = {{a, b, c}, pv, false}; out.push_back(s);
    }
  }
  return out;
}

// ---- values -----------------------------------------------------------------------
template <typename T> struct val { static T of(long n) { return T(n); } };
template <typename T> struct val<std::complex<T> > { static std::complex<T> of(long n) { return std::complex<T>(n, 0.5 * (n % 64) - 3); } };

template <dimension_type D> struct Shape
{
  int n[D];
  long total() const { long t = 1; for (unsigned d = 0; d < D; ++d) t *= n[d]; return t; }
  void at(long lin, int *g) const { for (int d = D; d-- > 0;) { g[d] = lin % n[d]; lin /= n[d]; } }
  long lin(int const *g) const { long l = 0; for (unsigned d = 0; d < D; ++d) l = l * n[d] + g[d]; return l; }
  Domain<D> dom() const;
  std::string str() const { std::string s; for (unsigned d = 0; d < D; ++d) s += (d ? "x" : "") + std::to_string(n[d]); return s; }
};
template <> inline Domain<1> Shape<1>::dom() const { return Domain<1>(n[0]); }
template <> inline Domain<2> Shape<2>::dom() const { return Domain<2>(n[0], n[1]); }
template <> inline Domain<3> Shape<3>::dom() const { return Domain<3>(n[0], n[1], n[2]); }

template <typename V> struct acc;
template <typename T, typename B> struct acc<Vector<T, B> >
{ static T get(Vector<T, B> v, int const *i) { return v.get(i[0]); } static void put(Vector<T, B> v, int const *i, T x) { v.put(i[0], x); } };
template <typename T, typename B> struct acc<Matrix<T, B> >
{ static T get(Matrix<T, B> v, int const *i) { return v.get(i[0], i[1]); } static void put(Matrix<T, B> v, int const *i, T x) { v.put(i[0], i[1], x); } };
template <typename T, typename B> struct acc<Tensor<T, B> >
{ static T get(Tensor<T, B> v, int const *i) { return v.get(i[0], i[1], i[2]); } static void put(Tensor<T, B> v, int const *i, T x) { v.put(i[0], i[1], i[2], x); } };

// A distributed view with its specification
template <dimension_type D, typename T, typename O, typename M> struct DV
{
  typedef Dense<D, T, O, M> block_type;
  typedef typename ovxx::view_of<block_type>::type view_type;
  typedef typename view_type::local_type local_type;
  Shape<D> sh; Spec sp;
  M map;
  ovxx::refcounted_ptr<block_type> blk;
  view_type view;
  DV(Shape<D> s, Spec p) : sh(s), sp(p), map(mkmap<M>::make(p)), blk(new block_type(s.dom(), map), false), view(*blk) {}
  template <typename F> void each(F f)
  {
    int me = fk::rank();
    for (long i = 0; i < sh.total(); ++i)
    { int g[3], l[3]; sh.at(i, g); if (owns<D>(sp, sh.n, g, me, l)) f(i, g, l); }
  }
  void check_extent()
  {
    int me = fk::rank();
    local_type lv = view.local();
    int sb = sub_of(sp, me, D);
    int part[3] = {0, 0, 0}, v = sb;
    for (int d = 3; d-- > 0;) { part[d] = v % sp.d[d].nsb; v /= sp.d[d].nsb; }
    for (unsigned d = 0; d < D; ++d)
    {
      int want = sb < 0 ? 0 : sp.repl ? sh.n[d] : ref_size(sp.d[d], sh.n[d], part[d]);
      if ((int)lv.size(d) != want) fk::fail("extent", "local view has size %d in dimension %u, expected %d", (int)lv.size(d), d, want);
    }
  }
  void fill(long salt)
  { local_type lv = view.local(); each([&](long i, int *, int *l) { acc<local_type>::put(lv, l, val<T>::of(1 + i + salt)); }); }
  template <typename F> bool check(char const *key, F expect)
  {
    local_type lv = view.local(); bool ok = true;
    unsigned long long h = 1;
    each([&](long i, int *g, int *l)
    {
      T got = acc<local_type>::get(lv, l), want = expect(i, g);
      h = fk::hash(&got, sizeof got, h);
      if (ok && !(got == want))
      {
        std::ostringstream o; o << "element"; for (unsigned d = 0; d < D; ++d) o << (d ? "," : " ") << g[d];
        o << " is " << got << ", expected " << want;
        fk::fail(key, "%s", o.str().c_str()); ok = false;
      }
    });
    fk::outcome(h);
    return ok;
  }
};

struct Scn { std::string desc; std::function<void()> body; int bound; };
inline std::vector<Scn> &scns() { static std::vector<Scn> v; return v; }
inline void add(std::string const &d, std::function<void()> b, int bound = -1) { scns().push_back(Scn{d, b, bound}); }

inline int run(int argc, char **argv, void (*enumerate)(bool thorough))
{
  bool thorough = false;
  for (int i = 1; i < argc; ++i)
  {
    if (!strcmp(argv[i], "--np")) np() = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[i + 1], "thorough");
  }
  enumerate(thorough);
  static vsip::vsipl *lib = 0;
  fk::Model m;
  m.init = []() { lib = new vsip::vsipl(); };
  m.fini = []() { delete lib; lib = 0; };
  m.count = []() { return (long)scns().size(); };
  m.describe = [](long i) { return i < 0 ? std::string("init/fini") : std::to_string(np()) + " ranks: " + scns()[i].desc; };
  m.body = [](long i) { scns()[i].body(); };
  m.bound = [](long i) { return scns()[i].bound; };
  return fk::main(argc, argv, m);
}
} // namespace par
#endif
