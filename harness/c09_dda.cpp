// C09: direct data access with every requested layout, policy and history, on views of one root layout.
#include <array>
#include "seq.hpp"
#include <ovxx/dda/persistent.hpp>
#include <ovxx/dda/runtime.hpp>
using namespace seq;
namespace dda = vsip::dda;
typedef ET T;
typedef Layout<D_, ORDER, PACK, FORMAT> L;
#ifdef DENSE
typedef Root<D_, T, L, Dense<D_, T, ORDER> > RR;
#else
typedef Root<D_, T, L> RR;
#endif
typedef RR::R R;

// ---- pointers of every storage format
template <typename U> U rd(U const *p, long o, U *) { return p[o]; }
template <typename U> std::complex<U> rd(U const *p, long o, std::complex<U> *) { return std::complex<U>(p[2 * o], p[2 * o + 1]); }
template <typename U> std::complex<U> rd(std::pair<U const *, U const *> p, long o, std::complex<U> *) { return std::complex<U>(p.first[o], p.second[o]); }
template <typename U> std::complex<U> rd(std::pair<U *, U *> p, long o, std::complex<U> *) { return std::complex<U>(p.first[o], p.second[o]); }
template <typename U> void wr(U *p, long o, U v) { p[o] = v; }
template <typename U> void wr(U *p, long o, std::complex<U> v) { p[2 * o] = v.real(); p[2 * o + 1] = v.imag(); }
template <typename U> void wr(std::pair<U *, U *> p, long o, std::complex<U> v) { p.first[o] = v.real(); p.second[o] = v.imag(); }
template <typename U> U rd(ovxx::pointer<U> p, long o, U *) { return p.template as<array>()[o]; }
template <typename U> void wr(ovxx::pointer<U> p, long o, U v) { p.template as<array>()[o] = v; }
template <typename U> std::complex<U> rd(ovxx::pointer<std::complex<U> > p, long o, std::complex<U> *)
{
  if (p.format() == split_complex) { auto s = p.template as<split_complex>(); return std::complex<U>(s.first[o], s.second[o]); }
  if (p.format() == interleaved_complex) { auto s = p.template as<interleaved_complex>(); return std::complex<U>(s[2 * o], s[2 * o + 1]); }
  return p.template as<array>()[o];
}
template <typename U> std::complex<U> rd(ovxx::const_pointer<std::complex<U> > p, long o, std::complex<U> *)
{
  if (p.format() == split_complex) { auto s = p.template as<split_complex>(); return std::complex<U>(s.first[o], s.second[o]); }
  if (p.format() == interleaved_complex) { auto s = p.template as<interleaved_complex>(); return std::complex<U>(s[2 * o], s[2 * o + 1]); }
  return p.template as<array>()[o];
}
template <typename U> void wr(ovxx::pointer<std::complex<U> > p, long o, std::complex<U> v)
{
  if (p.format() == split_complex) { auto s = p.template as<split_complex>(); s.first[o] = v.real(); s.second[o] = v.imag(); }
  else if (p.format() == interleaved_complex) { auto s = p.template as<interleaved_complex>(); s[2 * o] = v.real(); s[2 * o + 1] = v.imag(); }
  else p.template as<array>()[o] = v;
}
template <typename U> void const *addr(U const *p) { return p; }
template <typename U> void const *addr(std::pair<U *, U *> p) { return p.first; }
template <typename U> void const *addr(ovxx::pointer<U> p) { return p.template as<array>(); }
template <typename U> void const *addr(ovxx::pointer<std::complex<U> > p)
{ return p.format() == split_complex ? (void const *)p.template as<split_complex>().first : p.format() == interleaved_complex ? (void const *)p.template as<interleaved_complex>() : p.template as<array>(); }
template <typename U> void const *addr(ovxx::const_pointer<std::complex<U> > p)
{ return p.format() == split_complex ? (void const *)p.template as<split_complex>().first : p.format() == interleaved_complex ? (void const *)p.template as<interleaved_complex>() : p.template as<array>(); }
template <typename U> ovxx::storage_format_type format_of(ovxx::pointer<U> p) { return array; }
template <typename U> ovxx::storage_format_type format_of(ovxx::pointer<std::complex<U> > p) { return p.format(); }
template <typename U> ovxx::storage_format_type format_of(ovxx::const_pointer<std::complex<U> > p) { return p.format(); }
template <typename P> ovxx::storage_format_type format_of(P) { return array; }

// ---- a user buffer with guards
static double pool[2][16384];
struct Buffer
{
  size_t bytes; int align; char *a, *b;
  explicit Buffer(size_t n, size_t elem) : bytes(n * elem)
  {
    char *x[2];
    for (int k = 0; k < 2; ++k) { x[k] = reinterpret_cast<char *>(pool[k]) + 512; while ((size_t)x[k] % 1024) ++x[k]; memset(pool[k], 0xff, bytes + 4096); memset(x[k] - 512, 0x77, 512); memset(x[k] + bytes, 0x77, 512); }
    a = x[0]; b = x[1];
  }
  void check()
  {
    for (int k = 0; k < 2; ++k)
      for (int i = 0; i < 512; ++i)
        if ((k ? b : a)[i - 512] != 0x77 || (k ? b : a)[bytes + i] != 0x77) { mc::fail("buffer", "the memory %s the user-supplied buffer of %zu bytes changed", (k ? b : a)[i - 512] != 0x77 ? "before" : "behind", bytes); return; }
  }
};
template <typename P> struct As;
template <typename U> struct As<U *> { static size_t elem() { return sizeof(U); } static U *make(Buffer &b) { return reinterpret_cast<U *>(b.a); } };
template <typename U> struct As<U const *> : As<U *> {};
template <typename U> struct As<std::pair<U *, U *> > { static std::pair<U *, U *> make(Buffer &b) { return std::make_pair(reinterpret_cast<U *>(b.a), reinterpret_cast<U *>(b.b)); } };
template <typename U> struct As<std::pair<U const *, U const *> > : As<std::pair<U *, U *> > {};

struct Ids { std::vector<int> ids; int c; int n[3]; std::string s; };
template <typename U> struct Acc
{
  static bool const whole = std::is_same<U, T>::value;
  static U get(RR &r, Ids const &d, long k) { return get(r, d, k, std::integral_constant<bool, whole>()); }
  static void set(RR &r, Ids const &d, long k, U v) { set(r, d, k, v, std::integral_constant<bool, whole>()); }
  static U get(RR &r, Ids const &d, long k, std::true_type) { return r.expect(d.ids[k]); }
  static U get(RR &r, Ids const &d, long k, std::false_type) { return r.expc(d.ids[k], d.c); }
  static void set(RR &r, Ids const &d, long k, U v, std::true_type) { r.set(d.ids[k], v); }
  static void set(RR &r, Ids const &d, long k, U v, std::false_type) { r.setc(d.ids[k], d.c, v); }
};

static bool in_root(RR &r, void const *p)
{
  char const *q = static_cast<char const *>(p);
  return (q >= (char const *)&r.mem[0] && q < (char const *)(&r.mem[0] + r.mem.size())) ||
         (r.mem2.size() && q >= (char const *)&r.mem2[0] && q < (char const *)(&r.mem2[0] + r.mem2.size()));
}

struct Want { int order[3]; bool anyorder; pack_type pack; int align; bool user, quiet; };
template <typename O> struct OrderOf { static void get(Want &w) { w.anyorder = false; for (int k = 0; k < 3; ++k) w.order[k] = ord<O>::at(k); } };
template <> struct OrderOf<ovxx::any_type> { static void get(Want &w) { w.anyorder = true; } };
static char const *packname(pack_type p)
{ static char b[32]; if (p == dense) return "dense"; if (p == unit_stride) return "unit_stride"; if (p == any_packing) return "any_packing"; sprintf(b, "aligned_%d", ovxx::is_aligned(p) ? (int)p : 0); return b; }

// does the layout have the requested form?
static bool form(Want const &w, int D, long const *st, int const *n, void const *p, size_t elem)
{
  if (w.anyorder || w.pack == any_packing)
  {
    if (w.pack == dense || ovxx::is_aligned(w.pack) || w.pack == unit_stride)
    {
      bool unit = false; long tot = 1; for (int d = 0; d < D; ++d) { tot *= n[d]; unit |= st[d] == 1; }
      if (tot > 1 && !unit) { mc::fail("layout", "no dimension has stride 1"); return false; }
    }
    return true;
  }
  int const *o = w.order;
  int minor = o[D - 1];
  if (n[minor] > 1 && st[minor] != 1) { mc::fail("layout", "stride %ld in the minor dimension %d", st[minor], minor); return false; }
  if (w.pack == dense)
  {
    long s = 1;
    for (int k = D; k-- > 0;) { if (n[o[k]] > 1 && st[o[k]] != s) { mc::fail("layout", "stride %ld in dimension %d, expected %ld", st[o[k]], o[k], s); return false; } s *= n[o[k]]; }
  }
  if (ovxx::is_aligned(w.pack) && w.align)
  {
    if ((size_t)p % w.align && w.align > OVXX_ALLOC_ALIGNMENT && !w.user) { if (!w.quiet) mc::fail("overalign", "memory of the library is not aligned to %d bytes", w.align); }
    else if ((size_t)p % w.align) { mc::fail("layout", "the data is not aligned to %d bytes", w.align); return false; }
    for (int k = 0; k + 1 < D; ++k)
      if (n[o[k]] > 1 && (st[o[k]] * elem) % w.align) { mc::fail("layout", "stride %ld of dimension %d is not aligned to %d bytes", st[o[k]], o[k], w.align); return false; }
  }
  // the dimensions nest in the requested order
  for (int k = 0; k + 1 < D; ++k)
    if (n[o[k]] > 1 && n[o[k + 1]] > 1 && std::labs(st[o[k]]) < std::labs(st[o[k + 1]]) && w.pack != any_packing) { mc::fail("layout", "dimension %d has a smaller stride than dimension %d", o[k], o[k + 1]); return false; }
  return true;
}

// ---- one access object
template <int D, typename DT, typename U> struct Look
{
  long st[3]; int n[3]; long tot; bool ok;
  Look(DT &d, Ids const &s) : tot(1), ok(true)
  {
    for (int k = 0; k < 3; ++k) { st[k] = 0; n[k] = 1; }
    for (int k = 0; k < D; ++k)
    {
      st[k] = d.stride(k); n[k] = s.n[k]; tot *= n[k];
      if ((int)d.size(k) != n[k]) { mc::fail("size", "size %d in dimension %d, expected %d", (int)d.size(k), k, n[k]); ok = false; }
    }
  }
  template <typename F> void each(F f) { for (Iter i(D, n); i.more(); i.next()) { long o = 0; for (int k = 0; k < D; ++k) o += st[k] * i.i[k]; f(i, o); } }
};

template <typename DT, typename P, typename U, int D> bool same(RR &r, Ids const &s, Look<D, DT, U> &l, P p, char const *when)
{
  bool ok = true;
  l.each([&](Iter &i, long o) { U g = rd(p, o, (U *)0), w = Acc<U>::get(r, s, i.lin); if (ok && !(g == w)) { ok = false; mc::fail("read", "%s: element %d,%d,%d is %s, expected %s", when, i.i[0], i.i[1], i.i[2], mc::str(g).c_str(), mc::str(w).c_str()); } });
  return ok;
}

// writing access objects give a pointer to non-const data
template <bool Out> struct Write
{
  template <typename U, int D, typename DT> static void all(RR &r, Ids const &s, Look<D, DT, U> &l, DT &d, long salt, bool count)
  { l.each([&](Iter &i, long o) { U v = val<U>::of(salt + 3 * i.lin); wr(d.ptr(), o, v); if (count) Acc<U>::set(r, s, i.lin, v); }); }
  template <typename U, int D, typename DT> static void one(RR &r, Ids const &s, Look<D, DT, U> &l, DT &d, long which, long salt)
  { l.each([&](Iter &i, long o) { if (i.lin == which) { U v = val<U>::of(salt); wr(d.ptr(), o, v); Acc<U>::set(r, s, i.lin, v); } }); }
};
template <> struct Write<false>
{
  template <typename U, int D, typename DT> static void all(RR &, Ids const &, Look<D, DT, U> &, DT &, long, bool) {}
  template <typename U, int D, typename DT> static void one(RR &, Ids const &, Look<D, DT, U> &, DT &, long, long) {}
};

template <typename V, typename LR, unsigned S> struct Access
{
  typedef typename V::block_type B; typedef typename V::value_type U;
  static int const D = LR::dim;
  typedef dda::Data<B, S, LR> DT;
  static Want want() { Want w; OrderOf<typename LR::order_type>::get(w); w.pack = LR::packing; w.align = ovxx::is_aligned(LR::packing) ? LR::packing : 0; return w; }
  static bool const out = (S & dda::out) != 0, in = (S & dda::in) != 0;
  static void run(RR &r, V v, Ids const &s, std::string const &lname)
  {
    static char const *pol[] = {"", "in", "out", "inout", "copy", "in|copy", "out|copy", "inout|copy"};
    for (int buf = 0; buf < 2; ++buf)
      for (int hist = 0; hist < 4; ++hist)
      {
        if (hist == 2 && !in) continue;
        if (!mc::next()) continue;
        mc::desc("%s %s, %s, access %s as %s%s, history %d", RR::name().c_str(), show(D_, r.n).c_str(), s.s.c_str(), pol[S], lname.c_str(), buf ? " with a user buffer" : "", hist);
        one(r, v, s, buf, hist);
        mc::step(4);
        mc::outcome(r.hash());
        if (s.ids.size() > 1) mc::nontrivial();
      }
  }
  static void one(RR &r, V v, Ids const &s, int buf, int hist)
  {
    r.reset(hist);
    length_type need = dda::required_buffer_size<LR>(v.block(), (S & dda::copy) != 0);
    typedef typename DT::ptr_type P;
    Buffer ub(std::max<length_type>(need, 1), bytes((P *)0));
    bool direct;
    {
      typename Make<P>::type b0 = Make<P>::make(ub, buf);
      std::unique_ptr<DT> dp(new DT(v.block(), b0));
      DT &d = *dp;
      Look<D, DT, U> l(d, s);
      if (!l.ok) return;
      void const *a = addr(cptr(d));
      direct = in_root(r, a);
      mc::state(mc::mix(mc::mix(mc::hash(l.st, sizeof l.st), direct), d.cost() * 16 + S));
      if (d.cost() == 0 && !direct) { mc::fail("cost", "the cost is 0, but the data is not that of the block"); return; }
      if (direct && (S & dda::copy)) { mc::fail("copy", "a copy was asked for, but the pointer is that of the block"); return; }
      if (direct && need) { mc::fail("buffer", "a buffer of %d elements is required for direct access", (int)need); return; }
      if (!direct && buf && need && a != ub.a) { mc::fail("buffer", "the user-supplied buffer is not used"); return; }
      if (!direct && buf && !need) { mc::fail("buffer", "no buffer is required, but the data is copied"); return; }
      Want w = want(); w.user = direct || buf; w.quiet = hist != 0 || s.s != "whole";
      if (!form(w, D, l.st, l.n, a, sizeof(U) / (split_ptr((P *)0) ? 2 : 1))) return;
      if (in && !same<DT>(r, s, l, cptr(d), "at the start")) return;
      if (hist == 0 || hist == 3) { Write<out>::all(r, s, l, d, 400, out); if (hist == 3) Write<out>::all(r, s, l, d, 600, out); }
      else if (hist == 1) { d.sync_in(); if (in && !same<DT>(r, s, l, cptr(d), "after sync_in")) return; if (in && out) d.sync_out(); if (!in) Write<out>::all(r, s, l, d, 500, out); }
      else if (hist == 2)
      {
        if (out) { Write<out>::one(r, s, l, d, l.tot - 1, 450); d.sync_out(); if (!r.check("sync", "after sync_out")) return; }
        put(v, s, l.tot / 2, val<U>::of(460), std::integral_constant<bool, ovxx::is_modifiable_block<B>::value>(), r);
        d.sync_in();
        if (!same<DT>(r, s, l, cptr(d), "after changing the view and sync_in")) return;
        Write<out>::one(r, s, l, d, 0, 470);
        if (out) { d.sync_out(); if (!r.check("sync", "after the second sync_out")) return; }
        Write<out>::one(r, s, l, d, l.tot - 1, 480);
      }
    }
    if (buf) ub.check();
    r.check("sync", "at the end");
  }
  static typename DT::const_ptr_type cptr(DT const &d) { return d.ptr(); }
  template <typename X> static bool split_ptr(X **) { return false; }
  template <typename X> static bool split_ptr(std::pair<X *, X *> *) { return true; }
  template <typename X> static size_t bytes(X **) { return std::is_same<typename std::remove_const<X>::type, U>::value ? sizeof(U) : 2 * sizeof(X); }
  template <typename X> static size_t bytes(std::pair<X *, X *> *) { return sizeof(X); }
  static void put(V v, Ids const &s, long k, U x, std::true_type, RR &r)
  {
    int i[3] = {0, 0, 0}; long q = k; for (int d = V::dim; d-- > 0;) { int n = v.size(d); i[d] = q % n; q /= n; }
    // linear index of a 1-D access to a dense block is the storage position
    if (D != V::dim) return;
    at<V::dim>::put(v, i, x); Acc<U>::set(r, s, k, x);
  }
  static void put(V, Ids const &, long, U, std::false_type, RR &) {}
  template <typename P> struct Make;
  template <typename X> struct Make<X *> { typedef typename std::remove_const<X>::type *type; static type make(Buffer &b, int u) { return u ? reinterpret_cast<type>(b.a) : type(); } };
  template <typename X> struct Make<std::pair<X *, X *> > { typedef typename std::remove_const<X>::type Y; typedef std::pair<Y *, Y *> type; static type make(Buffer &b, int u) { return u ? type(reinterpret_cast<Y *>(b.a), reinterpret_cast<Y *>(b.b)) : type(); } };
};

// ---- run-time layouts and persistent access
template <typename U> struct RtBuf { typedef U *type; static type make(Buffer &b, storage_format_type, int u) { return u ? reinterpret_cast<U *>(b.a) : 0; } };
template <typename U> struct RtBuf<std::complex<U> >
{
  typedef ovxx::pointer<std::complex<U> > type;
  static type make(Buffer &b, storage_format_type f, int u)
  {
    if (!u) return type();
    if (f == split_complex) return type(std::make_pair(reinterpret_cast<U *>(b.a), reinterpret_cast<U *>(b.b)));
    if (f == interleaved_complex) return type(reinterpret_cast<U *>(b.a));
    return type(reinterpret_cast<std::complex<U> *>(b.a));
  }
};
template <unsigned S, typename V> void rt_one(RR &r, V v, Ids const &s, ovxx::Rt_layout<V::dim> const &rtl, Buffer &ub, int buf, length_type size, int const *perm, pack_type p, int al)
{
  typedef typename V::block_type B; typedef typename V::value_type U;
  static int const D = V::dim;
  typedef dda::Data<B, S, ovxx::Rt_layout<D> > DT;
  DT d(v.block(), rtl, RtBuf<U>::make(ub, rtl.storage_format, buf), buf ? size : 0);
  Look<D, DT, U> l(d, s);
  if (!l.ok) return;
  DT const &cd = d;
  bool direct = in_root(r, addr(cd.ptr()));
  mc::state(mc::mix(mc::hash(l.st, sizeof l.st), direct + 32 * S));
  if (cplx<U>::value)
  {
    storage_format_type g = format_of(cd.ptr());
    if ((g == split_complex) != (rtl.storage_format == split_complex)) { mc::fail("format", "the pointer has storage format %d", (int)g); return; }
  }
  if ((d.cost() == 0) != direct) { mc::fail("cost", "cost %d, but the data is%s that of the block", d.cost(), direct ? "" : " not"); return; }
  if (!direct && buf && addr(cd.ptr()) != ub.a) { mc::fail("buffer", "the user-supplied buffer is not used"); return; }
  Want w; w.anyorder = false; for (int k = 0; k < 3; ++k) w.order[k] = perm[k]; w.pack = p; w.align = al; w.user = direct || buf; w.quiet = S != 1 || s.s != "whole";
  if (!form(w, D, l.st, l.n, addr(cd.ptr()), sizeof(U) / (rtl.storage_format == split_complex && direct ? 2 : 1))) return;
  if ((S & dda::in) && !same<DT>(r, s, l, cd.ptr(), "at the start")) return;
  Write<(S & dda::out) != 0>::all(r, s, l, d, 800, true);
  if ((S & dda::out) && s.ids.size() > 2)
  { d.sync_out(); if (!r.check("sync", "after sync_out")) return; Write<(S & dda::out) != 0>::one(r, s, l, d, 1, 900); }
}
template <typename V, unsigned S> void runtime(RR &r, V v, Ids const &s)
{
  typedef typename V::block_type B; typedef typename V::value_type U;
  static int const D = V::dim;
  static int const perm[3][6][3] = {{{0, 1, 2}}, {{0, 1, 2}, {1, 0, 2}}, {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}};
  int np = D == 1 ? 1 : D == 2 ? 2 : 6;
  pack_type packs[] = {any_packing, dense, unit_stride, aligned_16, aligned_32, aligned_512};
  storage_format_type fs[] = {array, interleaved_complex, split_complex};
  for (int o = 0; o < np; ++o)
    for (pack_type p : packs)
      for (storage_format_type f : fs)
        for (int buf = 0; buf < 2; ++buf)
        {
          if (f != array && !cplx<U>::value) continue;
          if (!mc::next()) continue;
          mc::desc("%s %s, %s, run-time access %s, order %d%d%d %s format %d%s", RR::name().c_str(), show(D_, r.n).c_str(), s.s.c_str(), S == 1 ? "in" : S == 2 ? "out" : "inout", perm[D - 1][o][0], perm[D - 1][o][1], perm[D - 1][o][2], packname(p), (int)f, buf ? " with a user buffer" : "");
          if (s.ids.size() > 1) mc::nontrivial();
          r.reset(7);
          int al = ovxx::is_aligned(p) ? (int)p : 0;
          ovxx::Rt_layout<D> rtl(p, ovxx::Rt_tuple(perm[D - 1][o][0], perm[D - 1][o][1], perm[D - 1][o][2]), f, al);
          ovxx::Applied_layout<ovxx::Rt_layout<D> > al_(rtl, ovxx::extent<D>(v.block()), sizeof(U));
          Buffer ub(al_.total_size(), sizeof(U) / (f == split_complex ? 2 : 1));
          rt_one<S>(r, v, s, rtl, ub, buf, al_.total_size(), perm[D - 1][o], p, al);
          if (buf) ub.check();
          r.check("sync", "at the end");
          mc::step(2); mc::outcome(r.hash());
        }
}
template <typename V, typename LR> void persistent(RR &r, V v, Ids const &s, std::string const &lname)
{
  typedef typename V::block_type B; typedef typename V::value_type U;
  static int const D = V::dim;
  typedef ovxx::dda::Persistent_data<B, LR> DT;
  for (unsigned S = 1; S < 4; ++S)
  {
    if (!mc::next()) continue;
    mc::desc("%s %s, %s, persistent access %s as %s", RR::name().c_str(), show(D_, r.n).c_str(), s.s.c_str(), S == 1 ? "in" : S == 2 ? "out" : "inout", lname.c_str());
    r.reset(9);
    if (s.ids.size() > 1) mc::nontrivial();
    {
      DT d(v.block(), S);
      Look<D, DT, U> l(d, s);
      if (!l.ok) return;
      for (int round = 0; round < 3; ++round)
      {
        if (S & dda::in)
        {
          int i[3] = {0, 0, 0}; for (int k = 0; k < D; ++k) i[k] = l.n[k] - 1;
          U x = val<U>::of(840 + round); at<V::dim>::put(v, i, x); Acc<U>::set(r, s, l.tot - 1, x);
          d.sync_in();
          if (!same<DT>(r, s, l, d.ptr(), "after sync_in")) return;
        }
        if (S & dda::out)
        {
          Write<true>::all(r, s, l, d, 860 + round, true);
          d.sync_out();
          if (!r.check("sync", "after sync_out of persistent access")) return;
        }
      }
    }
    r.check("sync", "after persistent access");
    mc::step(4);
  }
}

// ---- requested layouts
template <typename V, typename LR> void policies(RR &r, V v, Ids const &s, std::string const &n, std::true_type)
{
  Access<V, LR, dda::in>::run(r, v, s, n);
  Access<V, LR, dda::inout>::run(r, v, s, n);
  Access<V, LR, dda::out>::run(r, v, s, n);
  Access<V, LR, dda::inout | dda::copy>::run(r, v, s, n);
  Access<V, LR, dda::in | dda::copy>::run(r, v, s, n);
#ifdef PERSISTENT
  persistent<V, LR>(r, v, s, n);
#endif
}
template <typename V, typename LR> void policies(RR &r, V v, Ids const &s, std::string const &n, std::false_type)
{ Access<V, LR, dda::in>::run(r, v, s, n); Access<V, LR, dda::in | dda::copy>::run(r, v, s, n); }

template <typename V, typename O, pack_type P, storage_format_type F> void req(RR &r, V v, Ids const &s, char const *on)
{
  typedef Layout<V::dim, O, P, F> LR;
  policies<V, LR>(r, v, s, std::string(on) + " " + packname(P) + (cplx<typename V::value_type>::value ? F == array ? " array" : F == split_complex ? " split" : F == interleaved_complex ? " interleaved" : " any format" : ""),
                  std::integral_constant<bool, ovxx::is_modifiable_block<typename V::block_type>::value>());
}
template <typename V, typename O, pack_type P> void formats(RR &r, V v, Ids const &s, char const *on, std::false_type) { req<V, O, P, array>(r, v, s, on); }
template <typename V, typename O, pack_type P> void formats(RR &r, V v, Ids const &s, char const *on, std::true_type)
{ req<V, O, P, array>(r, v, s, on); req<V, O, P, split_complex>(r, v, s, on);
#ifdef INTER
  req<V, O, P, interleaved_complex>(r, v, s, on);
#endif
}
template <typename V, typename O> void packs(RR &r, V v, Ids const &s, char const *on)
{
  typedef std::integral_constant<bool, cplx<typename V::value_type>::value> C;
  formats<V, O, dense>(r, v, s, on, C());
  formats<V, O, unit_stride>(r, v, s, on, C());
  formats<V, O, any_packing>(r, v, s, on, C());
  formats<V, O, aligned_16>(r, v, s, on, C());
#ifdef ALIGNED
  formats<V, O, aligned_32>(r, v, s, on, C());
  formats<V, O, aligned_64>(r, v, s, on, C());
  formats<V, O, aligned_512>(r, v, s, on, C());
#endif
}
template <int D> struct Orders;
template <> struct Orders<1> { template <typename V> static void all(RR &r, V v, Ids const &s) { packs<V, row1_type>(r, v, s, "1-D"); } };
template <> struct Orders<2> { template <typename V> static void all(RR &r, V v, Ids const &s) { packs<V, row2_type>(r, v, s, "row-major"); packs<V, col2_type>(r, v, s, "column-major"); packs<V, ovxx::any_type>(r, v, s, "any order"); } };
template <> struct Orders<3>
{
  template <typename V> static void all(RR &r, V v, Ids const &s)
  {
#ifdef REQ0
    packs<V, REQ0>(r, v, s, "order " "REQ0"); packs<V, REQ1>(r, v, s, "order " "REQ1");
#endif
  }
};

template <typename V, typename M> void go(RR &r, V v, char const *name, M m, int c = -1)
{
  Ids s; s.c = c; s.s = name;
  for (int k = 0; k < 3; ++k) s.n[k] = k < (int)V::dim ? v.size(k) : 1;
  for (Iter i(V::dim, s.n); i.more(); i.next())
  { int o[3] = {0, 0, 0}; m(i.i, o); long l = 0; for (int k = 0; k < D_; ++k) l = l * r.n[k] + o[k]; s.ids.push_back(l); }
  Orders<V::dim>::all(r, v, s);
#ifdef RUNTIME
  runtime<V, dda::in>(r, v, s); runtime<V, dda::out>(r, v, s); runtime<V, dda::inout>(r, v, s);
#endif
}
template <typename V, typename M> void expr(RR &r, V v, char const *name, M m)
{
  // a read-only view: the elements of an expression equal those of the view
  Ids s; s.c = -1; s.s = name;
  for (int k = 0; k < 3; ++k) s.n[k] = k < (int)V::dim ? v.size(k) : 1;
  for (Iter i(V::dim, s.n); i.more(); i.next())
  { int o[3] = {0, 0, 0}; m(i.i, o); long l = 0; for (int k = 0; k < D_; ++k) l = l * r.n[k] + o[k]; s.ids.push_back(l); }
  Orders<V::dim>::all(r, v, s);
}

#if D_ == 3
// sub-tensors: every combination of a reversed, a strided and (kinds > 2) a leading domain
static void subtensors(RR &r, int const *n, int kinds)
{
  for (int x = 0; x < kinds * kinds * kinds; ++x)
  {
    auto pick = [&](int d) { int k = (d == 0 ? x : d == 1 ? x / kinds : x / kinds / kinds) % kinds; return k == 1 ? (n[d] > 1 ? Domain<1>(n[d] - 1, -1, n[d]) : Domain<1>(n[d])) : k == 2 ? Domain<1>((n[d] + 1) / 2) : n[d] > 2 ? Domain<1>(0, 2, (n[d] + 1) / 2) : Domain<1>(n[d] - 1, 1, 1); };
    Domain<1> d0 = pick(0), d1 = pick(1), d2 = pick(2);
    go(r, r.view()(Domain<3>(d0, d1, d2)), (show(d0) + "," + show(d1) + "," + show(d2)).c_str(), [&](int const *i, int *o) { o[0] = d0.first() + d0.stride() * i[0]; o[1] = d1.first() + d1.stride() * i[1]; o[2] = d2.first() + d2.stride() * i[2]; });
  }
}
#endif

static void enumerate()
{
  init();
#if D_ == 3
  // shapes whose strides are aligned to 16, 32 bytes in some dimensions only
  int sz[] = {2, 3, 4, 8};
  for (int x = 0; x < 64; ++x)
  {
    int n[3] = {sz[x / 16], sz[x / 4 % 4], sz[x % 4]};
    if (n[0] * n[1] * n[2] > mc::tier(24, 128)) continue;
    RR r(n);
    subtensors(r, n, 3);
  }
#endif
  int lim = D_ == 1 ? mc::tier(6, 9) : D_ == 2 ? mc::tier(3, 5) : mc::tier(2, 3);
  int m[3] = {lim, D_ > 1 ? lim + 1 : 1, D_ > 2 ? 3 : 1};
  std::vector<std::array<int, 3> > sh;
  for (Iter it(3, m); it.more(); it.next()) sh.push_back({it.i[0] + 1, it.i[1] + 1, it.i[2] + 1});
#if D_ == 1
  for (int x : {16, 17, 33, 100}) sh.push_back({x, 1, 1});
#elif D_ == 2
  sh.push_back({8, 9, 1}); sh.push_back({5, 16, 1}); sh.push_back({17, 3, 1});
#else
  sh.push_back({3, 5, 7});
#endif
  for (auto const &q : sh)
  {
    int n[3] = {q[0], q[1], q[2]};
    bool const big = n[0] * n[1] * n[2] > 30; (void)big;
    RR r(n);
    auto id = [](int const *i, int *o) { for (int k = 0; k < 3; ++k) o[k] = i[k]; };
#if D_ == 1
    go(r, r.view(), "whole", id);
    for (auto d : domains(n[0], big ? 0 : mc::tier(2, 3)))
      go(r, r.view()(d), show(d).c_str(), [&](int const *i, int *o) { o[0] = d.first() + d.stride() * i[0]; });
    expr(r, r.view() + T(0), "expression", id);
#ifdef PARTS
    go(r, r.view().real(), "real", id, 0);
    go(r, r.view().imag(), "imag", id, 1);
    Domain<1> e(n[0] - 1, -1, n[0]);
    go(r, r.view()(e).imag(), "reversed imag", [&](int const *i, int *o) { o[0] = n[0] - 1 - i[0]; }, 1);
#endif
#elif D_ == 2
    go(r, r.view(), "whole", id);
    go(r, r.view().transpose(), "transpose", [&](int const *i, int *o) { o[0] = i[1]; o[1] = i[0]; });
    for (auto d0 : domains(n[0], big ? 0 : mc::tier(1, 2)))
      for (auto d1 : domains(n[1], big ? 0 : mc::tier(1, 2)))
        go(r, r.view()(Domain<2>(d0, d1)), (show(d0) + "," + show(d1)).c_str(), [&](int const *i, int *o) { o[0] = d0.first() + d0.stride() * i[0]; o[1] = d1.first() + d1.stride() * i[1]; });
    go(r, r.view().row(n[0] - 1), "row", [&](int const *i, int *o) { o[0] = n[0] - 1; o[1] = i[0]; });
    go(r, r.view().col(n[1] - 1), "column", [&](int const *i, int *o) { o[1] = n[1] - 1; o[0] = i[0]; });
    go(r, r.view().diag(0), "diagonal", [&](int const *i, int *o) { o[1] = o[0] = i[0]; });
#ifdef PARTS
    go(r, r.view().real(), "real", id, 0);
    go(r, r.view().imag(), "imag", id, 1);
#endif
    expr(r, r.view() + T(0), "expression", id);
#else
    go(r, r.view(), "whole", id);
    go(r, r.view().template transpose<PERM>(), "permuted", [&](int const *i, int *o) { static int const p[3] = {PERM}; for (int k = 0; k < 3; ++k) o[p[k]] = i[k]; });
    if (!big) subtensors(r, n, 2);
#endif
  }
}
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
