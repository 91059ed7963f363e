// Shared pieces of the sequential harnesses: blocks over guarded user memory with an
// independently computed layout, values, and a reference memory.
#ifndef SEQ_HPP
#define SEQ_HPP
#include <vsip/initfin.hpp>
#include <vsip/support.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/dda.hpp>
#include <vsip/math.hpp>
#include <ovxx/strided.hpp>
#include <ovxx/allocator.hpp>
#include <mc.hpp>
#include <string>
#include <functional>
#include <memory>
#include <vector>

namespace seq
{
using namespace vsip;
using ovxx::Strided;

template <typename T> struct cplx { static bool const value = false; typedef T real; };
template <typename T> struct cplx<std::complex<T> > { static bool const value = true; typedef T real; };

// distinct small exact values
template <typename T> struct val { static T of(long n) { return T(n); } };
template <> struct val<bool> { static bool of(long n) { return (n * 7 % 5) < 2; } };
template <typename T> struct val<std::complex<T> > { static std::complex<T> of(long n) { return std::complex<T>(T(n), T(-n) - T(0.5)); } };

// a scalar component (0 real, 1 imaginary)
template <typename T> T comp(T v, int) { return v; }
template <typename T> T comp(std::complex<T> v, int c) { return c ? v.imag() : v.real(); }

template <dimension_type D> inline Domain<D> dom(int const *n);
template <> inline Domain<1> dom<1>(int const *n) { return Domain<1>(n[0]); }
template <> inline Domain<2> dom<2>(int const *n) { return Domain<2>(n[0], n[1]); }
template <> inline Domain<3> dom<3>(int const *n) { return Domain<3>(n[0], n[1], n[2]); }

template <dimension_type D> struct V;
template <> struct V<1> { template <typename T, typename B> struct of { typedef Vector<T, B> type; }; };
template <> struct V<2> { template <typename T, typename B> struct of { typedef Matrix<T, B> type; }; };
template <> struct V<3> { template <typename T, typename B> struct of { typedef Tensor<T, B> type; }; };

template <dimension_type D> struct at;
template <> struct at<1>
{
  template <typename W> static typename W::value_type get(W const &v, int const *i) { return v.get(i[0]); }
  template <typename W, typename T> static void put(W v, int const *i, T x) { v.put(i[0], x); }
  template <typename W, typename T> static void ref(W v, int const *i, T x) { v(i[0]) = x; }
  template <typename W> static typename W::value_type rd(W v, int const *i) { return v(i[0]); }
};
template <> struct at<2>
{
  template <typename W> static typename W::value_type get(W const &v, int const *i) { return v.get(i[0], i[1]); }
  template <typename W, typename T> static void put(W v, int const *i, T x) { v.put(i[0], i[1], x); }
  template <typename W, typename T> static void ref(W v, int const *i, T x) { v(i[0], i[1]) = x; }
  template <typename W> static typename W::value_type rd(W v, int const *i) { return v(i[0], i[1]); }
};
template <> struct at<3>
{
  template <typename W> static typename W::value_type get(W const &v, int const *i) { return v.get(i[0], i[1], i[2]); }
  template <typename W, typename T> static void put(W v, int const *i, T x) { v.put(i[0], i[1], i[2], x); }
  template <typename W, typename T> static void ref(W v, int const *i, T x) { v(i[0], i[1], i[2]) = x; }
  template <typename W> static typename W::value_type rd(W v, int const *i) { return v(i[0], i[1], i[2]); }
};

// row-major enumeration of an index space
struct Iter
{
  int D; int n[3]; int i[3]; long lin, total;
  Iter(int d, int const *s) : D(d), lin(0), total(1) { for (int k = 0; k < 3; ++k) { n[k] = k < d ? s[k] : 1; i[k] = 0; total *= n[k]; } }
  bool more() const { return lin < total; }
  void next() { ++lin; for (int k = D; k-- > 0;) { if (++i[k] < n[k]) return; i[k] = 0; } }
};

template <typename O> struct ord;
template <dimension_type a, dimension_type b, dimension_type c> struct ord<tuple<a, b, c> >
{ static int at(int k) { static int const o[3] = {a, b, c}; return o[k]; } static std::string str(int D) { std::string s; for (int k = 0; k < D; ++k) s += char('0' + at(k)); return s; } };

template <pack_type P> struct packing { static int const align = 0; };
template <> struct packing<aligned_8> { static int const align = 8; };
template <> struct packing<aligned_16> { static int const align = 16; };
template <> struct packing<aligned_32> { static int const align = 32; };
template <> struct packing<aligned_64> { static int const align = 64; };

// strides of a layout, computed independently of the library
template <typename L, typename T> void ref_strides(int const *n, long *st, long &total)
{
  int const D = L::dim;
  long s = 1;
  for (int k = D; k-- > 0;)
  {
    int d = ord<typename L::order_type>::at(k);
    st[d] = s;
    s *= n[d];
    if (k == D - 1 && packing<L::packing>::align && D > 1)
      while (s % packing<L::packing>::align) ++s;  // the library rounds to elements
  }
  total = 1;
  for (int d = 0; d < D; ++d) total += st[d] * (n[d] - 1);
}

template <storage_format_type F> struct fmt { static char const *name() { return "array"; } };
template <> struct fmt<split_complex> { static char const *name() { return "split"; } };
template <> struct fmt<interleaved_complex> { static char const *name() { return "interleaved"; } };
template <pack_type P> inline std::string pack_name()
{ return P == dense ? "dense" : P == unit_stride ? "unit" : packing<P>::align ? "aligned" + std::to_string(packing<P>::align) : "any"; }

// an array (std::vector<bool> is none)
template <typename R> struct Mem
{
  std::unique_ptr<R[]> p; size_t n;
  Mem() : n(0) {}
  void assign(size_t k, R v) { if (k != n) { p.reset(new R[k]); n = k; } std::fill(p.get(), p.get() + n, v); }
  R &operator[](size_t i) { return p[i]; }
  size_t size() const { return n; }
};

// A block over user memory with guard areas.  The memory is kept as scalars:
// component c of storage position p.
template <dimension_type DM, typename T, typename L, typename BT = Strided<DM, T, L> > struct Root
{
  static dimension_type const D = DM;
  typedef T value_type;
  typedef typename cplx<T>::real R;
  typedef BT block_type;
  typedef typename V<D>::template of<T, block_type>::type view_type;
  static int const GUARD = 16;
  static bool const split = L::storage_format == split_complex && cplx<T>::value;
  int n[3]; long st[3], total, count;
  Mem<R> mem, mem2;   // mem2: imaginary parts of split storage
  Mem<R> want;        // expected scalars: 2 per storage position (or 1), with guards
  std::unique_ptr<block_type, void (*)(block_type *)> blk;
  int off;
  explicit Root(int const *s, bool release = false) : blk(0, [](block_type *b) { b->decrement_count(); }), off(0)
  {
    count = 1;
    for (int k = 0; k < 3; ++k) { n[k] = k < (int)D ? s[k] : 1; st[k] = 0; count *= n[k]; }
    ref_strides<L, T>(n, st, total);
    int C = cplx<T>::value && !split ? 2 : 1;
    mem.assign((total + 2 * GUARD) * C + 80, R());
    if (split) mem2.assign(total + 2 * GUARD + 80, R());
    // aligned start
    off = 0; while ((size_t)(&mem[0] + (GUARD * C + off)) % 64) ++off;
    off2 = 0; if (split) while ((size_t)(&mem2[0] + (GUARD + off2)) % 64) ++off2;
    make(std::integral_constant<int, split ? 2 : cplx<T>::value && L::storage_format == interleaved_complex ? 1 : 0>());
    blk->admit(true);
    reset();
  }
  int off2;
  int C() const { return cplx<T>::value ? 2 : 1; }
  R &raw(long pos, int c) { return split ? (c ? mem2[GUARD + off2 + pos] : mem[GUARD + off + pos]) : mem[(GUARD + pos) * C() + off + c]; }
  R &exp_raw(long pos, int c) { return want[(GUARD + pos) * C() + c]; }
  void make(std::integral_constant<int, 0>) { blk.reset(new block_type(dom<D>(n), reinterpret_cast<T *>(&raw(0, 0)))); }
  void make(std::integral_constant<int, 1>) { blk.reset(new block_type(dom<D>(n), reinterpret_cast<R *>(&raw(0, 0)))); }
  void make(std::integral_constant<int, 2>) { blk.reset(new block_type(dom<D>(n), std::make_pair(&raw(0, 0), &raw(0, 1)))); }
  view_type view() { return view_type(*blk); }
  long pos(int const *i) const { long p = 0; for (unsigned d = 0; d < D; ++d) p += st[d] * i[d]; return p; }
  long pos(long lin) const { int i[3] = {0, 0, 0}; for (int k = D; k-- > 0;) { i[k] = lin % n[k]; lin /= n[k]; } return pos(i); }
  // known contents everywhere, guards and padding included
  void reset(long salt = 0)
  {
    want.assign((total + 2 * GUARD) * C(), R());
    for (long p = -GUARD; p < total + GUARD; ++p)
      for (int c = 0; c < C(); ++c) { R v = comp(val<T>::of(p + 31 + salt), c); if (std::is_same<T, bool>::value) v = (p + 31) % 3 == 0; exp_raw(p, c) = v; raw(p, c) = v; }
  }
  T expect(long lin) { long p = pos(lin); return mk(exp_raw(p, 0), C() > 1 ? exp_raw(p, 1) : R()); }
  static T mk(R a, R b) { return mk_(a, b, std::integral_constant<bool, cplx<T>::value>()); }
  static T mk_(R a, R b, std::true_type) { return T(a, b); }
  static T mk_(R a, R, std::false_type) { return a; }
  void set(long lin, T v) { long p = pos(lin); for (int c = 0; c < C(); ++c) exp_raw(p, c) = comp(v, c); }
  void setc(long lin, int c, R v) { exp_raw(pos(lin), c) = v; }
  R expc(long lin, int c) { return exp_raw(pos(lin), c); }
  // compare all memory with the expectation
  bool check(char const *key, char const *what)
  {
    for (long p = -GUARD; p < total + GUARD; ++p)
      for (int c = 0; c < C(); ++c)
      {
        R g = raw(p, c), w = exp_raw(p, c);
        if (!(g == w))
        {
          mc::fail(key, "%s: storage position %ld component %d holds %s, expected %s%s", what, p, c, mc::str(g).c_str(),
                   mc::str(w).c_str(), p < 0 || p >= total ? " (outside the block)" : "");
          return false;
        }
      }
    return true;
  }
  uint64_t hash() { uint64_t h = mc::hash(&mem[0], mem.size() * sizeof(R)); if (split) h = mc::hash(&mem2[0], mem2.size() * sizeof(R), h); return h; }
  static std::string name()
  { return std::to_string(D) + "-D " + (cplx<T>::value ? "complex " : "") + (sizeof(R) == 8 ? "double" : std::is_same<R, int>::value ? "int" : std::is_same<R, bool>::value ? "bool" : "float") +
      " order " + ord<typename L::order_type>::str(D) + " " + pack_name<L::packing>() + (cplx<T>::value ? std::string(" ") + fmt<L::storage_format>::name() : ""); }
};
inline std::string show(int D, int const *n) { std::string s; for (int d = 0; d < D; ++d) s += (d ? "x" : "") + std::to_string(n[d]); return s; }

// all / selected domains of a dimension of size n
inline std::vector<Domain<1> > domains(int n, int level)
{
  std::vector<Domain<1> > o;
  if (level >= 3)
  {
    for (int f = 0; f < n; ++f)
      for (int s = -n; s <= n; ++s)
        for (int l = 1; l <= n; ++l)
        {
          if (l == 1 && s != 1 && !(level > 3 && s != 0)) continue;
          if (s == 0) continue;
          int last = f + s * (l - 1);
          if (last < 0 || last >= n) continue;
          o.push_back(Domain<1>(f, s, l));
        }
    return o;
  }
  if (level >= 1 && n > 1) { o.push_back(Domain<1>(n - 1, -1, n)); o.push_back(Domain<1>(1, 1, n - 1)); }
  if (level >= 2) { o.push_back(Domain<1>(n)); if (n > 2) { o.push_back(Domain<1>(0, 2, (n + 1) / 2)); o.push_back(Domain<1>(n - 1, -2, (n + 1) / 2)); } o.push_back(Domain<1>(n / 2, 1, 1)); }
  else o.push_back(n > 2 ? Domain<1>(0, 2, (n + 1) / 2) : Domain<1>(n));
  return o;
}
inline std::string show(Domain<1> const &d) { return std::to_string(d.first()) + ":" + std::to_string(d.stride()) + ":" + std::to_string(d.length()); }

// The library allocates through this: exact sizes, minimal alignment, NaN contents, guards on both sides.
struct Guarded : ovxx::allocator
{
  static size_t const PRE = 64, POST = 64;
  static size_t align() { return OVXX_ALLOC_ALIGNMENT; }
  struct Head { size_t size; void *base; uint64_t magic; };
  virtual void *allocate(size_t size)
  {
    size_t A = align();
    char *b = static_cast<char *>(malloc(size + PRE + POST + 4 * A));
    char *p = b + PRE + A;
    while ((size_t)p % A) ++p;
    if ((size_t)p % (2 * A) == 0) p += A;   // no more aligned than promised
    Head h = {size, b, 0x5afeb10c5afeb10cull};
    memset(p - PRE, 0xee, PRE); memcpy(p - PRE, &h, sizeof h);
    memset(p, 0xff, size); memset(p + size, 0xee, POST);
    ++live();
    return p;
  }
  virtual void deallocate(void *q, size_t size)
  {
    if (!q) return;
    char *p = static_cast<char *>(q);
    Head h; memcpy(&h, p - PRE, sizeof h);
    if (h.magic != 0x5afeb10c5afeb10cull) { mc::fail("memory", "deallocation of memory that was not allocated, or writing before its start"); return; }
    if (h.size != size) mc::fail("memory", "%zu bytes allocated, %zu deallocated", h.size, size);
    for (size_t i = sizeof h; i < PRE; ++i) if ((unsigned char)p[(long)i - (long)PRE] != 0xee) { mc::fail("memory", "writing %zu bytes before the start of an allocation of %zu bytes", PRE - i, h.size); break; }
    for (size_t i = 0; i < POST; ++i) if ((unsigned char)p[h.size + i] != 0xee) { mc::fail("memory", "writing %zu bytes behind the end of an allocation of %zu bytes", i, h.size); break; }
    h.magic = 0; memcpy(p - PRE, &h, sizeof h);
    memset(p, 0xfe, h.size);
    --live();
    free(h.base);
  }
  static long &live() { static long n = 0; return n; }
};

inline void init()
{
  static vsip::vsipl *lib = 0;
  if (lib) return;
  lib = new vsip::vsipl;
  ovxx::allocator::set_default(new Guarded);
}
} // namespace seq
#endif
