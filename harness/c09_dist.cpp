// C09: direct data access to distributed blocks.
#include <vsip/dda.hpp>
#include <ovxx/allocator.hpp>
#include "par.hpp"
using namespace par;
namespace dda = vsip::dda;

template <typename U> U rd(U const *p, long o) { return p[o]; }
template <typename U> std::complex<U> rd(std::pair<U *, U *> p, long o) { return std::complex<U>(p.first[o], p.second[o]); }
template <typename U> std::complex<U> rd(std::pair<U const *, U const *> p, long o) { return std::complex<U>(p.first[o], p.second[o]); }
template <typename U> void wr(U *p, long o, U v) { p[o] = v; }
template <typename U> void wr(std::pair<U *, U *> p, long o, std::complex<U> v) { p.first[o] = v.real(); p.second[o] = v.imag(); }

// A user buffer with guards
struct Buffer
{
  std::vector<double> m; char *a, *b; size_t n;
  explicit Buffer(size_t bytes) : m(bytes / 4 + 512), n(bytes)
  { a = (char *)&m[0]; memset(a, 0x77, m.size() * 8); a += 128; while ((size_t)a % 64) ++a; b = a + n + 128; while ((size_t)b % 64) ++b; }
  void check() { for (int i = 1; i <= 64; ++i) if (a[-i] != 0x77 || a[n + i - 1] != 0x77 || b[-i] != 0x77 || b[n + i - 1] != 0x77) { fk::fail("buffer", "memory outside the buffer of %zu bytes changed", n); return; } }
};
template <typename T, storage_format_type F> struct ptrof { typedef T *type; };
template <typename T> struct ptrof<std::complex<T>, split_complex> { typedef std::pair<T *, T *> type; };
template <typename P> struct mkptr;
template <typename U> struct mkptr<U *> { static U *make(Buffer &b) { return reinterpret_cast<U *>(b.a); } static void const *ad(U const *p) { return p; } };
template <typename U> struct mkptr<std::pair<U *, U *> > { static std::pair<U *, U *> make(Buffer &b) { return std::make_pair(reinterpret_cast<U *>(b.a), reinterpret_cast<U *>(b.b)); } static void const *ad(std::pair<U *, U *> p) { return p.first; } };

template <typename LR> struct Need
{
  template <typename B> static length_type size(B const &b, std::false_type) { return vsip::dda::required_buffer_size<LR>(b); }
  template <typename B> static length_type size(B const &b, std::true_type) { return ovxx::Applied_layout<LR>(ovxx::extent<B::dim>(b)).total_size(); }
};
template <dimension_type D, typename T, typename O, typename M> struct Run
{
  typedef DV<D, T, O, M> Dst;
  template <typename LR, typename DT> static bool look(DT const &d, Shape<D> sh, long salt, char const *when)
  {
    bool ok = true;
    unsigned long long h = 3;
    for (long i = 0; i < sh.total(); ++i)
    {
      int g[3]; sh.at(i, g); long o = 0; for (unsigned k = 0; k < D; ++k) o += g[k] * d.stride(k);
      T v = rd(d.ptr(), o), w = val<T>::of(1 + i + salt);
      h = fk::hash(&v, sizeof v, h);
      if (ok && !(v == w)) { std::ostringstream x; x << when << ": element " << i << " is " << v << ", expected " << w; fk::fail("read", "%s", x.str().c_str()); ok = false; }
    }
    fk::outcome(h);
    return ok;
  }
  template <typename LR, typename DT> static void fill(DT &d, Shape<D> sh, long salt)
  { for (long i = 0; i < sh.total(); ++i) { int g[3]; sh.at(i, g); long o = 0; for (unsigned k = 0; k < D; ++k) o += g[k] * d.stride(k); wr(d.ptr(), o, val<T>::of(1 + i + salt)); } }
  template <typename LR> static void one(Shape<D> sh, Spec sp, int S, int buf)
  {
    Dst d(sh, sp);
    d.fill(100);
    length_type need = Need<LR>::size(*d.blk, std::integral_constant<bool, std::is_same<M, Replicated_map<D> >::value>());
    Buffer b(std::max<length_type>(need, 1) * sizeof(T));
    long end = 100;
    if (S == 1)
    {
      typedef dda::Data<typename Dst::block_type const, dda::in, LR> DT;
      typedef typename ptrof<T, LR::storage_format>::type P;
      DT x(*d.blk, buf ? mkptr<P>::make(b) : P());
      form<LR>(x, sh);
      look<LR>(x, sh, 100, "at the start");
    }
    else if (S == 2)
    {
      typedef dda::Data<typename Dst::block_type, dda::out, LR> DT;
      typedef typename ptrof<T, LR::storage_format>::type P;
      DT x(*d.blk, buf ? mkptr<P>::make(b) : P());
      form<LR>(x, sh);
      if (buf && need && !sp.repl && mkptr<P>::ad(x.ptr()) != b.a) fk::fail("buffer", "the user-supplied buffer is not used");
      fill<LR>(x, sh, 300);
      x.sync_out();
      d.check("sync", [](long i, int *) { return val<T>::of(301 + i); });
      fill<LR>(x, sh, 500);
      end = 500;
    }
    else
    {
      typedef dda::Data<typename Dst::block_type, dda::inout, LR> DT;
      typedef typename ptrof<T, LR::storage_format>::type P;
      DT x(*d.blk, buf ? mkptr<P>::make(b) : P());
      form<LR>(x, sh);
      look<LR>(x, sh, 100, "at the start");
      fill<LR>(x, sh, 300);
      x.sync_out();
      d.check("sync", [](long i, int *) { return val<T>::of(301 + i); });
      d.fill(700);
      x.sync_in();
      look<LR>(x, sh, 700, "after sync_in");
      end = 700;
    }
    d.check("sync", [=](long i, int *) { return val<T>::of(1 + end + i); });
    b.check();
  }
  template <typename LR, typename DT> static void form(DT const &x, Shape<D> sh)
  {
    typedef typename LR::order_type Q;
    int o[3] = {Q::impl_dim0, Q::impl_dim1, Q::impl_dim2};
    if (sh.n[o[D - 1]] > 1 && x.stride(o[D - 1]) != 1) fk::fail("layout", "stride %d in the minor dimension", (int)x.stride(o[D - 1]));
    long s = sh.n[o[D - 1]];
    if (LR::packing == dense) for (int k = D - 1; k-- > 0;) { if (sh.n[o[k]] > 1 && x.stride(o[k]) != s) fk::fail("layout", "stride %d in dimension %d, expected %ld", (int)x.stride(o[k]), o[k], s); s *= sh.n[o[k]]; }
    if (LR::packing == aligned_16) for (int k = D - 1; k-- > 0;) if (sh.n[o[k]] > 1 && x.stride(o[k]) * sizeof(T) / (LR::storage_format == split_complex ? 2 : 1) % 16) fk::fail("layout", "stride %d in dimension %d is not aligned", (int)x.stride(o[k]), o[k]);
    for (unsigned k = 0; k < D; ++k) if ((int)x.size(k) != sh.n[k]) fk::fail("size", "size %d in dimension %d, expected %d", (int)x.size(k), (int)k, sh.n[k]);
  }
  template <typename LR> static void req(Shape<D> sh, Spec sp, std::string const &n)
  {
    for (int S = 1; S < 4; ++S)
      for (int b = 0; b < 2; ++b)
        par::add(n + " " + sh.str() + " " + show(sp, D) + (S == 1 ? " in" : S == 2 ? " out" : " inout") + (b ? " with a user buffer" : ""), [=]() { one<LR>(sh, sp, S, b); });
  }
  template <typename Q> static void orders(Shape<D> sh, Spec sp, std::string const &n, std::string const &q)
  {
    req<Layout<D, Q, dense, FORMAT> >(sh, sp, n + " as " + q + " dense");
    req<Layout<D, Q, aligned_16, FORMAT> >(sh, sp, n + " as " + q + " aligned");
  }
  static void all(std::vector<Shape<D> > shs, std::string const &n)
  {
    for (auto sh : shs) for (auto sp : specs<M>(D, {1}, false))
    {
      if (sp.repl && sp.d[0].nsb < np()) continue;   // processors outside the map have no data
#if D_ == 1
      orders<row1_type>(sh, sp, n, "");
#elif D_ == 2
      orders<row2_type>(sh, sp, n, "row-major"); orders<col2_type>(sh, sp, n, "column-major");
#else
      orders<tuple<0, 1, 2> >(sh, sp, n, "012"); orders<tuple<2, 0, 1> >(sh, sp, n, "201");
#endif
    }
  }
};
static void enumerate(bool t)
{
#if D_ == 1
  std::vector<Shape<1> > sh = {{{1}}, {{3}}, {{6}}}; if (t) sh.push_back({{9}});
  Run<1, ET, row1_type, Map<Block_dist> >::all(sh, "block");
  Run<1, ET, row1_type, Map<Cyclic_dist> >::all(sh, "cyclic");
  Run<1, ET, row1_type, Replicated_map<1> >::all(sh, "replicated");
#elif D_ == 2
  std::vector<Shape<2> > sh = {{{1, 3}}, {{3, 5}}}; if (t) sh.push_back({{6, 3}});
  Run<2, ET, row2_type, Map<Block_dist, Block_dist> >::all(sh, "row-major block");
  Run<2, ET, col2_type, Map<Block_dist, Whole_dist> >::all(sh, "column-major rows");
  Run<2, ET, col2_type, Replicated_map<2> >::all(sh, "column-major replicated");
#else
  std::vector<Shape<3> > sh = {{{2, 3, 3}}}; if (t) sh.push_back({{3, 1, 4}});
  Run<3, ET, tuple<0, 1, 2>, Map<Block_dist, Block_dist, Whole_dist> >::all(sh, "block");
  Run<3, ET, tuple<2, 0, 1>, Map<Whole_dist, Block_dist, Block_dist> >::all(sh, "block 201");
#endif
}
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
