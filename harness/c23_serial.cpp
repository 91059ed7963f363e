// C23: descriptors of data and of user storage, the compatibility predicate and rebinding.
// WHICH 0: every descriptor of a bounded set against every reader;  1: every data access and every user storage against every reader.  DIM, ET
#include "seq.hpp"
#include <vsip/serialization.hpp>
using namespace seq;
namespace s = vsip::serialization;
typedef tuple<0, 1, 2> o012; typedef tuple<0, 2, 1> o021; typedef tuple<1, 0, 2> o102; typedef tuple<1, 2, 0> o120; typedef tuple<2, 0, 1> o201; typedef tuple<2, 1, 0> o210;

// value type, kind of number
template <typename T> struct kind { static char const *name() { return "?"; } };
#define K(T, N) template <> struct kind<T> { static char const *name() { return N; } };
K(bool, "bool") K(char, "char") K(float, "float") K(double, "double") K(std::complex<float>, "cfloat") K(std::complex<double>, "cdouble")
K(s::int8_type, "int8") K(s::uint8_type, "uint8") K(s::int16_type, "int16") K(s::uint16_type, "uint16")
K(s::int32_type, "int32") K(s::uint32_type, "uint32") K(s::int64_type, "int64") K(s::uint64_type, "uint64")
struct Type { char const *name; s::uint64_type code; };
static Type const types[] = {
#define Y(T) {kind<T>::name(), s::type_info<T>::value}
  Y(bool), Y(char), Y(float), Y(double), Y(std::complex<float>), Y(std::complex<double>), Y(s::int8_type), Y(s::uint8_type), Y(s::int16_type),
  Y(s::uint16_type), Y(s::int32_type), Y(s::uint32_type), Y(s::int64_type), Y(s::uint64_type)};
static int const NT = sizeof types / sizeof types[0];

// do the strides place every element where a dense block of dimension order o has it?
static bool dense_in(int D, int const *o, long const *n, long const *st)
{
  long want = 1;
  for (int k = D; k-- > 0;) { if (n[o[k]] > 1 && st[o[k]] != want) return false; want *= n[o[k]]; }
  return true;
}
// and are they the ones a dense block would have, even where there is nothing to step over?
static bool canonical(int D, int const *o, long const *n, long const *st)
{
  long want = 1;
  for (int k = D; k-- > 0;) { if (st[o[k]] != want) return false; want *= n[o[k]]; }
  return true;
}
static std::string show(s::Descriptor const &i)
{
  std::string r = "type " + std::to_string(i.value_type);
  for (int t = 0; t < NT; ++t) if (types[t].code == i.value_type) r = types[t].name;
  r += " " + std::to_string(i.dimensions) + "-D size";
  for (int d = 0; d < i.dimensions && d < 3; ++d) r += " " + std::to_string(i.size[d]);
  r += " strides"; for (int d = 0; d < i.dimensions && d < 3; ++d) r += " " + std::to_string(i.stride[d]);
  return r;
}

#if WHICH == 0
typedef bool (*Pred)(s::Descriptor const &);
template <dimension_type D, typename T, typename O, storage_format_type F> struct Reader { typedef Strided<D, T, Layout<D, O, dense, F> > type; };
template <dimension_type D, typename T, typename O, storage_format_type F> void reader()
{
  int o[3]; for (int k = 0; k < 3; ++k) o[k] = ord<O>::at(k);
  Pred p = &s::is_compatible<typename Reader<D, T, O, F>::type>;
  Pred q = F == ovxx::conditional<ovxx::is_complex<T>::value, Dense<D, T, O>, Dense<D, T, O> >::type::storage_format ? &s::is_compatible<Dense<D, T, O> > : p;
  if (!mc::next()) return;
  mc::desc("reader %d-D %s order %s %s", (int)D, kind<T>::name(), ord<O>::str(D).c_str(), fmt<F>::name());
  long accepted = 0, total = 0;
  static int const sizes[] = {1, 2, 3, 4};
  int const NS = mc::tier(3, 4);
  std::vector<int> strides; for (int k = -3; k <= 12; ++k) strides.push_back(k);
  if (mc::tier(0, 1)) { strides.push_back(16); strides.push_back(-4); strides.push_back(-6); }
  for (int dims = 1; dims <= 3; ++dims)
  {
    int shapes = 1; for (int d = 0; d < dims; ++d) shapes *= NS;
    long nst = 1; for (int d = 0; d < dims; ++d) nst *= strides.size();
    for (int sh = 0; sh < shapes; ++sh)
      for (long k = 0; k < nst; ++k)
      {
        s::Descriptor i; memset(&i, 0, sizeof i);
        i.dimensions = dims; i.storage_format = F;
        long n[3] = {1, 1, 1}, st[3] = {0, 0, 0}; { int v = sh; for (int d = 0; d < dims; ++d) { n[d] = sizes[v % NS]; v /= NS; } }
        { long v = k; for (int d = 0; d < dims; ++d) { st[d] = strides[v % strides.size()]; v /= strides.size(); } }
        for (int d = 0; d < dims; ++d) { i.size[d] = n[d]; i.stride[d] = st[d]; }
        i.storage_size = n[0] * n[1] * n[2];
        bool fits = dims == (int)D && dense_in(D, o, n, st), canon = fits && canonical(D, o, n, st);
        for (int t = 0; t < NT; ++t)
        {
          i.value_type = types[t].code; ++total;
          bool same = !strcmp(types[t].name, kind<T>::name());
          bool c = p(i), c2 = q(i);
          if (c != c2) { mc::fail("predicates differ", "%s: Strided says %d, Dense %d", show(i).c_str(), c, c2); return; }
          accepted += c;
          if (c && !same) { mc::fail("value type", "accepts %s", show(i).c_str()); return; }
          if (c && dims != (int)D) { mc::fail("dimensions", "accepts %s", show(i).c_str()); return; }
          if (c && !fits) { mc::fail("layout", "accepts %s", show(i).c_str()); return; }
          if (!c && canon && same) { mc::fail("rejection", "rejects %s", show(i).c_str()); return; }
        }
      }
  }
  mc::nontrivial(); mc::step(total); mc::outcome(mc::hash(&accepted, sizeof accepted));
}
template <dimension_type D, typename T, typename O> void reader_f(std::false_type) { reader<D, T, O, array>(); }
template <dimension_type D, typename T, typename O> void reader_f(std::true_type) { reader<D, T, O, array>(); reader<D, T, O, split_complex>(); reader<D, T, O, interleaved_complex>(); }
template <dimension_type D, typename T, typename O> void reader_o() { reader_f<D, T, O>(std::integral_constant<bool, cplx<T>::value>()); }
template <typename T> void readers()
{
#if DIM == 1
  reader_o<1, T, o012>();
#elif DIM == 2
  reader_o<2, T, o012>(); reader_o<2, T, o102>();
#else
  reader_o<3, T, o012>(); reader_o<3, T, o021>(); reader_o<3, T, o102>(); reader_o<3, T, o120>(); reader_o<3, T, o201>(); reader_o<3, T, o210>();
#endif
}
static void enumerate()
{
  init();
  if (mc::next())
  {
    mc::desc("codes of the value types");
    for (int a = 0; a < NT; ++a) for (int b = 0; b < a; ++b) if (types[a].code == types[b].code) mc::fail("code", "%s and %s share a code", types[a].name, types[b].name);
    mc::nontrivial();
  }
  readers<bool>(); readers<char>(); readers<float>(); readers<double>(); readers<std::complex<float> >(); readers<std::complex<double> >();
  readers<s::int8_type>(); readers<s::uint8_type>(); readers<s::int16_type>(); readers<s::uint16_type>();
  readers<s::int32_type>(); readers<s::uint32_type>(); readers<s::int64_type>(); readers<s::uint64_type>();
}
#else
typedef ET T;
typedef cplx<T>::real R;
static int const D = DIM;
static bool const CPX = cplx<T>::value;
static T load(T *p, long i) { return p[i]; }
#if CPLX
static T load(R *p, long i) { return T(p[2 * i], p[2 * i + 1]); }
static T load(std::pair<R *, R *> p, long i) { return T(p.first[i], p.second[i]); }
#endif

static std::vector<T> vals;      // what the writer's elements are, row-major
static int sz[3];

// rebind a reader to the described data, if it is compatible; read every element, change every element and give it back
template <typename O, storage_format_type F, typename P> void read(P ptr, s::Descriptor const &i, bool must)
{
  typedef Strided<DIM, T, Layout<DIM, O, dense, F> > block_type;
  typedef typename V<DIM>::template of<T, block_type>::type view_type;
  int o[3]; for (int k = 0; k < 3; ++k) o[k] = ord<O>::at(k);
  long n[3] = {1, 1, 1}, st[3] = {0, 0, 0}; for (int d = 0; d < D; ++d) { n[d] = i.size[d]; st[d] = i.stride[d]; }
  bool c = s::is_compatible<block_type>(i), fits = dense_in(D, o, n, st);
  mc::step(1);
  if (c && !fits) { mc::fail("layout", "a block of order %s accepts %s", ord<O>::str(D).c_str(), show(i).c_str()); return; }
  if (!c) { if (must && canonical(D, o, n, st)) mc::fail("rejection", "a dense block of order %s rejects %s", ord<O>::str(D).c_str(), show(i).c_str()); return; }
  int one[3] = {1, 1, 1};
  block_type *b = new block_type(dom<DIM>(one), P());
  int m[3] = {(int)i.size[0], D > 1 ? (int)i.size[1] : 1, D > 2 ? (int)i.size[2] : 1};
  b->rebind(ptr, dom<DIM>(m));
  b->admit(true);
  {
    view_type v(*b);
    for (Iter it(D, sz); it.more(); it.next())
    {
      T g = at<DIM>::get(v, it.i);
      if (!(g == vals[it.lin])) { mc::fail("element", "a block of order %s, %s, rebound to %s: element %ld is %s, expected %s", ord<O>::str(D).c_str(), fmt<F>::name(), show(i).c_str(), it.lin, mc::str(g).c_str(), mc::str(vals[it.lin]).c_str()); break; }
    }
    for (Iter it(D, sz); it.more(); it.next()) { vals[it.lin] = T(vals[it.lin] + T(3)); at<DIM>::put(v, it.i, vals[it.lin]); }
  }
  b->release(true);
  b->decrement_count();
  // the data now hold the reader's values
  for (Iter it(D, sz); it.more(); it.next())
  {
    long p = 0; for (int d = 0; d < D; ++d) p += st[d] * it.i[d];
    if (!(load(ptr, p) == vals[it.lin])) { mc::fail("written back", "a block of order %s, %s, rebound to %s: element %ld of the data is %s after release", ord<O>::str(D).c_str(), fmt<F>::name(), show(i).c_str(), it.lin, mc::str(load(ptr, p)).c_str()); break; }
  }
}
template <typename O, typename P> void read_o(P ptr, s::Descriptor const &i, std::false_type) { read<O, array>(ptr, i, true); }
template <typename O, typename P> void read_o(P ptr, s::Descriptor const &i, std::true_type) { read<O, array>(ptr, i, true); read<O, split_complex>(ptr, i, true); read<O, interleaved_complex>(ptr, i, true); }
template <typename P> void read_all(P ptr, s::Descriptor const &i)
{
  std::integral_constant<bool, CPX> c;
#if DIM == 1
  read_o<o012>(ptr, i, c);
#elif DIM == 2
  read_o<o012>(ptr, i, c); read_o<o102>(ptr, i, c);
#else
  read_o<o012>(ptr, i, c); read_o<o021>(ptr, i, c); read_o<o102>(ptr, i, c); read_o<o120>(ptr, i, c); read_o<o201>(ptr, i, c); read_o<o210>(ptr, i, c);
#endif
}
static void common(s::Descriptor const &i, int format, long const *st)
{
  if (i.value_type != s::type_info<T>::value) mc::fail("value type", "value_type %lu, expected %lu", (long)i.value_type, (long)s::type_info<T>::value);
  if (i.dimensions != D) mc::fail("dimensions", "%d dimensions", (int)i.dimensions);
  if (i.storage_format != format) mc::fail("format", "storage_format %d, expected %d", (int)i.storage_format, format);
  for (int d = 0; d < D; ++d)
  {
    if ((int)i.size[d] != sz[d]) mc::fail("size", "size %d in dimension %d, expected %d", (int)i.size[d], d, sz[d]);
    if (st && i.stride[d] != st[d]) mc::fail("stride", "stride %ld in dimension %d, expected %ld", (long)i.stride[d], d, st[d]);
  }
}
// one access to the data of a view
template <vsip::dda::sync_policy S, typename L, typename View> void access(View view, char const *)
{
  typedef typename View::block_type B;
  typedef vsip::dda::Data<B, S, L> DT;
  vals.clear();
  for (int d = 0; d < D; ++d) sz[d] = view.size(d);
  for (Iter it(D, sz); it.more(); it.next()) vals.push_back(at<DIM>::get(view, it.i));
  {
    DT data(view.block());
    s::Descriptor i; memset(&i, 0x5a, sizeof i);
    s::describe_data(data, i);
    long st[3] = {0, 0, 0}, span = 1; for (int d = 0; d < D; ++d) { st[d] = data.stride(d); span += labs(st[d]) * (sz[d] - 1); }
    common(i, DT::layout_type::storage_format, st);
    for (Iter it(D, sz); it.more(); it.next())
    {
      long p = 0; for (int d = 0; d < D; ++d) p += i.stride[d] * it.i[d];
      T g = load(data.ptr(), p);
      if (!(g == vals[it.lin])) { mc::fail("described position", "element %ld is not at the position its strides state", it.lin); break; }
    }
    long most = span; for (int d = 0; d < D; ++d) most = std::max(most, labs(st[d]) * sz[d]);
    if ((long)i.storage_size < span || (long)i.storage_size > most) mc::fail("storage size", "storage size %ld for data that span %ld elements (%s)", (long)i.storage_size, span, show(i).c_str());
    read_all(data.ptr(), i);
  }
  for (Iter it(D, sz); it.more(); it.next())
    if (!(at<DIM>::get(view, it.i) == vals[it.lin])) { mc::fail("after", "element %ld of the view is %s, expected %s", it.lin, mc::str(at<DIM>::get(view, it.i)).c_str(), mc::str(vals[it.lin]).c_str()); break; }
}
template <typename View> void accesses(View view, char const *n)
{
  typedef typename View::block_type B;
  typedef typename vsip::dda::Data<B, vsip::dda::inout>::layout_type L0;
  access<vsip::dda::inout, L0>(view, n);
#if DIM == 1
  typedef o012 Q1; typedef o012 Q2;
#elif DIM == 2
  typedef o012 Q1; typedef o102 Q2;
#else
  typedef o012 Q1; typedef o120 Q2;
#endif
  access<vsip::dda::inout, Layout<DIM, Q1, dense, array> >(view, n);
  access<vsip::dda::inout, Layout<DIM, Q2, dense, array> >(view, n);
  access<vsip::dda::inout, Layout<DIM, Q1, aligned_16, array> >(view, n);
  access<vsip::dda::inout, Layout<DIM, Q2, dense, CPX ? split_complex : array> >(view, n);
  access<vsip::dda::inout, Layout<DIM, Q1, aligned_32, CPX ? split_complex : array> >(view, n);
}
template <typename V> void sub(V v, Domain<1> a, Domain<1>, Domain<1>, std::integral_constant<int, 1>) { accesses(v(a), ""); }
template <typename V> void sub(V v, Domain<1> a, Domain<1> b, Domain<1>, std::integral_constant<int, 2>) { accesses(v(Domain<2>(a, b)), ""); accesses(v.transpose()(Domain<2>(b, a)), ""); }
template <typename V> void sub(V v, Domain<1> a, Domain<1> b, Domain<1> c, std::integral_constant<int, 3>) { accesses(v(Domain<3>(a, b, c)), ""); accesses(v.template transpose<1, 2, 0>(), ""); }
template <typename V> void whole_view(V v) { accesses(v, ""); }

template <typename O, pack_type P, storage_format_type F> void writer()
{
  typedef Layout<DIM, O, P, F> L;
  typedef Strided<DIM, T, L> B;
  typedef typename V<DIM>::template of<T, B>::type view_type;
  int const hi = mc::tier(3, 4);
  int n[3];
  for (n[0] = 1; n[0] <= (D == 1 ? 2 * hi : hi); ++n[0]) for (n[1] = 1; n[1] <= (D > 1 ? hi : 1); ++n[1]) for (n[2] = 1; n[2] <= (D > 2 ? hi : 1); ++n[2])
  {
    auto ds = [&](int d) { return d < D ? domains(n[d], D == 1 ? 3 : D == 2 ? 2 : 1) : std::vector<Domain<1> >(1, Domain<1>(1)); };
    int k = 0;
    auto go = [&](std::string const &what, std::function<void(view_type)> f)
    {
      if (!mc::next()) return;
      mc::desc("%d-D %s %s order %s %s %s: %s", D, kind<T>::name(), seq::show(D, n).c_str(), ord<O>::str(D).c_str(), pack_name<P>().c_str(), fmt<F>::name(), what.c_str());
      long live = Guarded::live();
      {
        view_type v(*new B(dom<DIM>(n))); v.block().decrement_count();
        for (Iter it(D, n); it.more(); it.next()) at<DIM>::put(v, it.i, val<T>::of(1 + it.lin % 100));
        f(v);
      }
      if (Guarded::live() != live) mc::fail("leak", "%ld allocations left", Guarded::live() - live);
      mc::nontrivial();
    };
    go("whole", [](view_type v) { whole_view(v); });
    for (auto a : ds(0)) for (auto b : ds(1)) for (auto c : ds(2))
    {
      (void)k;
      go("sub-view " + seq::show(a) + (D > 1 ? "," + seq::show(b) : "") + (D > 2 ? "," + seq::show(c) : ""), [&](view_type v) { sub(v, a, b, c, std::integral_constant<int, DIM>()); });
    }
  }
}
template <typename O, pack_type P> void writer_f(std::false_type) { writer<O, P, array>(); }
template <typename O, pack_type P> void writer_f(std::true_type) { writer<O, P, array>(); writer<O, P, split_complex>(); }
template <typename O> void writers()
{
  std::integral_constant<bool, CPX> c;
  writer_f<O, dense>(c);
#if DIM > 1
  writer_f<O, aligned_16>(c);
#endif
}

// ---- user storage
static user_storage_type const ufmt[] = {array_format, interleaved_format, split_format};
template <typename B> void rebind_(B &b, std::vector<R> &m, int f, std::true_type)
{ if (f == 0) b.rebind(reinterpret_cast<T *>(&m[0])); else if (f == 1) b.rebind(&m[0]); else b.rebind(&m[0], &m[m.size() / 2]); }
template <typename B> void rebind_(B &b, std::vector<R> &m, int, std::false_type) { b.rebind(reinterpret_cast<T *>(&m[0])); }
#if CPLX
static void read_user(std::vector<R> &m, int f, s::Descriptor const &i, std::true_type)
{ if (f == 0) read_all(reinterpret_cast<T *>(&m[0]), i); else if (f == 1) read_all(&m[0], i); else read_all(std::make_pair(&m[0], &m[m.size() / 2]), i); }
#endif
static void read_user(std::vector<R> &m, int, s::Descriptor const &i, std::false_type) { read_all(reinterpret_cast<T *>(&m[0]), i); }
template <typename B, typename O, storage_format_type F> void user()
{
  int const hi = mc::tier(3, 4);
  int n[3];
  std::integral_constant<bool, CPX> c;
  for (n[0] = 1; n[0] <= (D == 1 ? 2 * hi : hi); ++n[0]) for (n[1] = 1; n[1] <= (D > 1 ? hi : 1); ++n[1]) for (n[2] = 1; n[2] <= (D > 2 ? hi : 1); ++n[2])
    for (int first = 0; first < (CPX ? 3 : 1); ++first)
      for (int f = 0; f < (CPX ? 3 : 1); ++f)
      {
        if (!mc::next()) continue;
        static char const *const fn[] = {"array", "interleaved", "split"};
        mc::desc("%d-D %s %s order %s %s user storage: %s, then %s", D, kind<T>::name(), seq::show(D, n).c_str(), ord<O>::str(D).c_str(), fmt<F>::name(), fn[first], fn[f]);
        typedef typename V<DIM>::template of<T, B>::type view_type;
        long total = 1; for (int d = 0; d < D; ++d) { sz[d] = n[d]; total *= n[d]; }
        std::vector<R> m1(total * (CPX ? 2 : 1)), m2(total * (CPX ? 2 : 1));
        B *b = new B(dom<DIM>(n), reinterpret_cast<T *>(&m1[0]));
        rebind_(*b, m1, first, c);
        vals.clear(); for (long k = 0; k < total; ++k) vals.push_back(val<T>::of(1 + k));
        for (int round = 0; round < 2; ++round)
        {
          std::vector<R> &m = round ? m2 : m1; int fm = round ? f : first;
          if (round) rebind_(*b, m2, f, c);
          b->admit(false);
          { view_type v(*b); for (Iter it(D, n); it.more(); it.next()) at<DIM>::put(v, it.i, vals[it.lin]); }
          b->release(true);
          s::Descriptor i; memset(&i, 0x5a, sizeof i);
          s::describe_user_storage(*b, i);
          long st[3] = {0, 0, 0}, w = 1; for (int k = D; k-- > 0;) { st[ord<O>::at(k)] = w; w *= n[ord<O>::at(k)]; }
          if (D == 1) st[0] = 1;
          common(i, ufmt[fm], st);
          for (int d = D; d < 3; ++d) if (i.size[d] || i.stride[d]) mc::fail("unused", "size %ld, stride %ld in dimension %d", (long)i.size[d], (long)i.stride[d], d);
          long want = fm == 0 ? total : 2 * total;
          if ((long)i.storage_size != want) mc::fail("storage size", "storage size %ld, expected %ld", (long)i.storage_size, want);
          read_user(m, fm, i, c);
        }
        b->decrement_count();
        mc::nontrivial();
      }
}
template <typename O> void users(std::false_type) { user<Strided<DIM, T, Layout<DIM, O, dense, array> >, O, array>(); user<Dense<DIM, T, O>, O, array>(); }
template <typename O> void users(std::true_type)
{
  user<Strided<DIM, T, Layout<DIM, O, dense, array> >, O, array>(); user<Dense<DIM, T, O>, O, array>();
  user<Strided<DIM, T, Layout<DIM, O, dense, split_complex> >, O, split_complex>();
  user<Strided<DIM, T, Layout<DIM, O, dense, interleaved_complex> >, O, interleaved_complex>();
}
static void enumerate()
{
  init();
  std::integral_constant<bool, CPX> c;
#if DIM == 1
  writers<o012>(); users<o012>(c);
#elif DIM == 2
  writers<o012>(); writers<o102>(); users<o012>(c); users<o102>(c);
#else
  writers<ORD>(); users<ORD>(c);
#endif
}
#endif
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
