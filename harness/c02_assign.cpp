// C02: distributed assignment between every pair of map specifications.
// Compiled several times with different PART.
#include "par.hpp"
using namespace par;

template <dimension_type D> std::vector<Shape<D> > shapes(bool thorough);
template <> std::vector<Shape<1> > shapes<1>(bool t)
{ std::vector<Shape<1> > v; for (int n : t ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 11, 19, 40} : std::vector<int>{1, 2, 3, 5, 7, 8, 19, 40}) v.push_back(Shape<1>{{n}}); return v; }
template <> std::vector<Shape<2> > shapes<2>(bool t)
{
  std::vector<Shape<2> > v = {{{1, 1}}, {{3, 4}}, {{5, 2}}, {{1, 5}}, {{17, 9}}};
  if (t) { v.push_back({{4, 7}}); v.push_back({{6, 1}}); }
  return v;
}
template <> std::vector<Shape<3> > shapes<3>(bool t)
{
  std::vector<Shape<3> > v = {{{2, 3, 4}}, {{1, 2, 3}}};
  if (t) { v.push_back({{4, 1, 5}}); v.push_back({{3, 3, 3}}); }
  return v;
}

template <dimension_type D, typename T, typename OD, typename MD, typename OS, typename MS>
struct Assign
{
  typedef DV<D, T, OD, MD> Dst;
  typedef DV<D, T, OS, MS> Src;
  static void whole(Shape<D> sh, Spec ds, Spec ss)
  {
    Dst d(sh, ds); Src s(sh, ss);
    d.check_extent(); s.check_extent();
    d.fill(5000); s.fill(100);
    d.view = s.view;
    d.check("value", [](long i, int *) { return val<T>::of(101 + i); });
    s.check("source", [](long i, int *) { return val<T>::of(101 + i); });
  }
  // a prepared assignment, executed repeatedly with changing data
  static void prepared(Shape<D> sh, Spec ds, Spec ss)
  {
    Dst d(sh, ds); Src s(sh, ss);
    typedef typename vp::choose_par_assign_impl<D, typename Dst::block_type, typename Src::block_type, true>::type tag;
    {
      vp::Assignment<D, typename Dst::block_type, typename Src::block_type, tag> a(d.view, s.view);
      for (int k = 0; k < 3; ++k)
      {
        d.fill(9000); s.fill(100 * k);
        a();
        d.check("prepared", [k](long i, int *) { return val<T>::of(1 + 100 * k + i); });
        s.check("source", [k](long i, int *) { return val<T>::of(1 + 100 * k + i); });
      }
    }
  }
  // the general (chain) implementation, also where the vector one would be chosen
  static void chained(Shape<D> sh, Spec ds, Spec ss)
  {
    Dst d(sh, ds); Src s(sh, ss);
    {
      vp::Assignment<D, typename Dst::block_type, typename Src::block_type, vp::Chained_assign> a(d.view, s.view);
      for (int k = 0; k < 2; ++k)
      {
        d.fill(9000); s.fill(100 * k);
        a();
        d.check("chained", [k](long i, int *) { return val<T>::of(1 + 100 * k + i); });
      }
    }
  }
  // there and back, then again with the roles of the data changed
  static void roundtrip(Shape<D> sh, Spec ds, Spec ss)
  {
    Dst d(sh, ds); Src s(sh, ss);
    d.fill(7000); s.fill(200);
    d.view = s.view;
    s.fill(0);
    s.view = d.view;
    s.check("roundtrip", [](long i, int *) { return val<T>::of(201 + i); });
    d.fill(300);
    s.view = d.view;
    s.check("roundtrip", [](long i, int *) { return val<T>::of(301 + i); });
  }
  // between a distributed view and an ordinary local one
  static void local(Shape<D> sh, Spec ds, Spec ss)
  {
    typedef Dense<D, T, OS> LB;
    typedef typename ovxx::view_of<LB>::type LV;
    Dst d(sh, ds); d.fill(400);
    ovxx::refcounted_ptr<LB> lb(new LB(sh.dom()), false); LV lv(*lb);
    for (long i = 0; i < sh.total(); ++i) { int g[3]; sh.at(i, g); acc<LV>::put(lv, g, val<T>::of(7)); }
    vp::assign_local(lv, d.view);
    bool ok = true; unsigned long long h = 2;
    for (long i = 0; i < sh.total(); ++i)
    {
      int g[3]; sh.at(i, g); T x = acc<LV>::get(lv, g); h = fk::hash(&x, sizeof x, h);
      if (ok && !(x == val<T>::of(401 + i))) { std::ostringstream o; o << "element " << i << " of the local view is " << x; fk::fail("to-local", "%s", o.str().c_str()); ok = false; }
      acc<LV>::put(lv, g, val<T>::of(801 + i));
    }
    fk::outcome(h);
    vp::assign_local(d.view, lv);
    d.check("from-local", [](long i, int *) { return val<T>::of(801 + i); });
  }
  static void all(bool thorough, std::string const &name, std::vector<int> contigs, bool allpv)
  {
    std::vector<Spec> ds = specs<MD>(D, contigs, allpv), ss = specs<MS>(D, contigs, allpv);
    for (auto sh : shapes<D>(thorough))
      for (auto a : ds)
      {
        for (auto b : ss)
        {
          std::string d = name + " " + sh.str() + " " + show(a, D) + " <- " + show(b, D);
          par::add("assign " + d, [=]() { whole(sh, a, b); });
          par::add("prepared assign " + d, [=]() { prepared(sh, a, b); });
          if (D == 1) par::add("chained assign " + d, [=]() { chained(sh, a, b); });
          if (thorough || (a.pv != 1 && b.pv != 2)) par::add("round trip " + d, [=]() { roundtrip(sh, a, b); });
        }
        par::add("local copy of " + name + " " + sh.str() + " " + show(a, D), [=]() { local(sh, a, a); });
      }
  }
};

#if D_ == 1
typedef Map<Block_dist> MB; typedef Map<Cyclic_dist> MC; typedef Replicated_map<1> MR; typedef Map<Whole_dist> MW;
template <typename T, typename A, typename B> void go(bool t, char const *n)
{ Assign<1, T, row1_type, A, row1_type, B>::all(t, n, t ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}, true); }
static void enumerate(bool t)
{
# if PART == 0
  go<double, MB, MB>(t, "double"); go<std::complex<float>, MB, MC>(t, "complex"); go<double, MB, MR>(t, "double"); go<int, MW, MB>(t, "int");
# elif PART == 1
  go<double, MC, MB>(t, "double"); go<std::complex<float>, MC, MC>(t, "complex"); go<float, MC, MR>(t, "float"); go<float, MB, MW>(t, "float");
# else
  go<double, MR, MB>(t, "double"); go<std::complex<double>, MR, MC>(t, "complex"); go<int, MR, MR>(t, "int"); go<std::complex<float>, MB, MB>(t, "complex");
# endif
}
#elif D_ == 2
typedef Map<Block_dist, Block_dist> M0; typedef Map<Cyclic_dist, Cyclic_dist> M1; typedef Map<Block_dist, Whole_dist> M2;
typedef Map<Whole_dist, Cyclic_dist> M3; typedef Replicated_map<2> M4;
template <typename T, typename OA, typename A, typename OB, typename B> void go(bool t, char const *n)
{ Assign<2, T, OA, A, OB, B>::all(t, n, std::vector<int>{1, 2}, t); }
typedef std::complex<double> C;
static void enumerate(bool t)
{
# if PART == 0
  go<float, row2_type, M0, row2_type, M0>(t, "float row<-row"); go<C, row2_type, M0, col2_type, M1>(t, "complex row<-col"); go<double, col2_type, M0, row2_type, M2>(t, "double col<-row");
# elif PART == 1
  go<float, col2_type, M0, col2_type, M3>(t, "float col<-col"); go<double, row2_type, M0, col2_type, M4>(t, "double row<-col"); go<C, row2_type, M1, row2_type, M0>(t, "complex row<-row");
# elif PART == 2
  go<float, col2_type, M1, row2_type, M1>(t, "float col<-row"); go<double, row2_type, M1, row2_type, M2>(t, "double row<-row"); go<float, col2_type, M1, row2_type, M3>(t, "float col<-row");
# elif PART == 3
  go<double, row2_type, M1, row2_type, M4>(t, "double row<-row"); go<float, row2_type, M2, row2_type, M0>(t, "float row<-row"); go<C, row2_type, M2, col2_type, M3>(t, "complex row<-col");
# elif PART == 4
  go<double, row2_type, M2, row2_type, M4>(t, "double row<-row"); go<C, row2_type, M3, row2_type, M2>(t, "complex row<-row"); go<float, row2_type, M3, col2_type, M4>(t, "float row<-col");
# else
  go<double, col2_type, M4, row2_type, M0>(t, "double col<-row"); go<float, row2_type, M4, row2_type, M1>(t, "float row<-row"); go<C, row2_type, M4, col2_type, M4>(t, "complex row<-col");
# endif
}
#else
typedef Map<Block_dist, Block_dist, Block_dist> M0; typedef Map<Cyclic_dist, Block_dist, Whole_dist> M1; typedef Replicated_map<3> M2; typedef Map<Whole_dist, Whole_dist, Cyclic_dist> M3;
typedef tuple<0, 1, 2> O0; typedef tuple<2, 0, 1> O1; typedef tuple<1, 2, 0> O2;
template <typename T, typename OA, typename A, typename OB, typename B> void go(bool t, char const *n)
{ Assign<3, T, OA, A, OB, B>::all(t, n, std::vector<int>{1}, false); }
static void enumerate(bool t)
{
# if PART == 0
  go<double, O0, M0, O0, M0>(t, "double 012<-012"); go<std::complex<float>, O0, M0, O1, M1>(t, "complex 012<-201"); go<float, O2, M1, O0, M0>(t, "float 120<-012");
# elif PART == 1
  go<double, O0, M1, O0, M3>(t, "double 012<-012"); go<int, O1, M3, O0, M0>(t, "int 201<-012"); go<float, O0, M0, O0, M2>(t, "float 012<-012");
# else
  go<double, O0, M2, O2, M0>(t, "double 012<-120"); go<float, O0, M2, O0, M1>(t, "float 012<-012"); go<float, O0, M3, O0, M2>(t, "float 012<-012");
# endif
}
#endif
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
