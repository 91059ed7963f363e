// Placements of views: parts, lines, planes, diagonals, transposes, components of larger
// blocks, with the positions of their elements known independently of the library.
#ifndef PLACE_HPP
#define PLACE_HPP
#include "seq.hpp"
using namespace seq;
typedef ET T;
typedef cplx<T>::real R;
typedef std::complex<float> CFL;
typedef std::complex<double> CDB;
template <typename Q> static double nrm(Q x) { return std::abs(CDB(comp(x, 0), cplx<Q>::value ? comp(x, 1) : 0)); }
static double const tol = sizeof(R) >= 8 ? 1e-12 : 4e-6;

// Placements: p.view() is a D-dimensional view; element l (row-major) is scalar get(l)
template <dimension_type D, typename O, int F> struct layout { typedef Layout<D, O, dense, F == 1 ? split_complex : F == 2 ? interleaved_complex : array> type; };
template <typename RR> struct Base
{
  RR r; std::vector<long> pos;
  Base(std::vector<int> m) : r((m.resize(3, 1), m.data())) {}
  typename RR::value_type raw(long l) { long p = r.pos(pos[l]); return RR::mk(r.raw(p, 0), r.C() > 1 ? r.raw(p, 1) : typename RR::R()); }
  typename RR::value_type get(long l) { return raw(l); }
  void set(long l, typename RR::value_type v) { long p = r.pos(pos[l]); for (int c = 0; c < r.C(); ++c) r.raw(p, c) = r.exp_raw(p, c) = comp(v, c); }
  void accept(long l) { long p = r.pos(pos[l]); for (int c = 0; c < r.C(); ++c) r.exp_raw(p, c) = r.raw(p, c); }
  typedef typename RR::value_type value_type;
  void fill(long salt) { r.reset(salt); for (size_t l = 0; l < pos.size(); ++l) set(l, val<value_type>::of((l * 23 + salt * 17) % 61 - 30) * value_type(0.5)); }
};
// one-dimensional, n elements
#define PL(NAME, RT, SIZES, VIEW, POS) \
  struct NAME : Base<RT> { int n[3]; NAME(int n0, int n1) : Base<RT>(std::vector<int> SIZES), n{n0, n1, 1} { POS } auto view() { return VIEW; } static char const *name() { return #NAME; } };
#define FOR1(e) for (int i = 0; i < n0; ++i) pos.push_back(e);
#define FOR2(e) for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) pos.push_back(e);
typedef Root<1, T, layout<1, row1_type, FMT>::type> R1;
typedef Root<2, T, layout<2, row2_type, FMT>::type> R2;
typedef Root<2, T, layout<2, col2_type, FMT>::type> C2;
typedef Root<3, T, layout<3, tuple<1, 2, 0>, FMT>::type> R3;
PL(wholev, R1, ({n0}), r.view(), FOR1(i))
PL(strided, R1, ({3 * n0 + 1}), r.view()(Domain<1>(2, 3, this->n[0])), FOR1(2 + 3 * i))
PL(revv, R1, ({n0 + 2}), r.view()(Domain<1>(n[0], -1, n[0])), FOR1(n0 - i))
PL(rowline, R2, ({3, n0}), r.view().row(1), FOR1(n0 + i))
PL(column, R2, ({n0, 3}), r.view().col(2), FOR1(3 * i + 2))
PL(diagonal, R2, ({n0, n0 + 1}), r.view().diag(1), FOR1(i * (n0 + 1) + i + 1))
PL(rowpart, C2, ({3, n0 + 2}), r.view().row(1)(Domain<1>(1, 1, n[0])), FOR1((n0 + 2) + 1 + i))
PL(tensorline, R3, ({2, n0, 3}), r.view()(1, vsip::whole_domain, 2), FOR1((n0 + i) * 3 + 2))
PL(mrow, R2, ({n0, n1}), r.view(), FOR2(i * n1 + j))
PL(mcol, C2, ({n0, n1}), r.view(), FOR2(i * n1 + j))
PL(msub, R2, ({2 * n0 + 1, n1 + 1}), r.view()(Domain<2>(Domain<1>(1, 2, n[0]), Domain<1>(n[1] - 1, -1, n[1]))), FOR2((1 + 2 * i) * (n1 + 1) + n1 - 1 - j))
PL(mtrans, R2, ({n1, n0}), r.view().transpose(), FOR2(j * n0 + i))
PL(mtransc, C2, ({n1, n0}), r.view().transpose(), FOR2(j * n0 + i))
PL(plane, R3, ({n0, n1, 3}), r.view()(vsip::whole_domain, vsip::whole_domain, 1), FOR2((i * n1 + j) * 3 + 1))
PL(planemid, R3, ({n0, 2, n1}), r.view()(vsip::whole_domain, 0, vsip::whole_domain), FOR2(i * 2 * n1 + j))
// components of complex storage
template <int CM, typename CR> struct CompBase
{
  typedef std::complex<T> C; CR r; std::vector<long> pos; typedef T value_type;
  CompBase(std::vector<int> m) : r((m.resize(3, 1), m.data())) {}
  T get(long l) { return r.raw(r.pos(pos[l]), CM); }
  void set(long l, T v) { r.raw(r.pos(pos[l]), CM) = r.exp_raw(r.pos(pos[l]), CM) = v; }
  void accept(long l) { r.exp_raw(r.pos(pos[l]), CM) = r.raw(r.pos(pos[l]), CM); }
  void fill(long salt) { r.reset(salt); for (size_t l = 0; l < pos.size(); ++l) set(l, T((long)(l * 23 + salt * 17) % 61 - 30) * T(0.5)); }
};
#ifdef COMPONENTS
typedef Root<1, std::complex<T>, Layout<1, row1_type, dense, array> > Q1;
typedef Root<2, std::complex<T>, Layout<2, col2_type, dense, split_complex> > Q2;
struct realpart : CompBase<0, Q1> { int n[3]; realpart(int n0, int n1) : CompBase({n0}), n{n0, n1, 1} { FOR1(i) } auto view() { return r.view().real(); } static char const *name() { return "real"; } };
struct imagpart : CompBase<1, Q1> { int n[3]; imagpart(int n0, int n1) : CompBase({2 * n0}), n{n0, n1, 1} { FOR1(2 * i) } auto view() { return r.view()(Domain<1>(0, 2, n[0])).imag(); } static char const *name() { return "imag of part"; } };
struct mreal : CompBase<0, Q2> { int n[3]; mreal(int n0, int n1) : CompBase({n0, n1}), n{n0, n1, 1} { FOR2(i * n1 + j) } auto view() { return r.view().real(); } static char const *name() { return "real 2-D"; } };
struct mimag : CompBase<1, Q2> { int n[3]; mimag(int n0, int n1) : CompBase({n0, n1}), n{n0, n1, 1} { FOR2(i * n1 + j) } auto view() { return r.view().imag(); } static char const *name() { return "imag 2-D"; } };
#endif


// every destination with every first and second operand
template <typename... X> struct list {};
template <template <typename, typename, typename> class F, typename A, typename D, typename... B> static void loopB(list<B...>) { int x[] = {(F<A, B, D>::go(), 0)...}; (void)x; }
template <template <typename, typename, typename> class F, typename D, typename L, typename... A> static void loopA(list<A...>, L bs) { int x[] = {(loopB<F, A, D>(bs), 0)...}; (void)x; }
template <template <typename, typename, typename> class F, typename L, typename M, typename... D> static void loopD(list<D...>, L as, M bs) { int x[] = {(loopA<F, D>(as, bs), 0)...}; (void)x; }
#endif
