// C03: sequences of parallel operations under every schedule within the preemption bound.
#include "par.hpp"
using namespace par;
typedef DV<1, double, row1_type, Map<Block_dist> > B1;
typedef DV<1, double, row1_type, Map<Cyclic_dist> > C1;
typedef DV<1, double, row1_type, Replicated_map<1> > R1;
typedef DV<2, float, row2_type, Map<Block_dist, Block_dist> > M2;
typedef DV<2, float, col2_type, Map<Block_dist, Block_dist> > K2;

static Spec blk(int n, int pv) { return Spec{{{'b', n, 0}, {'w', 1, 0}, {'w', 1, 0}}, pv, false}; }
static Spec cyc(int n, int c, int pv) { return Spec{{{'c', n, c}, {'w', 1, 0}, {'w', 1, 0}}, pv, false}; }
static Spec rep(int n, int pv) { return Spec{{{'w', n, 0}, {'w', 1, 0}, {'w', 1, 0}}, pv, true}; }
static Spec bb(int a, int b, int pv) { return Spec{{{'b', a, 0}, {'b', b, 0}, {'w', 1, 0}}, pv, false}; }

static const int N = 5;
struct World
{
  B1 x, w, v; C1 y; R1 z; M2 m; K2 k; M2 t;
  std::vector<double> X, W, V, Y, Z; std::vector<float> M, K, T;
  int nz;
  World()
      : x({{N}}, blk(np(), 0)), w({{N}}, blk(1, np() > 1 ? 1 : 0)), v({{N}}, blk(np(), np() > 1 ? 1 : 0)), y({{N}}, cyc(np(), 1, 0)), z({{N}}, rep(np(), 0)),
        m({{3, 4}}, bb(np(), 1, 0)), k({{3, 4}}, bb(1, np(), 0)), t({{4, 3}}, bb(np(), 1, 0))
  {
    auto init = [&](std::vector<double> &r, long s) { for (int i = 0; i < N; ++i) r.push_back(1 + i + s); };
    init(X, 0); init(W, 10); init(V, 20); init(Y, 30); init(Z, 40);
    for (int i = 0; i < 12; ++i) { M.push_back(i + 101); K.push_back(i + 201); T.push_back(i + 301); }
    x.fill(0); w.fill(10); v.fill(20); y.fill(30); z.fill(40); m.fill(100); k.fill(200); t.fill(300);
  }
  void check()
  {
    x.check("x", [&](long i, int *) { return X[i]; }); w.check("w", [&](long i, int *) { return W[i]; });
    v.check("v", [&](long i, int *) { return V[i]; }); y.check("y", [&](long i, int *) { return Y[i]; });
    z.check("z", [&](long i, int *) { return Z[i]; });
    m.check("m", [&](long i, int *) { return M[i]; }); k.check("k", [&](long i, int *) { return K[i]; });
    t.check("t", [&](long i, int *) { return T[i]; });
  }
};
static void eq(char const *key, double got, double want)
{ fk::outcome(fk::hash(&got, sizeof got)); if (!(got == want)) fk::fail(key, "the value is %g, expected %g", got, want); }

struct Op { char const *name; void (*run)(World &); };
static Op const ops[] = {
  {"y=x", [](World &s) { s.y.view = s.x.view; s.Y = s.X; }},
  {"x=y", [](World &s) { s.x.view = s.y.view; s.X = s.Y; }},
  {"v=x", [](World &s) { s.v.view = s.x.view; s.V = s.X; }},
  {"x=v+y", [](World &s) { s.x.view = s.v.view + s.y.view; for (int i = 0; i < N; ++i) s.X[i] = s.V[i] + s.Y[i]; }},
  {"z=x", [](World &s) { s.z.view = s.x.view; s.Z = s.X; }},
  {"x=z", [](World &s) { s.x.view = s.z.view; s.X = s.Z; }},
  {"w=y", [](World &s) { s.w.view = s.y.view; s.W = s.Y; }},
  {"v=w*2", [](World &s) { s.v.view = s.w.view * 2.; for (int i = 0; i < N; ++i) s.V[i] = s.W[i] * 2; }},
  {"get x[3]", [](World &s) { eq("get", s.x.view.get(3), s.X[3]); }},
  {"get w[0]", [](World &s) { eq("get", s.w.view.get(0), s.W[0]); }},
  {"put y[2]", [](World &s) { s.y.view.put(2, 77.); s.Y[2] = 77; }},
  {"sum x", [](World &s) { double r = 0; for (double q : s.X) r += q; eq("sumval", sumval(s.x.view), r); }},
  {"max v+x", [](World &s)
    {
      Index<1> at; double m = maxval(s.v.view + s.x.view, at), best = s.V[0] + s.X[0]; int b = 0;
      for (int i = 1; i < N; ++i) if (s.V[i] + s.X[i] > best) { best = s.V[i] + s.X[i]; b = i; }
      eq("maxval", m, best); if ((int)at[0] != b) fk::fail("maxval", "the index is %d, expected %d", (int)at[0], b);
    }},
  {"x(1:3)=w(2:3)", [](World &s) { s.x.view(Domain<1>(1, 1, 3)) = s.w.view(Domain<1>(2, 1, 3)); for (int i = 0; i < 3; ++i) s.X[1 + i] = s.W[2 + i]; }},
  {"v=9", [](World &s) { s.v.view = 9.; for (double &q : s.V) q = 9; }},
  {"barrier", [](World &) { ovxx::parallel::default_communicator().barrier(); }},
  {"setup x=v twice", [](World &s)
    { vp::Assignment<1, B1::block_type, B1::block_type, vp::Chained_assign> a(s.x.view, s.v.view); a(); s.V[1] = 55; s.v.view.put(1, 55.); a(); s.X = s.V; }},
  {"k=m", [](World &s) { s.k.view = s.m.view; s.K = s.M; }},
  {"m=k+1", [](World &s) { s.m.view = s.k.view + 1.f; for (int i = 0; i < 12; ++i) s.M[i] = s.K[i] + 1; }},
  {"t=trans m", [](World &s) { s.t.view = s.m.view.transpose(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) s.T[j * 3 + i] = s.M[i * 4 + j]; }},
  {"allreduce", [](World &s)
    {
      vp::Communicator &c = vp::default_communicator(); int n = c.size();
      eq("allreduce", c.allreduce(ovxx::reduce_sum, (int)c.rank() + 1), n * (n + 1) / 2);
      eq("allreduce", c.allreduce(ovxx::reduce_max, (float)c.rank()), n - 1);
      eq("allreduce", c.allreduce(ovxx::reduce_all_true_bool, c.rank() != 0), 0);
      eq("allreduce", c.allreduce(ovxx::reduce_any_true, (int)(c.rank() == 0 ? 4 : 0)), 1);
    }},
  {"ring", [](World &s)
    {
      vp::Communicator &c = vp::default_communicator(); int n = c.size(), r = c.rank();
      double out[2] = {r * 3. + 1, r * 3. + 2}, in[2] = {0, 0}; 
      vp::Communicator::request_type q;
      c.send((r + 1) % n, out, 2, q); c.recv((r + n - 1) % n, in, 2); c.wait(q);
      int p = (r + n - 1) % n; eq("ring", in[0], p * 3. + 1); eq("ring", in[1], p * 3. + 2);
      c.buf_send((r + 1) % n, out, 2); c.recv((r + n - 1) % n, in, 2);
      eq("ring", in[0], p * 3. + 1);
    }},
  {"split", [](World &)
    {
      vp::Communicator &c = vp::default_communicator(); int n = c.size(), r = c.rank();
      vp::Communicator h = c.split(r % 2); int want = 0, cnt = 0;
      for (int i = 0; i < n; ++i) if (i % 2 == r % 2) { want += i; ++cnt; }
      eq("split", h.size(), cnt); eq("split", h.allreduce(ovxx::reduce_sum, r), want);
    }},
};
static const int NOPS = sizeof ops / sizeof *ops;
static void enumerate(bool t)
{
#ifdef LEN
  int len = LEN;
#else
  int len = 1;
#endif
  static const int B[3][3][2] = {{{3, 4}, {0, 1}, {-1, 0}}, {{1, 2}, {-1, 0}, {-1, -1}}, {{-1, 0}, {-1, -1}, {-1, -1}}};
  int bound = np() < 2 ? -1 : B[len - 1][np() - 2][t];
  long total = 1; for (int i = 0; i < len; ++i) total *= NOPS;
  for (long c = 0; c < total; ++c)
  {
    std::vector<int> seq; long v = c; std::string d = "sequence";
    for (int i = 0; i < len; ++i) { seq.push_back(v % NOPS); v /= NOPS; d += std::string(i ? "; " : " ") + ops[seq[i]].name; }
    par::add(d, [seq]() { World s; for (int o : seq) { ops[o].run(s); } s.check(); }, bound);
  }
}
int main(int argc, char **argv) { return par::run(argc, argv, enumerate); }
