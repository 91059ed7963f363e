// C22: aligned heap allocation, aligned_array ownership, and what blocks ask of an allocator.
#include <ovxx/aligned_allocator.hpp>
#include <ovxx/aligned_array.hpp>
#include <memory>
#include <functional>
#include "mc.hpp"

using namespace ovxx;

// histories of the aligned allocator
template <typename T>
static void heap(char const *tn)
{
  std::vector<size_t> sizes = {0, 1, 3, 8, 33};
  int depth = mc::tier(5, 6);
  struct B { T *p; size_t n; unsigned char tag; };
  // a history is a word over {alloc s} u {free k}
  std::vector<int> h;
  std::function<void(int, int)> rec = [&](int d, int nlive)
  {
    if (mc::next())
    {
      std::string s; for (int o : h) s += o < 100 ? " A" + std::to_string(sizes[o]) : " F#" + std::to_string(o - 100);
      mc::desc("aligned_allocator<%s>%s", tn, s.c_str());
      std::unique_ptr<allocator> a(new aligned_allocator());
      std::vector<B> live; unsigned char tag = 1; bool ok = true;
      auto checkall = [&]() { for (auto &b : live) for (size_t i = 0; i < b.n * sizeof(T); ++i)
          if (((unsigned char *)b.p)[i] != b.tag) { mc::fail("clobbered", "live block overwritten"); ok = false; return; } };
      for (int o : h)
      {
        mc::step();
        if (o < 100)
        {
          B b = {a->allocate<T>(sizes[o]), sizes[o], tag++};
          if (!b.p) { mc::fail("null", "null returned"); ok = false; break; }
          if ((size_t)b.p % OVXX_ALLOC_ALIGNMENT) { mc::fail("misaligned", "%p", (void *)b.p); ok = false; break; }
          for (auto &l : live) if ((char *)b.p < (char *)(l.p + l.n) && (char *)l.p < (char *)(b.p + b.n)) { mc::fail("overlap", "blocks overlap"); ok = false; }
          memset((void *)b.p, b.tag, b.n * sizeof(T));
          live.push_back(b);
          if (live.size() > 1) mc::nontrivial();
        }
        else { B b = live[o - 100]; live.erase(live.begin() + (o - 100)); a->deallocate(b.p, b.n); }
        if (!ok) break;
        checkall();
        uint64_t hs = 3; for (auto &l : live) hs = mc::mix(hs, l.n * 64 + sizeof(T));
        mc::state(hs);
      }
      if (ok) while (!live.empty()) { B b = live.back(); live.pop_back(); a->deallocate(b.p, b.n); checkall(); }
      mc::outcome(live.size());
    }
    if (!d) return;
    for (size_t s = 0; s < sizes.size(); ++s) { h.push_back(s); rec(d - 1, nlive + 1); h.pop_back(); }
    for (int k = 0; k < nlive; ++k) { h.push_back(100 + k); rec(d - 1, nlive - 1); h.pop_back(); }
  };
  rec(depth, 0);
}

// every alignment and size of the three allocation functions
static void align()
{
  for (size_t al = sizeof(void *); al <= 4096; al *= 2)
    for (size_t n = 0; n <= size_t(mc::tier(70, 300)); ++n)
      for (int which = 0; which < 2; ++which)
        if (mc::next())
        {
          mc::desc("%s(%zu, %zu)", which ? "detail::alloc_align" : "alloc_align", al, n);
          char *p[3]; mc::nontrivial();
          for (int k = 0; k < 3; ++k)
          {
            p[k] = which ? (char *)ovxx::detail::alloc_align(al, n) : alloc_align<char>(al, n);
            if (!p[k] && n) mc::fail("null", "null returned");
            if ((size_t)p[k] % al) mc::fail("misaligned", "%p", (void *)p[k]);
            memset(p[k], k + 1, n);
            mc::step();
          }
          for (int k = 0; k < 3; ++k)
            for (size_t i = 0; i < n; ++i) if (p[k][i] != k + 1) { mc::fail("overlap", "block %d overwritten", k); break; }
          for (int k = 0; k < 3; ++k) { if (which) ovxx::detail::free_align(p[k]); else free_align(p[k]); mc::step(); }
          mc::state(mc::mix(al, n * 2 + which)); mc::outcome(1);
        }
  for (size_t n : {size_t(-1) - 4096, size_t(-1) / 2})
    if (mc::next())
    {
      mc::desc("aligned_allocator exhausted by %zu bytes", n);
      std::unique_ptr<allocator> a(new aligned_allocator());
      bool threw = false; mc::step(); mc::nontrivial();
      try { a->allocate<char>(n); } catch (std::bad_alloc const &) { threw = true; }
      if (!threw) mc::fail("exhaustion", "allocation of %zu bytes did not fail", n);
    }
}

// histories over three aligned_array variables; ownership moves on copy and assignment
typedef aligned_array<int> AA;
static void arrays()
{
  int const NV = 3;
  struct M { bool alive; std::vector<int> v; };
  std::vector<int> h;
  // op = kind*9 + i*3 + j ; kinds: 0 construct empty i, 1 construct size, 2 copy i<-j, 3 assign i=j,
  // 4 assign through ref i=ref(j), 5 destroy i, 6 construct from data, 7 construct i from ref(j)
  int depth = mc::tier(4, 5);
  std::function<void(int)> rec = [&](int d)
  {
    bool valid = true;
    // validity by model
    M m[NV] = {{false, {}}, {false, {}}, {false, {}}};
    std::string s;
    int stamp = 10;
    auto apply = [&](int o, bool real, std::unique_ptr<AA> *r) -> bool
    {
      int k = o / 9, i = o / 3 % 3, j = o % 3;
      switch (k)
      {
        case 0: if (m[i].alive || j) return false; m[i] = {true, {}}; if (real) r[i].reset(new AA()); break;
        case 1: case 6:
        {
          if (m[i].alive) return false;
          size_t n = j == 0 ? 0 : j == 1 ? 1 : 5;
          m[i].alive = true; m[i].v.assign(n, 0);
          for (auto &x : m[i].v) x = stamp++;
          if (real)
          {
            if (k == 1) { r[i].reset(new AA(n)); for (size_t q = 0; q < n; ++q) (*r[i])[q] = m[i].v[q]; }
            else r[i].reset(new AA(64, n, m[i].v.data()));
          }
          break;
        }
        case 2: case 7:
          if (m[i].alive || !m[j].alive) return false;
          m[i] = m[j]; m[j].v.clear();
          if (real) { if (k == 2) r[i].reset(new AA(*r[j])); else { aligned_array_ref<int> f = *r[j]; r[i].reset(new AA(f)); } }
          break;
        case 3: case 4:
          if (!m[i].alive || !m[j].alive) return false;
          { std::vector<int> t = m[j].v; m[j].v.clear(); m[i].v = t; }
          if (real) { if (k == 3) *r[i] = *r[j]; else { aligned_array_ref<int> f = *r[j]; *r[i] = f; } }
          break;
        case 5: if (!m[i].alive || j) return false; m[i] = {false, {}}; if (real) r[i].reset(); break;
      }
      return true;
    };
    for (int o : h) if (!apply(o, false, 0)) { valid = false; break; }
    if (!valid) return;
    if (mc::next())
    {
      for (int o : h) s += " " + std::string(o / 9 == 0 ? "new" : o / 9 == 1 ? "size" : o / 9 == 2 ? "copy" : o / 9 == 3 ? "assign" : o / 9 == 4 ? "assignref" : o / 9 == 5 ? "del" : o / 9 == 6 ? "data" : "ref") + std::to_string(o / 3 % 3) + std::to_string(o % 3);
      mc::desc("aligned_array history%s", s.c_str());
      for (auto &x : m) x = {false, {}};
      stamp = 10;
      std::unique_ptr<AA> r[NV];
      for (int o : h)
      {
        apply(o, true, r); mc::step();
        uint64_t hs = 1;
        for (int i = 0; i < NV; ++i)
        {
          hs = mc::mix(hs, m[i].alive ? m[i].v.size() + 1 : 0);
          if (!m[i].alive) continue;
          if (r[i]->size() != m[i].v.size()) { mc::fail("array-size", "array %d has size %zu, expected %zu", i, r[i]->size(), m[i].v.size()); return; }
          if (m[i].v.size() && (size_t)r[i]->get() % 32) mc::fail("misaligned", "array %d", i);
          for (size_t q = 0; q < m[i].v.size(); ++q)
            if ((*r[i])[q] != m[i].v[q]) { mc::fail("array-value", "array %d element %zu is %d, expected %d", i, q, (*r[i])[q], m[i].v[q]); return; }
        }
        mc::state(hs);
      }
      if (h.size() > 1) mc::nontrivial();
      mc::outcome(m[0].v.size() * 100 + m[1].v.size() * 10 + m[2].v.size());
    }
    if (!d) return;
    for (int o = 0; o < 72; ++o) { h.push_back(o); rec(d - 1); h.pop_back(); }
  };
  rec(depth);
}

#include <functional>
static void enumerate() { align(); heap<char>("char"); heap<double>("double"); arrays(); }
int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
