// C22: every history of the huge-page pool allocator up to a depth, against an
// interval model.  mmap/open/remove are replaced so that the pool is the harness's
// own arena (and so that opening or mapping it can be made to fail).
#define OVXX_ENABLE_HUGE_PAGE_ALLOCATOR 1
#include <cassert>
#include <new>
#include <ovxx/huge_page_allocator.hpp>
#include <fcntl.h>
#include <cerrno>
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_close(int);
#define mmap __real_mmap
#define close __real_close
#include "mc.hpp"
#undef mmap
#undef close

static char *arena; static size_t arena_size; static int fail_open, fail_map; static size_t mapped;
extern "C" {
int __wrap_open(char const *, int, ...) { if (fail_open) { errno = ENOENT; return -1; } return 1000; }
int __wrap_remove(char const *) { return 0; }
int __wrap_close(int) { return 0; }
void *__wrap_mmap(void *, size_t n, int, int, int, off_t)
{ mapped = n; if (fail_map || n > arena_size) { errno = ENOMEM; return MAP_FAILED; } return arena; }
}

static size_t const PAGE = 0x1000000;
typedef ovxx::allocator A;

static size_t rnd(size_t n) { if (n < 16) n = 16; return (n + 127) / 128 * 128; }

struct Live { size_t off, req, size; unsigned tag; };

struct World
{
  ovxx::huge_page_allocator *a;
  size_t total;
  std::vector<Live> live;
  unsigned tags;
};

static void mark(World &, Live const &l)
{
  unsigned char v = 0x40 + l.tag % 150;
  size_t n = std::min<size_t>(l.req, 32);
  memset(arena + l.off, v, n);
  if (l.req) arena[l.off + l.req - 1] = v;
}
static bool marked(World &, Live const &l)
{
  unsigned char v = 0x40 + l.tag % 150;
  size_t n = std::min<size_t>(l.req, 32);
  for (size_t i = 0; i < n; ++i) if ((unsigned char)arena[l.off + i] != v) return false;
  return !l.req || (unsigned char)arena[l.off + l.req - 1] == v;
}
// does a contiguous free gap of n bytes exist
static bool gap(World &w, size_t n)
{
  std::vector<Live> s = w.live;
  std::sort(s.begin(), s.end(), [](Live const &a, Live const &b) { return a.off < b.off; });
  size_t at = 0;
  for (auto &l : s) { if (l.off - at >= n) return true; at = l.off + l.size; }
  return w.total - at >= n;
}

static bool do_alloc(World &w, size_t req)
{
  size_t n = rnd(req);
  char *p = 0;
  try { p = static_cast<A *>(w.a)->allocate<char>(req); }
  catch (std::bad_alloc const &) { p = 0; }
  mc::step();
  if (!p)
  {
    if (gap(w, n)) { mc::fail("refused", "allocating %zu bytes failed although a free range of that size exists", req); return false; }
    return true;
  }
  if (p < arena || p + n > arena + w.total || p + n < p)
  { mc::fail("outside", "allocating %zu bytes returned memory outside the pool (offset %ld)", req, long(p - arena)); return false; }
  size_t off = p - arena;
  if (off % 128) { mc::fail("misaligned", "offset %zu is not 128-byte aligned", off); return false; }
  for (auto &l : w.live)
    if (off < l.off + l.size && l.off < off + n)
    { mc::fail("overlap", "allocating %zu bytes returned [%zu,%zu), overlapping live [%zu,%zu)", req, off, off + n, l.off, l.off + l.size); return false; }
  Live l = {off, req, n, w.tags++};
  w.live.push_back(l);
  mark(w, l);
  return true;
}
static bool do_free(World &w, size_t k)
{
  Live l = w.live[k];
  w.live.erase(w.live.begin() + k);
  static_cast<A *>(w.a)->deallocate<char>(arena + l.off, l.req);
  mc::step();
  return true;
}
static bool invariant(World &w)
{
  size_t used = 0;
  for (auto &l : w.live)
  {
    used += l.size;
    if (!marked(w, l)) { mc::fail("clobbered", "live block at %zu (%zu bytes) was overwritten", l.off, l.req); return false; }
  }
  if (w.a->total_avail() != w.total - used)
  { mc::fail("accounting", "total_avail is %zu, %zu bytes are free", w.a->total_avail(), w.total - used); return false; }
  return true;
}
// return everything (in one of two orders), then the whole pool must be one piece again
static bool drain(World &w, int order)
{
  while (!w.live.empty())
  {
    size_t k = order == 0 ? 0 : order == 1 ? w.live.size() - 1 : w.live.size() / 2;
    if (!do_free(w, k) || !invariant(w)) return false;
  }
  // a leak or a lost merge shows here
  size_t whole = w.total;
  if (!do_alloc(w, whole)) return false;
  if (w.live.size() != 1) { mc::fail("fragmented", "after returning everything the whole pool cannot be allocated in one piece"); return false; }
  do_free(w, 0);
  return invariant(w);
}

struct Op { int kind; size_t arg; };
static std::string show(std::vector<Op> const &h)
{
  std::string s;
  for (auto &o : h)
  {
    if (o.kind == 0) s += " A" + std::to_string(o.arg);
    else s += " F#" + std::to_string(o.arg);
  }
  return s;
}

static uint64_t key(World const &w)
{
  // canonical: live set by offset (free list structure follows from the history of frees,
  // so include the order in which live blocks are numbered)
  uint64_t h = 7;
  for (auto &l : w.live) h = mc::mix(mc::mix(h, l.off), l.size);
  return h;
}

static bool fresh(World &w, int pages)
{
  // everything a new allocator may read is garbage
  w.total = size_t(pages) * PAGE;
  w.a = new ovxx::huge_page_allocator("pool", pages);
  w.live.clear(); w.tags = 0;
  return true;
}

static void dfs(std::vector<Op> &h, std::vector<size_t> const &sizes, int depth, int pages, size_t nlive_max)
{
  // execute this history on a fresh allocator
  size_t nlive = 0;
  if (mc::next())
  {
    mc::desc("pool of %d pages, history%s", pages, show(h).c_str());
    static char *dirty = 0; (void)dirty;
    for (int order = 0; order < 3; ++order)
    {
      World w;
      memset(arena, 0xA5, 4096);
      fresh(w, pages);
      bool ok = true;
      for (size_t i = 0; ok && i < h.size(); ++i)
      {
        if (h[i].kind == 0) ok = do_alloc(w, h[i].arg);
        else if (h[i].arg < w.live.size()) ok = do_free(w, h[i].arg);
        ok = ok && invariant(w);
        mc::state(key(w));
      }
      if (ok && w.live.size() > 1) mc::nontrivial();
      if (ok) ok = drain(w, order);
      mc::outcome(key(w));
      delete w.a;
      if (!ok) break;
    }
  }
  if (depth == 0) return;
  // the number of blocks live is not known without running; bound it by the history
  for (auto &o : h) nlive += o.kind == 0 ? 1 : -1;
  for (size_t s : sizes) { h.push_back({0, s}); dfs(h, sizes, depth - 1, pages, nlive_max); h.pop_back(); }
  for (size_t k = 0; k < nlive; ++k)
  { h.push_back({1, k}); dfs(h, sizes, depth - 1, pages, nlive_max); h.pop_back(); }
}

static void enumerate()
{
  arena_size = 130 * PAGE;
  arena = (char *)__real_mmap(0, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::vector<Op> h;
  size_t P = PAGE;
  // coarse sizes: exhaustion, exact fits and merges within a few operations
  std::vector<size_t> coarse = {P / 4, P / 2, P / 2 - 128};
  dfs(h, coarse, mc::tier(6, 7), 1, 8);
  // fine sizes: rounding of sizes, zero and boundary values
  std::vector<size_t> fine = {0, 1, 128, 129, P - 128};
  dfs(h, fine, mc::tier(5, 6), 1, 8);
  std::vector<size_t> whole = {P, P + 1, P - 127, P / 8};
  dfs(h, whole, mc::tier(5, 6), 1, 8);
  // larger pools: sizes beyond one page, and beyond the range of int
  std::vector<size_t> big = {P, 2 * P, P / 2};
  dfs(h, big, mc::tier(5, 6), 3, 8);
  std::vector<size_t> huge = {64 * P, 129 * P, P};
  dfs(h, huge, mc::tier(4, 5), 129, 8);
  // the pool cannot be opened or mapped: every allocation fails, nothing crashes
  for (int f = 0; f < 2; ++f)
    for (size_t s : {size_t(0), size_t(1), P})
      if (mc::next())
      {
        mc::desc("pool that cannot be %s, allocate %zu", f ? "mapped" : "opened", s);
        fail_open = !f; fail_map = f;
        ovxx::huge_page_allocator *a = new ovxx::huge_page_allocator("pool", 1);
        bool threw = false;
        try { static_cast<A *>(a)->allocate<char>(s); } catch (std::bad_alloc const &) { threw = true; }
        if (!threw) mc::fail("nopool", "allocation succeeded without a pool");
        if (a->total_avail() != 0) mc::fail("nopool", "total_avail is %zu without a pool", a->total_avail());
        mc::step(); mc::nontrivial();
        delete a;
        fail_open = fail_map = 0;
      }
}

int main(int argc, char **argv) { return mc::run(argc, argv, enumerate); }
