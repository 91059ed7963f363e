// A model of the MPI layer under an explicit scheduler.
//
// Ranks are forked processes that share one anonymous mapping holding all of
// the communication state.  Exactly one rank runs at a time; every
// communication call is a scheduling point, at which the running rank picks
// the next rank to run from the set of ranks whose pending operation can
// complete.  The environment's freedom (when a send completes, when its
// buffer is read, how early a collective's root returns) is a run parameter:
//   mode 0 'eager'      a send copies its buffer and completes immediately
//   mode 1 'rendezvous' a send completes only when matched; the buffer is read when matched
//   mode 2 'choice'     each send is a choice point between the two
//   mode 3 'late'       a send completes at wait; the buffer is read at match or wait
#include "mpi.h"
#include "fakempi.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <csignal>
#include <atomic>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/futex.h>

namespace
{
int const MAXNP = 8, MAXMSG = 65536, MAXPOST = 65536, MAXCOLL = 32768, MAXCOMM = 4096, MAXCHOICE = 131072;
size_t const ARENA = 24u << 20, FAILBUF = 1u << 16;
int const PARENT = -1;
enum { K_NONE, K_START, K_LOCAL, K_RECV, K_SEND, K_COLL, K_POLL, K_ANY, K_DONE };
enum { C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL, C_SPLIT, C_DUP, C_CREATE };

struct Msg { int src, dst, comm, tag, post; size_t len, off; char captured, want, sync, used, bsend; };
struct Post { int rank, comm, src, tag, msg; char consumed; };
struct Coll { int comm; long seq; int kind, root, op; size_t bytes; unsigned arrived, left; size_t off[MAXNP]; int a[MAXNP], b[MAXNP]; int newcomm[MAXNP]; };
struct Comm { int size; int member[MAXNP]; long seq[MAXNP]; char live[MAXNP]; };
struct RankS { int state; int kind, id; int any[32], nany; long live_types, live_groups, live_comms, live_reqs; int attach; pid_t pid; int inited, finalized; };
struct Shared
{
  std::atomic<int> turn;
  int np, mode, policy, cmd; long scenario;
  int status; // 0 ok, 1 deadlock, 2 livelock, 3 internal limit, 4 replay divergence
  int nmsg, npost, ncoll, ncomm; size_t arena_used;
  long steps, msgs_total, colls_total;
  int nondet, failed;
  unsigned long long outcome;
  int prefix[MAXCHOICE], nprefix;
  int choice[MAXCHOICE], nalts[MAXCHOICE], cost[MAXCHOICE], nchoice;
  RankS r[MAXNP];
  Msg msg[MAXMSG]; Post post[MAXPOST]; Coll coll[MAXCOLL]; Comm comm[MAXCOMM];
  size_t faillen; char failbuf[FAILBUF];
  char arena[ARENA];
};
Shared *sh = 0;
int me = 0;
bool solo = true;

void futex_wait(std::atomic<int> *p, int v, int ms)
{ timespec ts = { ms/1000, (ms%1000)*1000000L }; syscall(SYS_futex, (int*)p, FUTEX_WAIT, v, &ts, 0, 0); }
void futex_wake(std::atomic<int> *p) { syscall(SYS_futex, (int*)p, FUTEX_WAKE, 64, 0, 0, 0); }
void set_turn(int t) { sh->turn.store(t); if (!solo) futex_wake(&sh->turn); }
void wait_turn()
{
  if (solo) return;
  for (int i = 0; i < 300; ++i) { if (sh->turn.load() == me) return; __builtin_ia32_pause(); }
  while (true) { int t = sh->turn.load(); if (t == me) return; futex_wait(&sh->turn, t, 1000); if (getppid() == 1) _exit(0); }
}
void die(char const *why) { fprintf(stderr, "fakempi: %s\n", why); if (sh && !solo) { sh->status = 3; set_turn(PARENT); while (1) pause(); } abort(); }

// ---- datatypes (process local) -------------------------------------------
struct Seg { ptrdiff_t disp; size_t len; };
struct Type { std::vector<Seg> segs; size_t size; ptrdiff_t lb, ub; bool committed, freed, builtin; };
std::vector<Type> &types()
{
  static std::vector<Type> *t = 0;
  if (!t)
  {
    t = new std::vector<Type>(32);
    size_t const sz[] = {0,1,1,1,1,2,2,4,4,8,8,4,8,sizeof(long double),8,8,1,1,1,2,2,4,4,8,8,1,8};
    for (size_t i = 0; i < 32; ++i)
    {
      size_t s = i < sizeof sz/sizeof *sz ? sz[i] : 0;
      Type &y = (*t)[i]; y.size = s; y.lb = 0; y.ub = s; y.committed = y.builtin = s != 0; y.freed = s == 0;
      if (s) y.segs.push_back(Seg{0, s});
    }
  }
  return *t;
}
bool type_ok(MPI_Datatype d) { return d > 0 && (size_t)d < types().size() && !types()[d].freed; }
void add_seg(std::vector<Seg> &v, ptrdiff_t disp, size_t len)
{
  if (!len) return;
  if (!v.empty() && v.back().disp + (ptrdiff_t)v.back().len == disp) { v.back().len += len; return; }
  v.push_back(Seg{disp, len});
}
MPI_Datatype new_type(Type &y)
{
  y.committed = y.freed = y.builtin = false;
  std::vector<Type> &t = types();
  for (size_t i = 32; i < t.size(); ++i) if (t[i].freed && i > 200) { t[i] = y; sh->r[me].live_types++; return i; }
  t.push_back(y); sh->r[me].live_types++; return t.size() - 1;
}
// Build from blocks (displacement, count) of base types.
struct Blk { ptrdiff_t disp; int count; MPI_Datatype base; };
MPI_Datatype from_blocks(std::vector<Blk> const &b)
{
  Type y; y.size = 0; bool first = true; y.lb = y.ub = 0;
  for (size_t i = 0; i < b.size(); ++i)
  {
    Type const &o = types()[b[i].base];
    ptrdiff_t ext = o.ub - o.lb;
    for (int k = 0; k < b[i].count; ++k)
    {
      ptrdiff_t d = b[i].disp + k * ext;
      for (size_t s = 0; s < o.segs.size(); ++s) { add_seg(y.segs, d + o.segs[s].disp, o.segs[s].len); }
      y.size += o.size;
      if (first || d + o.lb < y.lb) y.lb = d + o.lb;
      if (first || d + o.ub > y.ub) y.ub = d + o.ub;
      first = false;
    }
  }
  return new_type(y);
}
void pack(char *out, void const *buf, int count, Type const &t)
{
  ptrdiff_t ext = t.ub - t.lb;
  for (int c = 0; c < count; ++c)
    for (size_t s = 0; s < t.segs.size(); ++s)
    { memcpy(out, (char const *)buf + c * ext + t.segs[s].disp, t.segs[s].len); out += t.segs[s].len; }
}
void unpack(void *buf, int count, Type const &t, char const *in, size_t len)
{
  ptrdiff_t ext = t.ub - t.lb;
  for (int c = 0; c < count; ++c)
    for (size_t s = 0; s < t.segs.size() && len; ++s)
    {
      size_t l = std::min(len, t.segs[s].len);
      memcpy((char *)buf + c * ext + t.segs[s].disp, in, l); in += l; len -= l;
    }
}
bool overlaps(int count, Type const &t)
{
  std::vector<std::pair<ptrdiff_t, ptrdiff_t> > v; ptrdiff_t ext = t.ub - t.lb;
  for (int c = 0; c < count; ++c) for (size_t s = 0; s < t.segs.size(); ++s)
    v.push_back(std::make_pair(c*ext + t.segs[s].disp, c*ext + t.segs[s].disp + (ptrdiff_t)t.segs[s].len));
  std::sort(v.begin(), v.end());
  for (size_t i = 1; i < v.size(); ++i) if (v[i].first < v[i-1].second) return true;
  return false;
}

// ---- groups ---------------------------------------------------------------
struct Group { std::vector<int> m; bool freed; };
std::vector<Group> &groups()
{ static std::vector<Group> *g = 0; if (!g) { g = new std::vector<Group>(2); (*g)[0].freed = true; (*g)[1].freed = false; } return *g; }
MPI_Group new_group(std::vector<int> const &m)
{
  if (m.empty()) return MPI_GROUP_EMPTY;
  Group g; g.m = m; g.freed = false;
  for (size_t i = 2; i < groups().size(); ++i) if (groups()[i].freed && i > 100) { groups()[i] = g; sh->r[me].live_groups++; return i; }
  groups().push_back(g); sh->r[me].live_groups++; return groups().size() - 1;
}
bool group_ok(MPI_Group g) { return g > 0 && (size_t)g < groups().size() && !groups()[g].freed; }

// ---- communicators ---------------------------------------------------------
int alloc_comm() { if (sh->ncomm >= MAXCOMM) die("too many communicators"); int c = sh->ncomm++; memset(&sh->comm[c], 0, sizeof(Comm)); return c; }
int comm_rank(MPI_Comm c) { for (int i = 0; i < sh->comm[c].size; ++i) if (sh->comm[c].member[i] == me) return i; return -1; }
bool comm_ok(MPI_Comm c) { return c > 0 && c < sh->ncomm && sh->comm[c].live[me]; }

void init_shared(int np)
{
  if (!sh) sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); abort(); }
  sh->turn = PARENT; sh->np = np; sh->ncomm = 3; sh->nmsg = sh->npost = sh->ncoll = 0; sh->arena_used = 0; sh->nchoice = sh->nprefix = 0;
  memset(sh->comm, 0, 3 * sizeof(Comm)); memset(sh->r, 0, sizeof sh->r);
  sh->comm[1].size = np;
  for (int i = 0; i < np; ++i) { sh->comm[1].member[i] = i; sh->comm[1].live[i] = 1; sh->comm[2].live[i] = 1; }
  sh->comm[2].size = 1;
}
void ensure() { if (!sh) { init_shared(1); solo = true; me = 0; } }

size_t arena(size_t n)
{ size_t o = sh->arena_used; sh->arena_used += (n + 15) & ~size_t(15); if (sh->arena_used > ARENA) die("arena exhausted"); return o; }

// ---- pending sends ---------------------------------------------------------
struct Pend { int msg; void const *buf; int count; Type type; std::vector<char> snap; bool active; };
std::vector<Pend> pend; // sends of this rank whose buffer still belongs to the layer

void capture(Pend &p)
{
  Msg &m = sh->msg[p.msg];
  if (!m.captured) { m.off = arena(m.len); pack(sh->arena + m.off, p.buf, p.count, p.type); m.captured = 1; }
}
void check_pending()
{
  std::vector<char> now;
  for (size_t i = 0; i < pend.size(); ++i)
  {
    if (!pend[i].active) continue;
    now.resize(pend[i].snap.size());
    pack(now.data(), pend[i].buf, pend[i].count, pend[i].type);
    if (now != pend[i].snap)
    {
      Msg &m = sh->msg[pend[i].msg];
      fk::fail("sendbuf-modified", "send buffer of a pending send %d->%d (%zu bytes) changed before the send completed", m.src, m.dst, m.len);
      pend[i].snap = now;
    }
  }
}
void progress() { for (size_t i = 0; i < pend.size(); ++i) if (pend[i].active && sh->msg[pend[i].msg].want) capture(pend[i]); }
bool has_progress(int r)
{ for (int i = 0; i < sh->nmsg; ++i) if (sh->msg[i].src == r && sh->msg[i].want && !sh->msg[i].captured) return true; return false; }

bool bind(Post &p, int pi, Msg &m, int mi)
{
  if (m.post >= 0 || p.msg >= 0 || m.dst != p.rank || m.comm != p.comm) return false;
  if (p.src != MPI_ANY_SOURCE && p.src != m.src) return false;
  if (p.tag != MPI_ANY_TAG && p.tag != m.tag) return false;
  p.msg = mi; m.post = pi; m.want = 1; return true;
}
void match_post(int pi) { for (int i = 0; i < sh->nmsg; ++i) if (bind(sh->post[pi], pi, sh->msg[i], i)) return; }
void match_msg(int mi) { for (int i = 0; i < sh->npost; ++i) if (bind(sh->post[i], i, sh->msg[mi], mi)) return; }

bool coll_ready(Coll const &c, int r)
{
  Comm const &k = sh->comm[c.comm]; unsigned all = (1u << k.size) - 1; int cr = -1;
  for (int i = 0; i < k.size; ++i) if (k.member[i] == r) cr = i;
  switch (c.kind)
  {
    case C_BCAST: case C_SCATTER:
      if (cr == c.root) return sh->mode == 0 || c.arrived == all;
      return c.arrived & (1u << c.root);
    case C_REDUCE: case C_GATHER: return cr == c.root ? c.arrived == all : (sh->mode == 0 || c.arrived == all);
    case C_SCAN: { unsigned need = (2u << cr) - 1; return (c.arrived & need) == need; }
    default: return c.arrived == all;
  }
}
bool ready_id(int r, int id)
{
  (void)r;
  if (id >= 0) { Post &p = sh->post[id]; return p.msg >= 0 && sh->msg[p.msg].captured; }
  Msg &m = sh->msg[-id - 1];
  return !m.sync || m.captured;
}
bool ready(int r)
{
  RankS &k = sh->r[r];
  switch (k.kind)
  {
    case K_START: case K_LOCAL: case K_POLL: return true;
    case K_RECV: return ready_id(r, k.id);
    case K_SEND: return ready_id(r, -k.id - 1);
    case K_ANY: for (int i = 0; i < k.nany; ++i) if (ready_id(r, k.any[i])) return true; return false;
    case K_COLL: return coll_ready(sh->coll[k.id], r);
    default: return false;
  }
}
int choose(int n, int def, int const *cost)
{
  if (n <= 1) return 0;
  int c = def;
  if (sh->nchoice < sh->nprefix) { c = sh->prefix[sh->nchoice]; if (c >= n) { sh->status = 4; c = 0; } }
  if (sh->nchoice >= MAXCHOICE) die("too many choice points");
  sh->choice[sh->nchoice] = c; sh->nalts[sh->nchoice] = n; sh->cost[sh->nchoice] = cost ? *cost : 0;
  sh->nchoice++;
  return c;
}
// Pick the next rank; the caller holds the turn.  Returns the chosen rank or PARENT.
int pick()
{
  int en[MAXNP], n = 0, pol[MAXNP], np_ = 0; bool alldone = true; int cost = 0;
  if (++sh->steps > 200000) { sh->status = 2; return PARENT; }
  auto ok = [](int r) { return sh->r[r].kind != K_DONE && (ready(r) || has_progress(r)); };
  bool cur = me >= 0 && ok(me) && sh->r[me].kind != K_POLL;
  if (cur && sh->policy != 2) en[n++] = me;
  if (sh->policy == 1) { for (int r = sh->np - 1; r >= 0; --r) if (!(cur && r == me) && ok(r)) { if (sh->r[r].kind == K_POLL) pol[np_++] = r; else en[n++] = r; } }
  else if (sh->policy == 2) { int b = me < 0 ? 0 : me; for (int i = 1; i <= sh->np; ++i) { int r = (b + i) % sh->np; if (ok(r)) { if (sh->r[r].kind == K_POLL) pol[np_++] = r; else en[n++] = r; } } }
  else for (int r = 0; r < sh->np; ++r) if (!(cur && r == me) && ok(r)) { if (sh->r[r].kind == K_POLL) pol[np_++] = r; else en[n++] = r; }
  for (int i = 0; i < np_; ++i) en[n++] = pol[i];
  for (int r = 0; r < sh->np; ++r) if (sh->r[r].kind != K_DONE) alldone = false;
  if (alldone) return PARENT;
  if (!n) { sh->status = 1; return PARENT; }
  cost = cur ? 1 : 0; // leaving a runnable rank is a preemption
  return en[choose(n, 0, &cost)];
}
void block(int kind, int id)
{
  RankS &k = sh->r[me];
  k.kind = kind; k.id = id;
  check_pending();
  if (solo)
  {
    progress();
    if (!ready(me)) { fprintf(stderr, "fakempi: deadlock in a single process\n"); abort(); }
    k.kind = K_NONE; return;
  }
  while (true)
  {
    int n = pick();
    if (n != me) { set_turn(n); wait_turn(); }
    progress();
    if (ready(me)) break;
  }
  k.kind = K_NONE;
}

struct Req { int kind; int msg; int post; void *buf; int count; Type type; bool live; }; // kind 1 send, 2 recv
std::vector<Req> &reqs() { static std::vector<Req> *r = 0; if (!r) r = new std::vector<Req>(1); return *r; }
int new_req(Req const &q)
{
  for (size_t i = 1; i < reqs().size(); ++i) if (!reqs()[i].live) { reqs()[i] = q; reqs()[i].live = true; sh->r[me].live_reqs++; return i; }
  reqs().push_back(q); reqs().back().live = true; sh->r[me].live_reqs++; return reqs().size() - 1;
}
int err(int code, char const *what) { fk::fail("mpi-misuse", "%s", what); return code; }
int common(MPI_Comm c, int count, MPI_Datatype t, char const *fn)
{
  ensure();
  if (sh->r[me].finalized) { fk::fail("mpi-misuse", "%s after MPI_Finalize", fn); return MPI_ERR_OTHER; }
  if (!sh->r[me].inited) { fk::fail("mpi-misuse", "%s before MPI_Init", fn); return MPI_ERR_OTHER; }
  if (!comm_ok(c)) { fk::fail("mpi-misuse", "%s on an invalid communicator", fn); return MPI_ERR_COMM; }
  if (t >= 0) {
    if (!type_ok(t)) { fk::fail("mpi-misuse", "%s with an invalid or freed datatype", fn); return MPI_ERR_TYPE; }
    if (!types()[t].committed) { fk::fail("mpi-misuse", "%s with an uncommitted datatype", fn); return MPI_ERR_TYPE; }
    if (count < 0) { fk::fail("mpi-misuse", "%s with a negative count", fn); return MPI_ERR_COUNT; } }
  return 0;
}
int post_send(void const *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm c, int how, bool blocking, MPI_Request *rq)
{ // how: 0 standard, 1 buffered, 2 synchronous
  if (rq) *rq = MPI_REQUEST_NULL;
  if (int e = common(c, count, t, "send")) return e;
  if (dest == MPI_PROC_NULL) return 0;
  if (dest < 0 || dest >= sh->comm[c].size) return err(MPI_ERR_RANK, "send to an invalid rank");
  if (tag < 0) return err(MPI_ERR_TAG, "send with an invalid tag");
  block(K_LOCAL, 0);
  if (sh->nmsg >= MAXMSG) die("too many messages");
  Type const &ty = types()[t];
  size_t len = ty.size * count;
  if (how == 1)
  {
    size_t used = len + MPI_BSEND_OVERHEAD;
    for (int i = 0; i < sh->nmsg; ++i) if (sh->msg[i].bsend && sh->msg[i].src == me && sh->msg[i].post < 0) used += sh->msg[i].len + MPI_BSEND_OVERHEAD;
    if (used > (size_t)sh->r[me].attach) return MPI_ERR_BUFFER;
  }
  int mi = sh->nmsg++;
  Msg &m = sh->msg[mi];
  memset(&m, 0, sizeof m); m.src = me; m.dst = sh->comm[c].member[dest]; m.comm = c; m.tag = tag; m.post = -1; m.len = len; m.used = 1; m.bsend = how == 1;
  sh->msgs_total++;
  int mode = sh->mode;
  if (how == 1) mode = 0; else if (how == 2) mode = 1;
  else if (mode == 2) mode = choose(2, 0, 0);
  m.sync = mode == 1;
  Pend p; p.msg = mi; p.buf = buf; p.count = count; p.type = ty; p.active = true;
  p.snap.resize(len); pack(p.snap.data(), buf, count, ty);
  if (mode == 0) { m.off = arena(len); memcpy(sh->arena + m.off, p.snap.data(), len); m.captured = 1; if (how == 1 || blocking) p.active = false; }
  size_t pi = 0;
  for (; pi < pend.size(); ++pi) if (!pend[pi].active) break;
  if (p.active) { if (pi < pend.size()) pend[pi] = p; else pend.push_back(p); }
  match_msg(mi);
  if (rq && !blocking)
  {
    Req q; q.kind = 1; q.msg = mi; q.post = -1; q.buf = 0; q.count = 0; *rq = new_req(q);
  }
  else if (p.active)
  {
    if (mode == 1) block(K_SEND, mi);
    for (size_t i = 0; i < pend.size(); ++i) if (pend[i].active && pend[i].msg == mi) { capture(pend[i]); pend[i].active = false; }
  }
  return 0;
}
int post_recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *rq)
{
  *rq = MPI_REQUEST_NULL;
  if (int e = common(c, count, t, "recv")) return e;
  if (src == MPI_PROC_NULL) return 0;
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= sh->comm[c].size)) return err(MPI_ERR_RANK, "receive from an invalid rank");
  if (src == MPI_ANY_SOURCE || tag == MPI_ANY_TAG) sh->nondet = 1;
  Type const &ty = types()[t];
  if (overlaps(count, ty)) fk::fail("recv-overlap", "receive datatype writes the same bytes twice");
  block(K_LOCAL, 0);
  if (sh->npost >= MAXPOST) die("too many receives");
  int pi = sh->npost++;
  Post &p = sh->post[pi]; p.rank = me; p.comm = c; p.src = src == MPI_ANY_SOURCE ? src : sh->comm[c].member[src]; p.tag = tag; p.msg = -1; p.consumed = 0;
  Req q; q.kind = 2; q.msg = -1; q.post = pi; q.buf = buf; q.count = count; q.type = ty;
  match_post(pi);
  *rq = new_req(q);
  return 0;
}
int complete(MPI_Request *rq, MPI_Status *st)
{
  Req q = reqs()[*rq];
  int rc = 0;
  if (q.kind == 1)
  {
    for (size_t i = 0; i < pend.size(); ++i) if (pend[i].active && pend[i].msg == q.msg) { capture(pend[i]); pend[i].active = false; }
    match_msg(q.msg);
  }
  else
  {
    Post &p = sh->post[q.post]; Msg &m = sh->msg[p.msg]; p.consumed = 1;
    size_t cap = q.type.size * q.count, len = m.len;
    if (len > cap) { rc = MPI_ERR_TRUNCATE; fk::fail("truncate", "message %d->%d of %zu bytes received into %zu bytes", m.src, m.dst, len, cap); len = cap; }
    unpack(q.buf, q.count, q.type, sh->arena + m.off, len);
    if (st) { st->MPI_TAG = m.tag; st->MPI_ERROR = rc; st->fake_bytes = len; st->MPI_SOURCE = -1; Comm &k = sh->comm[m.comm]; for (int i = 0; i < k.size; ++i) if (k.member[i] == m.src) st->MPI_SOURCE = i; }
  }
  reqs()[*rq].live = false; sh->r[me].live_reqs--; *rq = MPI_REQUEST_NULL;
  return rc;
}
bool req_ok(MPI_Request r) { return r > 0 && (size_t)r < reqs().size() && reqs()[r].live; }
int req_id(MPI_Request r) { Req &q = reqs()[r]; return q.kind == 1 ? -q.msg - 1 : q.post; }

// ---- collectives ------------------------------------------------------------
Coll *enter(MPI_Comm c, int kind, int root, int op, size_t bytes, void const *data, size_t len, int a, int b, char const *fn)
{
  block(K_LOCAL, 0);
  Comm &k = sh->comm[c]; int cr = comm_rank(c); long seq = k.seq[cr]++;
  Coll *s = 0;
  for (int i = sh->ncoll - 1; i >= 0; --i) if (sh->coll[i].comm == c && sh->coll[i].seq == seq) { s = &sh->coll[i]; break; }
  if (!s)
  {
    if (sh->ncoll >= MAXCOLL) die("too many collectives");
    s = &sh->coll[sh->ncoll++]; memset(s, 0, sizeof *s);
    s->comm = c; s->seq = seq; s->kind = kind; s->root = root; s->op = op; s->bytes = bytes; sh->colls_total++;
  }
  else if (s->kind != kind || s->root != root || s->op != op || s->bytes != bytes)
  {
    fk::fail("collective-mismatch", "%s does not match the collective other ranks entered (kind %d/%d root %d/%d op %d/%d bytes %zu/%zu)", fn, s->kind, kind, s->root, root, s->op, op, s->bytes, bytes);
    sh->status = 1; set_turn(PARENT); if (solo) abort(); while (1) pause();
  }
  if (data) { s->off[cr] = arena(len); memcpy(sh->arena + s->off[cr], data, len); }
  s->a[cr] = a; s->b[cr] = b; s->arrived |= 1u << cr;
  block(K_COLL, s - sh->coll);
  return s;
}
template <typename T> T apply1(int op, T x, T y)
{
  switch (op)
  {
    case MPI_SUM: return x + y; case MPI_PROD: return x * y; case MPI_MAX: return x > y ? x : y; case MPI_MIN: return x < y ? x : y;
    case MPI_LAND: return x && y; case MPI_LOR: return x || y; case MPI_LXOR: return !x != !y;
  }
  die("bad op"); return x;
}
template <typename T> T bits(int op, T x, T y) { return op == MPI_BAND ? (x & y) : op == MPI_BOR ? (x | y) : (x ^ y); }
template <typename T> void red(int op, T *x, T const *y, size_t n)
{ for (size_t i = 0; i < n; ++i) if (op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR) x[i] = bits(op, x[i], y[i]); else x[i] = apply1(op, x[i], y[i]); }
template <typename T> void redf(int op, T *x, T const *y, size_t n) { for (size_t i = 0; i < n; ++i) x[i] = apply1(op, x[i], y[i]); }
int combine(int op, MPI_Datatype t, void *x, void const *y, size_t n)
{
  bool bit = op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR;
  switch (t)
  {
    case MPI_BYTE:
      // MPI defines only bitwise operations on MPI_BYTE
      if (!bit) return err(MPI_ERR_OP, "non-bitwise reduction of MPI_BYTE");
      red(op, (unsigned char*)x, (unsigned char const*)y, n); return 0;
    case MPI_CHAR: return err(MPI_ERR_OP, "reduction of MPI_CHAR");
    case MPI_SIGNED_CHAR: case MPI_INT8_T: red(op, (signed char*)x, (signed char const*)y, n); return 0;
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: red(op, (unsigned char*)x, (unsigned char const*)y, n); return 0;
    case MPI_C_BOOL: red(op, (unsigned char*)x, (unsigned char const*)y, n); return 0;
    case MPI_SHORT: case MPI_INT16_T: red(op, (short*)x, (short const*)y, n); return 0;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: red(op, (unsigned short*)x, (unsigned short const*)y, n); return 0;
    case MPI_INT: case MPI_INT32_T: red(op, (int*)x, (int const*)y, n); return 0;
    case MPI_UNSIGNED: case MPI_UINT32_T: red(op, (unsigned*)x, (unsigned const*)y, n); return 0;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: red(op, (long*)x, (long const*)y, n); return 0;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red(op, (unsigned long*)x, (unsigned long const*)y, n); return 0;
    case MPI_FLOAT: if (bit || op == MPI_LAND || op == MPI_LOR || op == MPI_LXOR) return err(MPI_ERR_OP, "logical reduction of floats"); redf(op, (float*)x, (float const*)y, n); return 0;
    case MPI_DOUBLE: if (bit || op == MPI_LAND || op == MPI_LOR || op == MPI_LXOR) return err(MPI_ERR_OP, "logical reduction of doubles"); redf(op, (double*)x, (double const*)y, n); return 0;
    case MPI_LONG_DOUBLE: if (bit) return err(MPI_ERR_OP, "bitwise reduction of long double"); redf(op, (long double*)x, (long double const*)y, n); return 0;
  }
  return err(MPI_ERR_OP, "reduction of a derived datatype");
}
void release(Coll *) {}
} // namespace

// ============================================================================
namespace fk
{
int rank() { return me < 0 ? 0 : me; }
int np() { return sh ? sh->np : 1; }
void fail(char const *key, char const *fmt, ...)
{
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (solo || !sh) { fprintf(stdout, "FKFAIL\t%s\t%s\n", key, b); fflush(stdout); return; }
  sh->failed++;
  char line[1200]; int n = snprintf(line, sizeof line, "%s\trank %d of %d: %s\n", key, me, sh->np, b);
  if (sh->faillen + n < FAILBUF) { memcpy(sh->failbuf + sh->faillen, line, n); sh->faillen += n; sh->failbuf[sh->faillen] = 0; }
}
void point() { ensure(); block(K_LOCAL, 0); }
unsigned long long hash(void const *p, size_t n, unsigned long long h)
{ for (size_t i = 0; i < n; ++i) { h ^= ((unsigned char const *)p)[i]; h *= 1099511628211ull; } return h; }
void outcome(unsigned long long h) { if (sh) sh->outcome ^= h * (2 * rank() + 1); }

namespace
{
struct Res { int status; std::vector<int> choice, nalts, cost; std::string fails; unsigned long long outcome; int crashed_rank; int sig; };
int g_np; Model *g_m; bool g_up = false;
struct Base { long types, groups, comms, reqs; } base[MAXNP];

void child_loop()
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  while (true)
  {
    wait_turn();
    RankS &k = sh->r[me];
    if (k.kind != K_START) { fprintf(stderr, "child woken in state %d\n", k.kind); _exit(9); }
    k.kind = K_NONE;
    if (sh->cmd == 3) { _exit(0); }
    pend.clear();
    try
    {
      if (sh->cmd == 0) { if (g_m->init) g_m->init(); }
      else if (sh->cmd == 2) { if (g_m->fini) g_m->fini(); }
      else g_m->body(sh->scenario);
    }
    catch (std::exception const &e) { fk::fail("exception", "uncaught exception: %s", e.what()); }
    check_pending();
    k.kind = K_DONE;
    int n = pick();
    set_turn(n);
  }
}
void spawn()
{
  init_shared(g_np);
  solo = false;
  fflush(stdout); fflush(stderr);
  for (int r = 0; r < g_np; ++r)
  {
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { me = r; child_loop(); _exit(0); }
    sh->r[r].pid = p;
  }
  me = PARENT; g_up = true;
}
void reap()
{
  for (int r = 0; r < g_np; ++r) if (sh->r[r].pid > 0) { kill(sh->r[r].pid, SIGKILL); waitpid(sh->r[r].pid, 0, 0); sh->r[r].pid = 0; }
  g_up = false;
}
Res run(int cmd, long scenario, int mode, int policy, std::vector<int> const &prefix)
{
  Res res; res.crashed_rank = -1; res.sig = 0;
  sh->cmd = cmd; sh->scenario = scenario; sh->mode = mode; sh->policy = policy;
  sh->status = 0; sh->nmsg = sh->npost = sh->ncoll = 0; sh->arena_used = 0; sh->steps = 0; sh->nchoice = 0; sh->faillen = 0; sh->failbuf[0] = 0; sh->outcome = 0; sh->failed = 0;
  sh->nprefix = std::min<int>(prefix.size(), MAXCHOICE);
  for (int i = 0; i < sh->nprefix; ++i) sh->prefix[i] = prefix[i];
  for (int r = 0; r < g_np; ++r) sh->r[r].kind = K_START;
  for (int i = 1; i < sh->ncomm; ++i) memset(sh->comm[i].seq, 0, sizeof sh->comm[i].seq);
  me = PARENT;
  set_turn(pick());
  double waited = 0;
  while (true)
  {
    int t = sh->turn.load();
    if (t == PARENT) break;
    for (int i = 0; i < 200 && sh->turn.load() != PARENT; ++i) __builtin_ia32_pause();
    t = sh->turn.load();
    if (t == PARENT) break;
    long steps = sh->steps;
    futex_wait(&sh->turn, t, 20);
    if (sh->turn.load() == PARENT) break;
    if (sh->steps == steps && sh->turn.load() == t) waited += 0.02; else waited = 0;
    if (waited >= 0.02)
      for (int r = 0; r < g_np; ++r)
      { int st; if (sh->r[r].pid > 0 && waitpid(sh->r[r].pid, &st, WNOHANG) == sh->r[r].pid) { res.crashed_rank = r; res.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st); sh->r[r].pid = 0; } }
    if (res.crashed_rank >= 0) break;
    if (waited > 60) { sh->status = 2; break; }
  }
  res.status = sh->status; res.outcome = sh->outcome; res.fails = sh->failbuf;
  for (int i = 0; i < sh->nchoice; ++i) { res.choice.push_back(sh->choice[i]); res.nalts.push_back(sh->nalts[i]); res.cost.push_back(sh->cost[i]); }
  char b[256];
  if (res.crashed_rank >= 0) { snprintf(b, sizeof b, "crash\trank %d of %d died (signal/exit %d)\n", res.crashed_rank, g_np, res.sig); res.fails += b; }
  else if (res.status == 1)
  {
    std::string w;
    for (int r = 0; r < g_np; ++r) { RankS &k = sh->r[r]; char c[96]; snprintf(c, sizeof c, " rank %d:%s", r, k.kind == K_DONE ? "finished" : k.kind == K_RECV ? "in receive" : k.kind == K_SEND ? "in send/wait" : k.kind == K_COLL ? "in collective" : "blocked"); w += c; }
    res.fails += "deadlock\tno rank can proceed:" + w + "\n";
  }
  else if (res.status == 2) res.fails += "hang\tno progress\n";
  else if (res.status == 4) res.fails += "INTERNAL\treplay diverged\n";
  else if (res.status == 3) res.fails += "INTERNAL\tlimit exceeded\n";
  else
  {
    if (g_m->check_leaks && cmd == 1)
    {
      int um = 0, up = 0; std::string d;
      for (int i = 0; i < sh->nmsg; ++i) if (sh->msg[i].post < 0) { um++; snprintf(b, sizeof b, " %d->%d(%zu bytes)", sh->msg[i].src, sh->msg[i].dst, sh->msg[i].len); d += b; }
      for (int i = 0; i < sh->npost; ++i) if (!sh->post[i].consumed) up++;
      if (um) { res.fails += "unreceived\tmessages never received:" + d + "\n"; }
      if (up) { snprintf(b, sizeof b, "unmatched-recv\t%d receives never completed\n", up); res.fails += b; }
      for (int r = 0; r < g_np; ++r) if (sh->r[r].live_reqs) { snprintf(b, sizeof b, "request-leak\trank %d has %ld requests never completed\n", r, sh->r[r].live_reqs); res.fails += b; }
      for (int i = 0; i < sh->ncoll; ++i) if (sh->coll[i].arrived != (1u << sh->comm[sh->coll[i].comm].size) - 1) { snprintf(b, sizeof b, "collective-partial\ta collective (kind %d) was entered by only some ranks (mask %x)\n", sh->coll[i].kind, sh->coll[i].arrived); res.fails += b; }
    }
  }
  return res;
}
void printcase(std::string const &s) { std::string t = s; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\t' || t[i] == '\n') t[i] = ' '; fputs(t.c_str(), stdout); }
} // namespace

static double nowsec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv, Model &m)
{
  long shard = 0, nshard = 1, only = -1; int np = 2; long maxdfs = 200000; int omode = -1, opolicy = 0; std::vector<int> oprefix; bool hasprefix = false; bool list = false; double budget = 1e9; int forcebound = -2;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--np") np = atoi(val().c_str());
    else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%ld/%ld", &shard, &nshard); }
    else if (a == "--only") only = atol(val().c_str());
    else if (a == "--mode") omode = atoi(val().c_str());
    else if (a == "--policy") opolicy = atoi(val().c_str());
    else if (a == "--maxdfs") maxdfs = atol(val().c_str());
    else if (a == "--bound") forcebound = atoi(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--list") list = true;
    else if (a == "--prefix") { hasprefix = true; std::string v = val(); if (v == "none") v.clear(); size_t p = 0; while (p < v.size()) { oprefix.push_back(atoi(v.c_str() + p)); p = v.find(',', p); if (p == std::string::npos) break; ++p; } }
  }
  if (np < 1 || np > MAXNP) return 2;
  g_np = np; g_m = &m;
  init_shared(np);
  long n = m.count();
  if (list) { for (long i = 0; i < n; ++i) printf("%ld\t%s\n", i, m.describe(i).c_str()); return 0; }
  long runs = 0, scen = 0, choicepts = 0, dfs_scen = 0, dfs_runs = 0, capped = 0, steps = 0, msgs = 0, maxch = 0; std::set<unsigned long long> outcomes; long nfail = 0; std::map<std::string, int> perkey;
  double t0 = nowsec();
  auto report = [&](long s, int mode, int policy, Res const &r, std::vector<int> const &ch)
  {
    size_t p = 0;
    while (p < r.fails.size())
    {
      size_t e = r.fails.find('\n', p); if (e == std::string::npos) e = r.fails.size();
      std::string line = r.fails.substr(p, e - p); p = e + 1;
      size_t tab = line.find('\t'); std::string key = line.substr(0, tab), msg = tab == std::string::npos ? "" : line.substr(tab + 1);
      if (perkey[key]++ >= 40) continue;
      printf("FAIL\t%s\t", key.c_str()); printcase(m.describe(s));
      printf("\t"); printcase(msg);
      printf("\t--np %d --only %ld --mode %d --policy %d --prefix ", np, s, mode, policy);
      for (size_t i = 0; i < ch.size(); ++i) printf("%s%d", i ? "," : "", ch[i]);
      printf(ch.empty() ? "none\n" : "\n"); nfail++;
    }
    fflush(stdout);
  };
  auto ensure_up = [&]() -> bool
  {
    if (g_up) return true;
    spawn();
    Res r = run(0, -1, 0, 0, std::vector<int>());
    if (!r.fails.empty()) { printf("FAIL\tinit\tlibrary initialisation on %d ranks\t", np); printcase(r.fails); printf("\t--np %d --only -2\n", np); reap(); return false; }
    return true;
  };
  if (!ensure_up()) { printf("DONE\n"); return 0; }
  std::vector<Base> prev(np);
  auto snapshot = [&]() { for (int r = 0; r < np; ++r) { prev[r].types = sh->r[r].live_types; prev[r].groups = sh->r[r].live_groups; prev[r].comms = sh->r[r].live_comms; } };
  auto leaks = [&]() -> std::string
  {
    std::string s; char b[200];
    for (int r = 0; r < np; ++r)
    {
      if (sh->r[r].live_types != prev[r].types) { snprintf(b, sizeof b, "type-leak\trank %d: datatypes alive went from %ld to %ld\n", r, prev[r].types, sh->r[r].live_types); s += b; }
      if (sh->r[r].live_groups != prev[r].groups) { snprintf(b, sizeof b, "group-leak\trank %d: groups alive went from %ld to %ld\n", r, prev[r].groups, sh->r[r].live_groups); s += b; }
      if (sh->r[r].live_comms != prev[r].comms) { snprintf(b, sizeof b, "comm-leak\trank %d: communicators alive went from %ld to %ld\n", r, prev[r].comms, sh->r[r].live_comms); s += b; }
    }
    return s;
  };
  int nsample = 0;
  for (long s = 0; s < n; ++s)
  {
    if (only == -2) break;
    if (only >= 0 ? s != only : s % nshard != shard) continue;
    if (nowsec() - t0 > budget) { printf("STAT\tbudget_cut_scenarios\t%ld\n", (n - s) / nshard); break; }
    scen++;
    if (sh->ncomm > MAXCOMM - 256) { reap(); if (!ensure_up()) break; }
    int bound = forcebound != -2 ? forcebound : m.bound ? m.bound(s) : -1;
    struct MP { int mode, policy; }; std::vector<MP> mp;
    // a replay runs the base schedule first: leaks and schedule dependence are relative to it
    if (omode >= 0) { mp.push_back(MP{0, 0}); mp.push_back(MP{omode, opolicy}); }
    else { MP a[] = {{0,0},{1,0},{1,1},{3,2}}; mp.assign(a, a + 4); }
    bool bad = false; unsigned long long oc0 = 0; bool first = true;
    for (size_t k = 0; k < mp.size() && !bad; ++k)
    {
      if (!g_up && !ensure_up()) { bad = true; break; }
      bool check = k > 0; snapshot();
      Res r = run(1, s, mp[k].mode, mp[k].policy, hasprefix && k ? oprefix : std::vector<int>());
      runs++; steps += sh->steps; msgs += sh->nmsg; choicepts += r.choice.size(); outcomes.insert(r.outcome);
      if (r.fails.empty() && check && m.check_leaks) r.fails += leaks();
      if (r.fails.empty()) { if (first) { oc0 = r.outcome; first = false; } else if (r.outcome != oc0) r.fails += "schedule-dependent\tthe result depends on the schedule\n"; }
      if (!r.fails.empty()) { report(s, mp[k].mode, mp[k].policy, r, hasprefix && k ? oprefix : std::vector<int>()); bad = true; reap(); }
      if (nsample < 3) { nsample++; printf("SAMPLE\t"); printcase(m.describe(s)); printf(" [mode %d, policy %d: %ld steps, %d messages, %zu choice points]\n", mp[k].mode, mp[k].policy, sh->steps, sh->nmsg, r.choice.size()); }
    }
    if (!bad && bound >= 0 && omode < 0)
    {
      // Depth-first enumeration of all schedules and send-completion choices with at most `bound` preemptions.
      dfs_scen++; long cnt = 0; bool cut = false;
      std::vector<std::vector<int> > stack(1);
      while (!stack.empty() && !bad)
      {
        std::vector<int> pre = stack.back(); stack.pop_back();
        if (cnt >= maxdfs || nowsec() - t0 > budget) { cut = true; break; }
        if (sh->ncomm > MAXCOMM - 256) { reap(); }
        if (!g_up && !ensure_up()) break;
        Res r = run(1, s, 2, 0, pre);
        cnt++; runs++; dfs_runs++; steps += sh->steps; msgs += sh->nmsg; choicepts += r.choice.size(); outcomes.insert(r.outcome); maxch = std::max<long>(maxch, r.choice.size());
        if (r.fails.empty() && r.outcome != oc0) r.fails += "schedule-dependent\tthe result depends on the schedule\n";
        if (!r.fails.empty()) { report(s, 2, 0, r, pre); bad = true; reap(); break; }
        int used = 0; std::vector<int> usedb(r.choice.size() + 1);
        for (size_t i = 0; i < r.choice.size(); ++i) { usedb[i] = used; if (r.choice[i] != 0 && r.cost[i]) used++; }
        for (size_t i = r.choice.size(); i-- > pre.size();)
        {
          if (usedb[i] + r.cost[i] > bound) continue;
          for (int a = 1; a < r.nalts[i]; ++a)
          { std::vector<int> q(r.choice.begin(), r.choice.begin() + i); q.push_back(a); stack.push_back(q); }
        }
      }
      if (cut) capped++;
    }
    if (nfail > 200) break;
  }
  if (g_up && only < 0)
  {
    Res r = run(2, -1, 0, 0, std::vector<int>());
    size_t tab = r.fails.find('\t');
    if (!r.fails.empty())
    { printf("FAIL\tfini-%s\tlibrary finalisation on %d ranks\t", r.fails.substr(0, tab).c_str(), np); printcase(tab == std::string::npos ? "" : r.fails.substr(tab + 1)); printf("\t--np %d --only -2\n", np); }
  }
  if (g_up) reap();
  printf("STAT\tscenarios\t%ld\nSTAT\texecutions\t%ld\nSTAT\tsteps\t%ld\nSTAT\tmessages\t%ld\nSTAT\tchoice_points\t%ld\nSTAT\tdfs_scenarios\t%ld\nSTAT\tdfs_executions\t%ld\nSTAT\tdfs_capped\t%ld\nSTAT\tdistinct_outcomes\t%zu\nSTAT\tnondet\t%d\nSTATMAX\tmax_choices\t%ld\n",
         scen, runs, steps, msgs, choicepts, dfs_scen, dfs_runs, capped, outcomes.size(), sh->nondet, maxch);
  printf("DONE\n"); fflush(stdout);
  return 0;
}
} // namespace fk

// ============================================================================
extern "C" {
int MPI_Init(int *, char ***) { ensure(); if (sh->r[me].inited) return err(MPI_ERR_OTHER, "MPI_Init called twice"); sh->r[me].inited = 1; return 0; }
int MPI_Init_thread(int *a, char ***b, int req, int *prov) { if (prov) *prov = req; return MPI_Init(a, b); }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int *f) { ensure(); *f = sh->r[me].inited; return 0; }
int MPI_Finalize(void) { ensure(); if (sh->r[me].finalized) return err(MPI_ERR_OTHER, "MPI_Finalize called twice"); sh->r[me].finalized = 1; return 0; }
int MPI_Finalized(int *f) { ensure(); *f = sh->r[me].finalized; return 0; }
int MPI_Abort(MPI_Comm, int) { abort(); }
double MPI_Wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "fake"); *l = 4; return 0; }
int MPI_Buffer_attach(void *, int n) { ensure(); if (sh->r[me].attach) return err(MPI_ERR_BUFFER, "a buffer is attached twice"); sh->r[me].attach = n; return 0; }
int MPI_Buffer_detach(void *, int *n) { ensure(); if (n) *n = sh->r[me].attach; sh->r[me].attach = 0; return 0; }
int MPI_Error_string(int c, char *s, int *l) { *l = sprintf(s, "error %d", c); return 0; }
int MPI_Error_class(int c, int *k) { *k = c; return 0; }

int MPI_Comm_rank(MPI_Comm c, int *r) { if (int e = common(c, 0, -1, "MPI_Comm_rank")) return e; *r = comm_rank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { if (int e = common(c, 0, -1, "MPI_Comm_size")) return e; *s = sh->comm[c].size; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{ if (int e = common(c, 0, -1, "MPI_Comm_group")) return e; *g = new_group(std::vector<int>(sh->comm[c].member, sh->comm[c].member + sh->comm[c].size)); return 0; }
static int finish_comm(MPI_Comm nc, MPI_Comm *out) { *out = nc; if (nc) { for (int i = 0; i < sh->comm[nc].size; ++i) if (sh->comm[nc].member[i] == me) sh->comm[nc].live[me] = 1; sh->r[me].live_comms++; } return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out)
{
  if (int e = common(c, 0, -1, "MPI_Comm_split")) return e;
  Coll *s = enter(c, C_SPLIT, 0, 0, 0, 0, 0, color, key, "MPI_Comm_split");
  int cr = comm_rank(c);
  if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
  if (!s->newcomm[cr])
  {
    std::vector<std::pair<int,int> > v;
    for (int i = 0; i < sh->comm[c].size; ++i) if (s->a[i] == color) v.push_back(std::make_pair(s->b[i], i));
    std::stable_sort(v.begin(), v.end());
    int nc = alloc_comm(); sh->comm[nc].size = v.size();
    for (size_t i = 0; i < v.size(); ++i) { sh->comm[nc].member[i] = sh->comm[c].member[v[i].second]; s->newcomm[v[i].second] = nc; }
  }
  return finish_comm(s->newcomm[cr], out);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out)
{
  if (int e = common(c, 0, -1, "MPI_Comm_dup")) return e;
  Coll *s = enter(c, C_DUP, 0, 0, 0, 0, 0, 0, 0, "MPI_Comm_dup");
  int cr = comm_rank(c);
  if (!s->newcomm[cr]) { int nc = alloc_comm(); sh->comm[nc].size = sh->comm[c].size; for (int i = 0; i < sh->comm[c].size; ++i) { sh->comm[nc].member[i] = sh->comm[c].member[i]; s->newcomm[i] = nc; } }
  return finish_comm(s->newcomm[cr], out);
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out)
{
  if (int e = common(c, 0, -1, "MPI_Comm_create")) return e;
  if (!group_ok(g)) return err(MPI_ERR_GROUP, "MPI_Comm_create with an invalid group");
  unsigned mask = 0; for (size_t i = 0; i < groups()[g].m.size(); ++i) mask |= 1u << groups()[g].m[i];
  Coll *s = enter(c, C_CREATE, 0, 0, mask, 0, 0, 0, 0, "MPI_Comm_create");
  int cr = comm_rank(c);
  if (!(mask >> me & 1)) { *out = MPI_COMM_NULL; return 0; }
  if (!s->newcomm[cr])
  {
    int nc = alloc_comm(); std::vector<int> const &m = groups()[g].m; sh->comm[nc].size = m.size();
    for (size_t i = 0; i < m.size(); ++i) { sh->comm[nc].member[i] = m[i]; for (int j = 0; j < sh->comm[c].size; ++j) if (sh->comm[c].member[j] == m[i]) s->newcomm[j] = nc; }
  }
  return finish_comm(s->newcomm[cr], out);
}
int MPI_Comm_free(MPI_Comm *c)
{
  if (int e = common(*c, 0, -1, "MPI_Comm_free")) return e;
  if (*c <= 2) return err(MPI_ERR_COMM, "MPI_Comm_free of a predefined communicator");
  sh->comm[*c].live[me] = 0; sh->r[me].live_comms--; *c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r)
{
  if (int e = common(a, 0, -1, "MPI_Comm_compare")) return e;
  if (int e = common(b, 0, -1, "MPI_Comm_compare")) return e;
  if (a == b) { *r = MPI_IDENT; return 0; }
  Comm &x = sh->comm[a], &y = sh->comm[b];
  if (x.size != y.size) { *r = MPI_UNEQUAL; return 0; }
  bool same = true; for (int i = 0; i < x.size; ++i) same &= x.member[i] == y.member[i];
  std::set<int> p(x.member, x.member + x.size), q(y.member, y.member + y.size);
  *r = same ? MPI_CONGRUENT : p == q ? MPI_SIMILAR : MPI_UNEQUAL; return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { return common(c, 0, -1, "MPI_Comm_set_errhandler"); }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *h) { *h = MPI_ERRORS_RETURN; return 0; }

#define GCHK(g) do { ensure(); if (!group_ok(g)) return err(MPI_ERR_GROUP, "invalid group"); } while (0)
int MPI_Group_rank(MPI_Group g, int *r) { GCHK(g); *r = MPI_UNDEFINED; std::vector<int> &m = groups()[g].m; for (size_t i = 0; i < m.size(); ++i) if (m[i] == me) *r = i; return 0; }
int MPI_Group_size(MPI_Group g, int *s) { GCHK(g); *s = groups()[g].m.size(); return 0; }
int MPI_Group_free(MPI_Group *g) { GCHK(*g); if (*g != MPI_GROUP_EMPTY) { groups()[*g].freed = true; sh->r[me].live_groups--; } *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o)
{ GCHK(g); std::vector<int> m; for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= (int)groups()[g].m.size()) return err(MPI_ERR_RANK, "MPI_Group_incl: invalid rank"); m.push_back(groups()[g].m[r[i]]); } *o = new_group(m); return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o)
{ GCHK(g); std::set<int> x(r, r + n); std::vector<int> m; for (int i = 0; i < (int)groups()[g].m.size(); ++i) if (!x.count(i)) m.push_back(groups()[g].m[i]); *o = new_group(m); return 0; }
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o)
{ GCHK(a); GCHK(b); std::vector<int> m = groups()[a].m; for (int x : groups()[b].m) if (std::find(m.begin(), m.end(), x) == m.end()) m.push_back(x); *o = new_group(m); return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o)
{ GCHK(a); GCHK(b); std::vector<int> m; for (int x : groups()[a].m) if (std::find(groups()[b].m.begin(), groups()[b].m.end(), x) != groups()[b].m.end()) m.push_back(x); *o = new_group(m); return 0; }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o)
{ GCHK(a); GCHK(b); std::vector<int> m; for (int x : groups()[a].m) if (std::find(groups()[b].m.begin(), groups()[b].m.end(), x) == groups()[b].m.end()) m.push_back(x); *o = new_group(m); return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *o)
{ GCHK(a); GCHK(b); for (int i = 0; i < n; ++i) { o[i] = MPI_UNDEFINED; if (r[i] < 0 || r[i] >= (int)groups()[a].m.size()) return err(MPI_ERR_RANK, "translate_ranks: invalid rank"); int w = groups()[a].m[r[i]]; for (size_t j = 0; j < groups()[b].m.size(); ++j) if (groups()[b].m[j] == w) o[i] = j; } return 0; }
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r)
{ GCHK(a); GCHK(b); std::vector<int> x = groups()[a].m, y = groups()[b].m; if (x == y) { *r = MPI_IDENT; return 0; } std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL; return 0; }

#define TCHK(t) do { ensure(); if (!type_ok(t)) return err(MPI_ERR_TYPE, "invalid or freed datatype"); } while (0)
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { TCHK(t); std::vector<Blk> b(1, Blk{0, n, t}); *o = from_blocks(b); return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype *o)
{ TCHK(t); if (n < 0 || bl < 0) return err(MPI_ERR_COUNT, "negative count in a vector type"); std::vector<Blk> b; for (int i = 0; i < n; ++i) b.push_back(Blk{i * st, bl, t}); *o = from_blocks(b); return 0; }
int MPI_Type_hvector(int n, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype *o) { return MPI_Type_create_hvector(n, bl, st, t, o); }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype *o) { TCHK(t); return MPI_Type_create_hvector(n, bl, st * (types()[t].ub - types()[t].lb), t, o); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *d, MPI_Datatype t, MPI_Datatype *o) { TCHK(t); std::vector<Blk> b; for (int i = 0; i < n; ++i) b.push_back(Blk{d[i], bl[i], t}); *o = from_blocks(b); return 0; }
int MPI_Type_indexed(int n, const int *bl, const int *d, MPI_Datatype t, MPI_Datatype *o) { TCHK(t); std::vector<Blk> b; ptrdiff_t e = types()[t].ub - types()[t].lb; for (int i = 0; i < n; ++i) b.push_back(Blk{d[i] * e, bl[i], t}); *o = from_blocks(b); return 0; }
int MPI_Type_create_indexed_block(int n, int bl, const int *d, MPI_Datatype t, MPI_Datatype *o) { TCHK(t); std::vector<Blk> b; ptrdiff_t e = types()[t].ub - types()[t].lb; for (int i = 0; i < n; ++i) b.push_back(Blk{d[i] * e, bl, t}); *o = from_blocks(b); return 0; }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o)
{ ensure(); std::vector<Blk> b; for (int i = 0; i < n; ++i) { TCHK(t[i]); b.push_back(Blk{d[i], bl[i], t[i]}); } *o = from_blocks(b); return 0; }
int MPI_Type_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o) { return MPI_Type_create_struct(n, bl, d, t, o); }
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *o) { TCHK(t); Type y = types()[t]; y.lb = lb; y.ub = lb + ext; *o = new_type(y); return 0; }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *o) { TCHK(t); Type y = types()[t]; bool c = y.committed; *o = new_type(y); types()[*o].committed = c; return 0; }
int MPI_Type_commit(MPI_Datatype *t) { TCHK(*t); types()[*t].committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t) { TCHK(*t); if (types()[*t].builtin) return err(MPI_ERR_TYPE, "MPI_Type_free of a predefined type"); types()[*t].freed = true; types()[*t].segs.clear(); sh->r[me].live_types--; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { TCHK(t); *s = types()[t].size; return 0; }
int MPI_Type_extent(MPI_Datatype t, MPI_Aint *e) { TCHK(t); *e = types()[t].ub - types()[t].lb; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { TCHK(t); *lb = types()[t].lb; *e = types()[t].ub - types()[t].lb; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
int MPI_Address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }

int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return post_send(b, n, t, d, tag, c, 0, true, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return post_send(b, n, t, d, tag, c, 2, true, 0); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return post_send(b, n, t, d, tag, c, 0, true, 0); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return post_send(b, n, t, d, tag, c, 1, true, 0); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return post_send(b, n, t, d, tag, c, 0, false, r); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return post_send(b, n, t, d, tag, c, 2, false, r); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return post_send(b, n, t, d, tag, c, 1, false, r); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { return post_recv(b, n, t, s, tag, c, r); }
int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
  ensure();
  if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->fake_bytes = 0; }
  if (*r == MPI_REQUEST_NULL) return 0;
  if (!req_ok(*r)) return err(MPI_ERR_REQUEST, "MPI_Wait on an invalid request");
  Req &q = reqs()[*r];
  if (q.kind == 1) block(K_SEND, q.msg); else block(K_RECV, q.post);
  return complete(r, st);
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{ MPI_Request r; if (int e = post_recv(b, n, t, s, tag, c, &r)) return e; return MPI_Wait(&r, st); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stat)
{ MPI_Request a, b; if (int e = post_recv(rb, rn, rt, s, rtag, c, &a)) return e; if (int e = post_send(sb, sn, st, d, stag, c, 0, false, &b)) return e; int e = MPI_Wait(&a, stat); MPI_Wait(&b, 0); return e; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { int e = 0; for (int i = 0; i < n; ++i) if (int k = MPI_Wait(&r[i], st ? &st[i] : 0)) e = k; return e; }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st)
{
  ensure(); RankS &k = sh->r[me]; k.nany = 0; sh->nondet = 1;
  for (int i = 0; i < n && k.nany < 32; ++i) if (req_ok(r[i])) k.any[k.nany++] = req_id(r[i]);
  if (!k.nany) { *idx = MPI_UNDEFINED; return 0; }
  block(K_ANY, 0);
  for (int i = 0; i < n; ++i) if (req_ok(r[i]) && ready_id(me, req_id(r[i]))) { *idx = i; return complete(&r[i], st); }
  return MPI_ERR_OTHER;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st)
{
  ensure(); *f = 1; if (*r == MPI_REQUEST_NULL) return 0;
  if (!req_ok(*r)) return err(MPI_ERR_REQUEST, "MPI_Test on an invalid request");
  sh->nondet = 1; block(K_POLL, 0);
  if (!ready_id(me, req_id(*r))) { *f = 0; return 0; }
  return complete(r, st);
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st)
{ ensure(); sh->nondet = 1; block(K_POLL, 0); *f = 1; for (int i = 0; i < n; ++i) if (req_ok(r[i]) && !ready_id(me, req_id(r[i]))) { *f = 0; return 0; } for (int i = 0; i < n; ++i) if (req_ok(r[i])) complete(&r[i], st ? &st[i] : 0); return 0; }
int MPI_Request_free(MPI_Request *r) { ensure(); if (!req_ok(*r)) return err(MPI_ERR_REQUEST, "MPI_Request_free on an invalid request"); reqs()[*r].live = false; sh->r[me].live_reqs--; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st)
{
  if (int e = common(c, 0, -1, "MPI_Iprobe")) return e;
  sh->nondet = 1; block(K_POLL, 0); *f = 0;
  for (int i = 0; i < sh->nmsg && !*f; ++i)
  {
    Msg &m = sh->msg[i]; if (m.post >= 0 || m.dst != me || m.comm != c) continue;
    if (s != MPI_ANY_SOURCE && sh->comm[c].member[s] != m.src) continue;
    if (tag != MPI_ANY_TAG && tag != m.tag) continue;
    *f = 1;
    if (st) { st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->fake_bytes = m.len; Comm &k = sh->comm[c]; for (int j = 0; j < k.size; ++j) if (k.member[j] == m.src) st->MPI_SOURCE = j; }
  }
  return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { int f = 0; while (!f) if (int e = MPI_Iprobe(s, tag, c, &f, st)) return e; return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { TCHK(t); size_t s = types()[t].size; *n = s && st->fake_bytes % s == 0 ? st->fake_bytes / s : s ? MPI_UNDEFINED : 0; return 0; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count(st, t, n); }

int MPI_Barrier(MPI_Comm c) { if (int e = common(c, 0, -1, "MPI_Barrier")) return e; enter(c, C_BARRIER, 0, 0, 0, 0, 0, 0, 0, "MPI_Barrier"); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  if (int e = common(c, n, t, "MPI_Bcast")) return e;
  if (root < 0 || root >= sh->comm[c].size) return err(MPI_ERR_ROOT, "MPI_Bcast with an invalid root");
  Type ty = types()[t]; size_t len = ty.size * n; int cr = comm_rank(c); std::vector<char> tmp;
  if (cr == root) { tmp.resize(len + 1); pack(tmp.data(), b, n, ty); }
  Coll *s = enter(c, C_BCAST, root, 0, len, cr == root ? tmp.data() : 0, len, 0, 0, "MPI_Bcast");
  if (cr != root) unpack(b, n, ty, sh->arena + s->off[root], len);
  return 0;
}
static int reduce_common(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, int kind, char const *fn)
{
  if (int e = common(c, n, t, fn)) return e;
  Type ty = types()[t]; size_t len = ty.size * n; int cr = comm_rank(c); std::vector<char> tmp(len + 1);
  pack(tmp.data(), sb == MPI_IN_PLACE ? rb : sb, n, ty);
  Coll *s = enter(c, kind, root, op, len, tmp.data(), len, 0, 0, fn);
  if (kind == C_REDUCE && cr != root) return 0;
  std::vector<char> acc(sh->arena + s->off[0], sh->arena + s->off[0] + len); acc.push_back(0);
  int last = kind == C_SCAN ? cr : sh->comm[c].size - 1;
  for (int i = 1; i <= last; ++i) if (int e = combine(op, t, acc.data(), sh->arena + s->off[i], n)) return e;
  unpack(rb, n, ty, acc.data(), len);
  return 0;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_common(sb, rb, n, t, op, root, c, C_REDUCE, "MPI_Reduce"); }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_common(sb, rb, n, t, op, 0, c, C_ALLREDUCE, "MPI_Allreduce"); }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_common(sb, rb, n, t, op, 0, c, C_SCAN, "MPI_Scan"); }
static int gather_common(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, int kind, char const *fn)
{
  bool inpl = sb == MPI_IN_PLACE;
  if (int e = common(c, inpl ? rn : sn, inpl ? rt : st, fn)) return e;
  int cr = comm_rank(c), P = sh->comm[c].size;
  Type ty = types()[inpl ? rt : st]; size_t len = ty.size * (inpl ? rn : sn); std::vector<char> tmp(len + 1);
  if (inpl) { Type const &r = types()[rt]; pack(tmp.data(), (char*)rb + cr * rn * (r.ub - r.lb), rn, r); } else pack(tmp.data(), sb, sn, ty);
  Coll *s = enter(c, kind, root, 0, len, tmp.data(), len, 0, 0, fn);
  if (kind == C_GATHER && cr != root) return 0;
  Type const &r = types()[rt];
  for (int i = 0; i < P; ++i) unpack((char*)rb + i * rn * (r.ub - r.lb), rn, r, sh->arena + s->off[i], len);
  return 0;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gather_common(sb, sn, st, rb, rn, rt, root, c, C_GATHER, "MPI_Gather"); }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return gather_common(sb, sn, st, rb, rn, rt, 0, c, C_ALLGATHER, "MPI_Allgather"); }
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  if (int e = common(c, rn, rt, "MPI_Scatter")) return e;
  int cr = comm_rank(c), P = sh->comm[c].size; Type r = types()[rt]; size_t len = r.size * rn; std::vector<char> tmp(len * P + 1);
  if (cr == root) { Type s = types()[st]; for (int i = 0; i < P; ++i) pack(tmp.data() + i * len, (char const*)sb + i * sn * (s.ub - s.lb), sn, s); }
  Coll *s = enter(c, C_SCATTER, root, 0, len, cr == root ? tmp.data() : 0, len * P, 0, 0, "MPI_Scatter");
  if (rb != MPI_IN_PLACE) unpack(rb, rn, r, sh->arena + s->off[root] + cr * len, len);
  return 0;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c)
{
  if (int e = common(c, sn, st, "MPI_Alltoall")) return e;
  int cr = comm_rank(c), P = sh->comm[c].size; Type s = types()[st], r = types()[rt]; size_t len = s.size * sn; std::vector<char> tmp(len * P + 1);
  for (int i = 0; i < P; ++i) pack(tmp.data() + i * len, (char const*)sb + i * sn * (s.ub - s.lb), sn, s);
  Coll *k = enter(c, C_ALLTOALL, 0, 0, len, tmp.data(), len * P, 0, 0, "MPI_Alltoall");
  for (int i = 0; i < P; ++i) unpack((char*)rb + i * rn * (r.ub - r.lb), rn, r, sh->arena + k->off[i] + cr * len, len);
  return 0;
}
} // extern "C"
