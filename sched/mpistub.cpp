#include "mpistub.hpp"
#include "mct.hpp"
#include <mpi.h>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <deque>
#include <vector>

namespace mpistub
{
int inits = 0, finalizes = 0; bool attached = false; long live_objects = 0, types = 0, comms = 0;
static enum { NO, STARTING, UP, STOPPING, DOWN } state = NO;
static void *buf = 0; static int buf_size = 0;
static int next_handle = 100;
// messages to oneself, kept per thread and outside the checked heap
struct Msg { char d[64]; int n; };
thread_local Msg queue[64]; thread_local unsigned head, tail;
void user_init() { state = UP; }
static void use(char const *f)
{
  mct::point(f);
  if (state == NO || state == STARTING) mct::fail("mpi before init", "%s is called before MPI is initialised", f);
  if (state == STOPPING || state == DOWN) mct::fail("mpi after finalize", "%s is called after MPI was finalised", f);
}
static int tsize(int t) { switch (t) { case MPI_CHAR: case MPI_BYTE: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: return 1; case MPI_SHORT: return 2; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4; default: return 8; } }
static void type_ok(char const *f, int t) { if (t <= 0 || (t > 26 && t < 100)) mct::fail("datatype", "%s is called with a datatype that does not exist (%d)", f, t); }
// MPI orders its own accesses to the buffer (a send counts as a read here), the library has to order attach, detach and release
static void touch_buffer(bool w) { if (attached) mct::touch(buf, 1, w, "attached buffer"); }
}
using namespace mpistub;
extern "C"
{
void *__real_memcpy(void *, void const *, size_t);
int MPI_Init(int *, char ***)
{
  mct::point("MPI_Init");
  if (state != NO) mct::fail(state == UP || state == STARTING ? "mpi init twice" : "mpi init after finalize", "MPI_Init is called %s", state == UP || state == STARTING ? "twice" : "after MPI_Finalize");
  state = STARTING; ++inits; mct::point("in MPI_Init"); state = UP; return 0;
}
int MPI_Init_thread(int *a, char ***b, int, int *p) { if (p) *p = MPI_THREAD_MULTIPLE; return MPI_Init(a, b); }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int *f) { mct::point("MPI_Initialized"); *f = state != NO && state != STARTING; return 0; }
int MPI_Finalized(int *f) { mct::point("MPI_Finalized"); *f = state == DOWN; return 0; }
int MPI_Finalize(void)
{
  mct::point("MPI_Finalize");
  if (state != UP) mct::fail(state == NO || state == STARTING ? "mpi finalize before init" : "mpi finalize twice", "MPI_Finalize is called %s", state == NO || state == STARTING ? "before MPI_Init is complete" : "twice");
  if (live_objects) mct::fail("mpi finalize early", "MPI_Finalize is called while %ld library objects exist", live_objects);
  state = STOPPING; ++finalizes; touch_buffer(true); attached = false; mct::point("in MPI_Finalize"); state = DOWN; return 0;
}
int MPI_Abort(MPI_Comm, int) { abort(); }
double MPI_Wtime(void) { return 0; }
int MPI_Buffer_attach(void *p, int n)
{
  use("MPI_Buffer_attach");
  if (attached) { mct::fail("buffer attached twice", "MPI_Buffer_attach is called while a buffer is attached"); return MPI_ERR_BUFFER; }
  buf = p; buf_size = n; attached = true; return 0;
}
int MPI_Buffer_detach(void *p, int *n)
{
  use("MPI_Buffer_detach");
  if (!attached) { mct::fail("buffer detached twice", "MPI_Buffer_detach is called while no buffer is attached"); return MPI_ERR_BUFFER; }
  touch_buffer(true);
  if (p) *(void **)p = buf; if (n) *n = buf_size; attached = false; return 0;
}
int MPI_Error_string(int, char *s, int *n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Error_class(int a, int *b) { *b = a; return 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { use("MPI_Comm_rank"); *r = 0; return 0; }
int MPI_Comm_size(MPI_Comm, int *r) { use("MPI_Comm_size"); *r = 1; return 0; }
int MPI_Comm_group(MPI_Comm, MPI_Group *g) { use("MPI_Comm_group"); *g = ++next_handle; return 0; }
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *c) { use("MPI_Comm_split"); *c = ++next_handle; ++comms; return 0; }
int MPI_Comm_dup(MPI_Comm, MPI_Comm *c) { use("MPI_Comm_dup"); *c = ++next_handle; ++comms; return 0; }
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *c) { use("MPI_Comm_create"); *c = ++next_handle; ++comms; return 0; }
int MPI_Comm_free(MPI_Comm *c) { use("MPI_Comm_free"); *c = MPI_COMM_NULL; --comms; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { use("MPI_Comm_compare"); *r = a == b ? MPI_IDENT : MPI_CONGRUENT; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { use("MPI_Comm_set_errhandler"); return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { use("MPI_Comm_get_errhandler"); *e = MPI_ERRORS_RETURN; return 0; }
int MPI_Group_rank(MPI_Group, int *r) { *r = 0; return 0; }
int MPI_Group_size(MPI_Group, int *r) { *r = 1; return 0; }
int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *g) { *g = ++next_handle; return 0; }
int MPI_Group_translate_ranks(MPI_Group, int n, const int *a, MPI_Group, int *b) { for (int i = 0; i < n; ++i) b[i] = a[i]; return 0; }
int MPI_Group_compare(MPI_Group, MPI_Group, int *r) { *r = MPI_IDENT; return 0; }
int MPI_Type_contiguous(int, MPI_Datatype t, MPI_Datatype *n) { use("MPI_Type_contiguous"); type_ok("MPI_Type_contiguous", t); *n = ++next_handle; ++types; return 0; }
int MPI_Type_commit(MPI_Datatype *t) { use("MPI_Type_commit"); type_ok("MPI_Type_commit", *t); return 0; }
int MPI_Type_free(MPI_Datatype *t) { use("MPI_Type_free"); --types; *t = 0; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = tsize(t); return 0; }
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *t) { use("MPI_Type_create_struct"); *t = ++next_handle; ++types; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
static int post(char const *f, const void *p, int n, MPI_Datatype t)
{
  type_ok(f, t); int b = std::min(n * tsize(t), 64); mct::touch(p, b, false, f);
  Msg &m = queue[tail++ % 64]; m.n = b; __real_memcpy(m.d, p, b); return 0;
}
int MPI_Bsend(const void *p, int n, MPI_Datatype t, int, int, MPI_Comm)
{
  use("MPI_Bsend");
  if (!attached) { mct::fail("no buffer", "MPI_Bsend is called while no buffer is attached"); return MPI_ERR_BUFFER; }
  touch_buffer(false); return post("MPI_Bsend", p, n, t);
}
int MPI_Send(const void *p, int n, MPI_Datatype t, int, int, MPI_Comm) { use("MPI_Send"); return post("MPI_Send", p, n, t); }
int MPI_Isend(const void *p, int n, MPI_Datatype t, int, int, MPI_Comm, MPI_Request *r) { use("MPI_Isend"); *r = 1; return post("MPI_Isend", p, n, t); }
int MPI_Recv(void *p, int n, MPI_Datatype t, int, int, MPI_Comm, MPI_Status *)
{
  use("MPI_Recv"); type_ok("MPI_Recv", t); if (head == tail) return MPI_ERR_OTHER;
  Msg &m = queue[head++ % 64]; int b = std::min(m.n, n * tsize(t)); mct::touch(p, b, true, "MPI_Recv"); __real_memcpy(p, m.d, b); return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *) { use("MPI_Wait"); *r = 0; return 0; }
int MPI_Barrier(MPI_Comm) { use("MPI_Barrier"); return 0; }
int MPI_Bcast(void *, int, MPI_Datatype t, int, MPI_Comm) { use("MPI_Bcast"); type_ok("MPI_Bcast", t); return 0; }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { use("MPI_Allreduce"); type_ok("MPI_Allreduce", t); memcpy(b, a, n * tsize(t)); return 0; }
}
