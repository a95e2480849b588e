/* Native stand-in for the MPI calls VPIC makes, used when a counterexample is replayed: processes are forked and
   share a mailbox area.  It is as unhelpful as the standard allows: a receive buffer is scribbled over when the
   receive is posted and filled only when it completes, a synchronous send completes only after the receive was
   posted, and a send buffer that changed meanwhile is reported. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sched.h>
char ompi_mpi_double[1024], ompi_mpi_int[1024], ompi_mpi_byte[1024], ompi_mpi_char[1024], ompi_mpi_long_long_int[1024], ompi_mpi_float[1024],
     ompi_mpi_op_sum[1024], ompi_mpi_comm_world[1024], ompi_mpi_comm_self[1024], ompi_request_null[1024], ompi_mpi_unsigned_char[1024], ompi_mpi_op_max[1024], ompi_mpi_op_min[1024], ompi_mpi_long[1024];
#define NREQ 4096
#define POOL (64u<<20)
typedef struct { int kind, me, peer, tag, n, with, done; size_t off; } req_t;
typedef struct { volatile int lock; int nreq; req_t r[NREQ]; size_t pool; int cn[64]; volatile int csig[4096], ccnt[4096]; volatile size_t coff[4096][8]; } net_t;
static net_t *net; static char *pool; static int me = 0, np = 1; static int cseq = 0;
static void *bufs[NREQ];
static void boot(void) {
  if (net) return;
  net = mmap(0, sizeof(net_t), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  pool = mmap(0, POOL, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
}
static void lock(void) { while (__sync_lock_test_and_set(&net->lock, 1)) sched_yield(); }
static void unlock(void) { __sync_lock_release(&net->lock); }
int hs_np(void) { return np; } int hs_me(void) { return me; }
int hs_fork_procs(int n) { int i; boot(); np = n; for (i = 1; i < n; i++) { pid_t p = fork(); if (p == 0) { me = i; break; } } return me; }
int hs_join_procs(void) { int rc = 0, st; if (me) return 0; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 9; return rc; }
static size_t alloc_(size_t n) { size_t o = net->pool; net->pool += (n+63)&~(size_t)63; if (net->pool > POOL) { printf("HSFAIL mailbox exhausted\n"); _exit(1); } return o; }
static int dsz(void *d) { return d == ompi_mpi_double || d == ompi_mpi_long_long_int || d == ompi_mpi_long ? 8 : d == ompi_mpi_int || d == ompi_mpi_float ? 4 : 1; }
static void fail(const char *m) { printf("HSFAIL %s\n", m); fflush(stdout); _exit(1); }
int MPI_Init(int *a, char ***b) { boot(); return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Comm_dup(void *c, void **d) { *d = c; return 0; }
int MPI_Comm_free(void **d) { return 0; }
int MPI_Comm_rank(void *c, int *r) { *r = me; return 0; }
int MPI_Comm_size(void *c, int *r) { *r = np; return 0; }
int MPI_Abort(void *c, int r) { exit(r); }
double MPI_Wtime(void) { return 0; }
static int coll(int sig, const void *p, size_t n) {
  int q = cseq++; boot(); lock();
  if (net->ccnt[q] == 0) net->csig[q] = sig; else if (net->csig[q] != sig) fail("collective mismatch");
  net->coff[q][me] = alloc_(n); memcpy(pool+net->coff[q][me], p, n); net->ccnt[q]++; unlock();
  while (net->ccnt[q] < np) sched_yield();
  __sync_synchronize(); return q;
}
int MPI_Barrier(void *c) { coll(1, "", 0); return 0; }
int MPI_Allreduce(const void *s, void *r, int n, void *dt, void *op, void *c) {
  int z = dsz(dt), q = coll(1000+n*16+z, s, (size_t)n*z), i, p;
  for (i = 0; i < n; i++) {
    if (dt == ompi_mpi_double) { double t = 0; for (p = 0; p < np; p++) t += ((double *)(pool+net->coff[q][p]))[i]; ((double *)r)[i] = t; }
    else { int t = 0; for (p = 0; p < np; p++) t += ((int *)(pool+net->coff[q][p]))[i]; ((int *)r)[i] = t; }
  } return 0; }
int MPI_Allgather(const void *s, int n, void *dt, void *r, int m, void *dt2, void *c) {
  size_t z = (size_t)n*dsz(dt); int q = coll(2000000+(int)z, s, z), p; if (m != n) fail("allgather counts"); for (p = 0; p < np; p++) memcpy((char *)r+p*z, pool+net->coff[q][p], z); return 0; }
int MPI_Gather(const void *s, int n, void *dt, void *r, int m, void *dt2, int root, void *c) {
  size_t z = (size_t)n*dsz(dt); int q = coll(3000000+(int)z, s, z), p; if (me == root) for (p = 0; p < np; p++) memcpy((char *)r+p*z, pool+net->coff[q][p], z); return 0; }
int MPI_Bcast(void *b, int n, void *dt, int root, void *c) { size_t z = (size_t)n*dsz(dt); int q = coll(4000000+(int)z, b, z); memcpy(b, pool+net->coff[q][root], z); return 0; }
static int post(int kind, void *buf, int n, int peer, int tag) {
  int i, j; boot(); lock(); i = net->nreq++; if (i >= NREQ) fail("too many requests");
  if (peer < 0 || peer >= np) fail("peer out of range");
  req_t *R = &net->r[i]; R->kind = kind; R->me = me; R->peer = peer; R->tag = tag; R->n = n; R->with = -1; R->done = 0; bufs[i] = buf;
  if (kind == 's') { R->off = alloc_(n); memcpy(pool+R->off, buf, n); } else memset(buf, 0xC7, n);
  for (j = 0; j < i; j++) { req_t *S = &net->r[j]; if (S->with < 0 && S->kind != kind && S->me == peer && S->peer == me && S->tag == tag) { S->with = i; R->with = j; break; } }
  unlock(); return i; }
static void waitreq(int i, void *status) {
  req_t *R = &net->r[i]; volatile int *w = &R->with; while (*w < 0) { if (np == 1) fail("deadlock"); sched_yield(); }
  __sync_synchronize(); size_t cnt = R->n;
  if (R->kind == 's') { if (memcmp(bufs[i], pool+R->off, R->n)) fail("send buffer modified before the send completed"); }
  else { req_t *S = &net->r[R->with]; if (S->n > R->n) fail("message truncated"); memcpy(bufs[i], pool+S->off, S->n); cnt = S->n; }
  R->done = 1; if (status) *(size_t *)((char *)status+16) = cnt; }
int MPI_Irecv(void *b, int n, void *dt, int src, int tag, void *c, void **rq) { *rq = (void *)(uintptr_t)(0x100000+post('r', b, n*dsz(dt), src, tag)); return 0; }
int MPI_Issend(const void *b, int n, void *dt, int dst, int tag, void *c, void **rq) { *rq = (void *)(uintptr_t)(0x100000+post('s', (void *)b, n*dsz(dt), dst, tag)); return 0; }
int MPI_Isend(const void *b, int n, void *dt, int dst, int tag, void *c, void **rq) { return MPI_Issend(b, n, dt, dst, tag, c, rq); }
int MPI_Wait(void **rq, void *st) { uintptr_t q = (uintptr_t)*rq; if (q == 0) fail("MPI_Wait on a request that was never posted"); if (q < 0x100000 || q >= 0x100000+NREQ) { if (st) *(size_t *)((char *)st+16) = 0; return 0; } waitreq(q-0x100000, st); *rq = ompi_request_null; return 0; }
int MPI_Send(const void *b, int n, void *dt, int dst, int tag, void *c) { waitreq(post('s', (void *)b, n*dsz(dt), dst, tag), 0); return 0; }
int MPI_Recv(void *b, int n, void *dt, int src, int tag, void *c, void *st) { uintptr_t s = (uintptr_t)st; waitreq(post('r', b, n*dsz(dt), src, tag), s > 4096 ? st : 0); return 0; }
int MPI_Get_count(const void *st, void *dt, int *n) { *n = (int)*(size_t *)((char *)st+16); return 0; }
int hs_mpi_pending(void) { int i, n = 0; if (!net) return 0; for (i = 0; i < net->nreq; i++) if (net->r[i].me == me && !net->r[i].done) n++; return n; }
