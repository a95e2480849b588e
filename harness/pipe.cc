// Work distribution and dispatch.
// EXCLUDE: src/util/pipelines/pipelines_thread.cc
// cfg: op ...
#include "util/pipelines/pipelines.h"
#include "grid/grid.h"
#include "util/checkpt/checkpt.h"
#include "hs.h"
#include <string.h>
#include <stdlib.h>
// ------------------------------------------------------------------ shares of a list of items
// op 0: N symbolic up to 2^26 (exact reals); op 2: N/b symbolic up to cap (IEEE). cfg: op b P pmin pmax cap
static void shares(int b, int P, int p0, int p1, int cap) {
  int N = (int)hs_int("N",0,cap), i, n, i2, n2;
  for (int p=p0; p<=p1 && p<P; p++) {
    DISTRIBUTE(N,b,p,P,i,n);
    if (p==0) hs_chk(i==0,"the first share starts at the first item");
    hs_chk(n>=0,"a share is not negative"); hs_chk(i>=0,"a share starts in the list"); hs_chk(n%b==0,"a share is a multiple of the block size");
    double w = (double)(N/b)/P; if (hs_cfg(0)==0) hs_chk(n<=b*(w+1.01) && n>=b*(w-1.01),"shares are equal to within one block");
    DISTRIBUTE(N,b,p+1,P,i2,n2);
    hs_chk(i2==i+n,"shares follow each other without gap or overlap");
    if (p+1==P) { hs_chk(i2+n2==N,"the shares cover all items"); hs_chk(n2>=0 && n2<b,"the dispatcher gets less than a block"); }
  }
}
// op 1: ranges of voxels. cfg: op nx ny nzmax b P
static void voxels(int nx, int ny, int nzmax, int b, int P) {
  int nz = (int)hs_int("nz",1,nzmax), x0 = (int)hs_int("x0",-1,2), y0 = (int)hs_int("y0",-1,2), z0 = (int)hs_int("z0",-1,2);
  int x1 = x0+nx-1, y1 = y0+ny-1, z1 = z0+nz-1;
  int next = 0;
  for (int p=0; p<=P; p++) {
    int x, y, z, nv;
    DISTRIBUTE_VOXELS(x0,x1, y0,y1, z0,z1, b, p,P, x,y,z,nv);
    hs_chk(nv>=0,"a range is not negative");
    hs_chk((x-x0)+nx*((y-y0)+ny*(z-z0))==next,"a range starts where the previous one ends");
    hs_chk(x>=x0 && x<=x1 && y>=y0 && y<=y1,"a range starts at a voxel of the block");
    if (p<P) hs_chk(nv%b==0,"a range is a multiple of the bundle size"); else hs_chk(nv<b,"the dispatcher gets less than a bundle");
    next += nv;
  }
  hs_chk(next==nx*ny*nz,"the ranges cover the block");
}
// op 4: any voxel box by plain enumeration of a walk (y extents symbolic too is nonlinear: cfg-fixed)
#if defined(VPIC_USE_PTHREADS)
// ------------------------------------------------------------------ threads: contexts sharing the memory, run one at a time
// A switch may happen at every synchronisation call and at the start and end of a pipeline function.
#include <pthread.h>
enum { MAXT = 8 };
static int cur = 0, nth = 1, ctx[MAXT], fin[MAXT], budget = 0, wakes = 0, tries = 0, spins = 0, joined[MAXT];
static void *waitmx[MAXT], *waitcv[MAXT], *tdarg[MAXT]; static void *(*tdfn[MAXT])(void*); static int jnd[MAXT];
enum { MAXM = 8 };
static void *mx[MAXM]; static int own[MAXM], nmx = 0;
static int mxi(void *m) { for (int i=0; i<nmx; i++) if (mx[i]==m) return i; hs_chk(0,"mutex is initialised"); return 0; }
static int enabled(int t) {
  if (fin[t] || waitcv[t]) return 0;
  if (waitmx[t]) return own[mxi(waitmx[t])]<0;
  if (jnd[t]>=0) return fin[jnd[t]];
  return 1;
}
static void go(int t) { if (t!=cur) { cur = t; tries = spins = 0; hs_co_switch(ctx[t]); } }
static int pick(int self) {               /* some enabled context (self only if it may go on) */
  int c[MAXT], k = 0;
  for (int t=0; t<nth; t++) if (t!=cur && enabled(t)) c[k++] = t;
  if (self && enabled(cur)) c[k++] = cur;
  if (!k) {                               /* a waiting thread may wake by itself, but progress must not depend on it */
    hs_chk(0,"no deadlock"); hs_assume(0);
  }
  return k>1 ? c[hs_choose("sched",k)] : c[0];
}
static void point(void) {                 /* the running context may be preempted here */
  if (budget<=0) return;
  int c[MAXT], k = 0; c[k++] = cur;
  for (int t=0; t<nth; t++) if (t!=cur && enabled(t)) c[k++] = t;
  if (k==1) return;
  int w = hs_choose("preempt",k);
  if (w) { budget--; go(c[w]); }
}
static void give(void) { go(pick(0)); }    /* the running context can or should not go on now */
extern "C" {
static void td_main(void *a) { int t = (int)(size_t)a; tdfn[t](tdarg[t]); fin[t] = 1; for (int i=0; i<nmx; i++) hs_chk(own[i]!=t,"a thread ends without holding a lock"); go(pick(0)); }
static int vt_create(pthread_t *h, const void *at, void *(*fn)(void*), void *arg) {
  int t = nth++; tdfn[t] = fn; tdarg[t] = arg; waitmx[t] = waitcv[t] = 0; jnd[t] = -1; fin[t] = 0; joined[t] = 0; ctx[t] = hs_co_new(td_main,(void*)(size_t)t);
  *h = (pthread_t)(100+t); point(); return 0;
}
static pthread_t vt_self(void) { return (pthread_t)(100+cur); }
static int vt_equal(pthread_t a, pthread_t b) { return a==b; }
static int vt_join(pthread_t h, void **r) {
  int t = (int)h-100; hs_chk(t>0 && t<nth && !joined[t],"join names a thread"); joined[t] = 1;
  jnd[cur] = t; point(); while (!fin[t]) give(); jnd[cur] = -1; return 0;
}
static int vt_mutex_init(pthread_mutex_t *m, const void *a) { for (int i=0; i<nmx; i++) if (mx[i]==m) { own[i] = -1; return 0; } mx[nmx] = m; own[nmx++] = -1; return 0; }
static int vt_mutex_destroy(pthread_mutex_t *m) { hs_chk(own[mxi(m)]==-1,"a destroyed mutex is free"); own[mxi(m)] = -2; return 0; }
static int vt_cond_init(pthread_cond_t *c, const void *a) { return 0; }
static int vt_cond_destroy(pthread_cond_t *c) { for (int t=0; t<nth; t++) hs_chk(waitcv[t]!=(void*)c,"nobody waits on a destroyed condition"); return 0; }
static void acquire(void *m) { int i = mxi(m); hs_chk(own[i]!=cur,"a lock is not taken twice"); waitmx[cur] = m; while (own[i]!=-1) give(); waitmx[cur] = 0; own[i] = cur; }
static int vt_lock(pthread_mutex_t *m) { point(); acquire(m); return 0; }
static int vt_trylock(pthread_mutex_t *m) {
  point(); if (++tries>2*MAXT/2) { tries = 0; int k = 0; for (int t=0; t<nth; t++) k += t!=cur && enabled(t); if (k) give(); else { hs_chk(0,"no endless search for an idle thread"); hs_assume(0); } }
  int i = mxi(m); hs_chk(own[i]!=-2,"mutex is alive"); if (own[i]!=-1) return 16; own[i] = cur; return 0;
}
static int vt_unlock(pthread_mutex_t *m) { int i = mxi(m); hs_chk(own[i]==cur,"a lock is released by its owner"); own[i] = -1; point(); return 0; }
static int vt_signal(pthread_cond_t *c) {
  int k = 0, w[MAXT]; for (int t=0; t<nth; t++) if (waitcv[t]==(void*)c) w[k++] = t;
  if (k) { int t = k>1 ? w[hs_choose("woken",k)] : w[0]; waitcv[t] = 0; }
  point(); return 0;
}
static int vt_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  int i = mxi(m); hs_chk(own[i]==cur,"waiting needs the lock");
  own[i] = -1; waitcv[cur] = c; waitmx[cur] = 0;
  if (wakes>0 && hs_choose("spurious",2)) { wakes--; waitcv[cur] = 0; point(); }
  else give();
  acquire(m); return 0;
}
static void vt_pause(void) { int k = 0; for (int t=0; t<nth; t++) k += t!=cur && enabled(t); if (k) give(); else if (++spins>3) { hs_chk(0,"no endless wait"); hs_assume(0); } }
}
#define pthread_create vt_create
#define pthread_self vt_self
#define pthread_equal vt_equal
#define pthread_join vt_join
#define pthread_mutex_init vt_mutex_init
#define pthread_mutex_destroy vt_mutex_destroy
#define pthread_cond_init vt_cond_init
#define pthread_cond_destroy vt_cond_destroy
#define pthread_mutex_lock vt_lock
#define pthread_mutex_trylock vt_trylock
#define pthread_mutex_unlock vt_unlock
#define pthread_cond_signal vt_signal
#define pthread_cond_wait vt_wait
#undef nanodelay
#define nanodelay(n) vt_pause()
#include "util/pipelines/pipelines_thread.cc"

enum { MAXR = 40 };
static int runs[MAXR], started[MAXR], seen_n[MAXR], open_ = 0, tagv = 0, host_ran = 0;
struct item { int id, tag, pad; };
static item items[MAXR];
static void body(item *a, int rank, int n) {
  point();
  hs_chk(open_,"work runs only between dispatch and wait");
  hs_chk(rank>=0 && rank<=n && n==seen_n[MAXR-1],"rank and number of pipelines");
  if (rank>=0 && rank<MAXR-1) {
    started[rank]++; hs_chk(started[rank]==1,"every rank runs once");
    hs_chk(a->tag==tagv && a->id==rank,"a rank gets its own arguments");
    point();
    runs[rank]++;
  }
}
static void body0(item *a, int rank, int n) { body(&items[rank],rank,n); hs_chk(a==items,"all ranks share the arguments"); }
static void chk_done(int n) { for (int k=0; k<n; k++) hs_chk(runs[k]==1,"all work is finished when wait returns"); for (int k=n; k<MAXR-1; k++) hs_chk(started[k]==0,"no work for ranks that do not exist"); }
static void prep(int n) { tagv++; for (int k=0; k<MAXR; k++) { runs[k] = started[k] = 0; items[k].id = k; items[k].tag = tagv; } seen_n[MAXR-1] = n; open_ = 1; }
static char *num_(int v) { static char buf[8][8]; static int k = 0; char *b = buf[k++&7]; int l = 0; if (v<0) { b[l++] = '-'; v = -v; } if (v>=10) b[l++] = '0'+v/10; b[l] = '0'+v%10; b[l+1] = 0; return b; }
static char *str_(const char *a) { static char buf[8][32]; static int k = 0; char *b = buf[k++&7]; strcpy(b,a); return b; }
static void boot_(pipeline_dispatcher_t *d, const char *nm, int n, int dth) {
  char *av[6]; int ac = 0; av[ac++] = str_("vpic");
  static int done = 0; if (!done) { done = 1; char *bv[2] = { av[0],NULL }; char **b = bv; int bc = 1; boot_checkpt(&bc,&b); }
  av[ac++] = str_(nm); av[ac++] = num_(n); if (dth>=0) { av[ac++] = str_("--dispatch_to_host"); av[ac++] = num_(dth); } av[ac] = 0; char **a = av;
  d->boot(&ac,&a); hs_chk(d->n_pipeline==n,"number of pipelines"); hs_chk(ac==1,"options of the dispatcher are consumed");
}
// op 5: thread dispatcher. cfg: op tpp dispatch_to_host preemptions spurious rounds reboot
static void threads(void) {
  int tpp = hs_cfg(1), dth = hs_cfg(2), rounds = hs_cfg(5), reboot = hs_cfg(6), at = hs_cfg(7);
  for (int i=0; i<MAXT; i++) jnd[i] = -1;
  for (int r=0; r<=reboot; r++) {
    if (at==0) budget = hs_cfg(3); wakes = hs_cfg(4);
    boot_(&thread,"--tpp",tpp,dth);
    for (int k=1; k<=rounds; k++) {
      budget = at==k ? hs_cfg(3) : at<0 ? budget : 0; if (at==-k) budget = hs_cfg(3);
      prep(tpp);
      if (k&1) thread.dispatch((pipeline_func_t)body,items,sizeof(item),1); else thread.dispatch((pipeline_func_t)body0,items,sizeof(item),0);
      point();
      thread.wait(); chk_done(tpp); open_ = 0;
    }
    thread.dispatch(NULL,items,0,0); thread.wait();
    if (at==rounds+1) budget = hs_cfg(3); else if (at>=0) budget = 0;
    thread.halt(); hs_chk(thread.n_pipeline==0,"halted");
    for (int t=1; t<nth; t++) hs_chk(fin[t],"all threads end with the dispatcher");
    tpp = tpp==1 ? 2 : tpp-1; dth = 1-dth; if (tpp==1) dth = 1;
  }
}
// op 3: serial dispatcher. cfg: op n
static void serial_(void) {
  int n = hs_cfg(1);
  boot_(&serial,"--serial.n_pipeline",n,-1);
  for (int k=0; k<3; k++) {
    prep(n); if (k!=1) serial.dispatch((pipeline_func_t)body,items,sizeof(item),1); else serial.dispatch((pipeline_func_t)body0,items,sizeof(item),0); serial.wait(); chk_done(n); open_ = 0;
  }
  serial.dispatch(NULL,NULL,0,0); serial.wait();
  serial.halt(); hs_chk(serial.n_pipeline==0,"halted");
}
// op 6: misuse is refused. cfg: op dispatcher which
static void misuse(void) {
  pipeline_dispatcher_t *d = hs_cfg(1) ? &thread : &serial; const char *nm = hs_cfg(1) ? "--tpp" : "--serial.n_pipeline";
  for (int i=0; i<MAXT; i++) jnd[i] = -1;
  int w = hs_cfg(2);
  if (w==0) { hs_expect_exit(1); d->dispatch(NULL,NULL,0,0); }
  if (w==1) { hs_expect_exit(1); d->wait(); }
  if (w==2) { hs_expect_exit(1); d->halt(); }
  if (w==3) { boot_(d,nm,1,-1); hs_expect_exit(1); boot_(d,nm,1,-1); }
  if (w==4) { boot_(d,nm,1,-1); hs_expect_exit(1); d->wait(); }
  if (w==5) { boot_(d,nm,1,-1); d->dispatch(NULL,NULL,0,0); hs_expect_exit(1); d->dispatch(NULL,NULL,0,0); }
  if (w==6) { boot_(d,nm,1,-1); d->dispatch(NULL,NULL,0,0); hs_expect_exit(1); d->halt(); }
  if (w==7) { hs_expect_exit(1); boot_(d,nm,0,-1); }
  if (w==8) { hs_expect_exit(1); boot_(d,nm,-3,-1); }
  hs_chk(0,"misuse of a dispatcher is refused");
}
// ------------------------------------------------------------------ EXEC_PIPELINES
static int drun = 0;
#else
static int drun = 0;
struct item { int id, tag, pad; };
enum { MAXR = 40 };
static item items[MAXR]; static int started[MAXR];
#endif
struct ex_args { int id, x, y; };
static int ex_n = 0, ex_str = 0; static ex_args *ex_base; static int ex_seen[MAXR];
static void ex_one(ex_args *a, int rank, int n) {
  hs_chk(n==ex_n,"number of pipelines"); hs_chk(rank>=0 && rank<=n,"rank"); if (rank<0 || rank>n) return;
  ex_seen[rank]++; hs_chk(a==ex_base+rank*ex_str,"a rank gets its own arguments"); hs_chk(a->id==(ex_str ? rank : 0),"a rank reads its own arguments");
}
void ex_pipeline_scalar(ex_args *a, int rank, int n) { ex_one(a,rank,n); }
static int vec_calls = 0;
void ex_pipeline_v4(ex_args *a, int rank, int n) { vec_calls++; hs_chk(rank<n,"the remainder runs in the scalar version"); ex_one(a,rank,n); }
void ex_pipeline_v8(ex_args *a, int rank, int n) { vec_calls++; hs_chk(rank<n,"the remainder runs in the scalar version"); ex_one(a,rank,n); }
void ex_pipeline_v16(ex_args *a, int rank, int n) { vec_calls++; hs_chk(rank<n,"the remainder runs in the scalar version"); ex_one(a,rank,n); }
#include "util/util.h"
#define HAS_V4_PIPELINE
#define HAS_V8_PIPELINE
#define HAS_V16_PIPELINE
#include "util/pipelines/pipelines_exec.h"
#if defined(VPIC_USE_PTHREADS)
static pipeline_func_t ef; static char *ea; static int es;
static void e_dispatch(pipeline_func_t f, void *a, int sz, int str) { ef = f; ea = (char*)a; es = sz*str; }
static void e_wait(void) { for (int i=0; i<thread.n_pipeline; i++) ef(ea+i*es,i,thread.n_pipeline); }
#endif
// op 7: cfg: op n str
static void exec_(void) {
  static ex_args a[MAXR]; ex_n = hs_cfg(1); ex_str = hs_cfg(2); ex_base = a;
  for (int i=0; i<MAXR; i++) { a[i].id = i/(ex_str ? ex_str : 1); }
#if defined(VPIC_USE_PTHREADS)
  thread.n_pipeline = ex_n; thread.dispatch = e_dispatch; thread.wait = e_wait;
#else
  omp_helper.n_pipeline = ex_n;
#endif
  ex_args *args = a; int str = ex_str;
  EXEC_PIPELINES(ex,args,str);
  WAIT_PIPELINES();
  for (int i=0; i<=ex_n; i++) hs_chk(ex_seen[i]==1,"every rank and the remainder run once");
}
void hs_main(void) {
  int op = hs_cfg(0);
  if (op==0 || op==2) shares(hs_cfg(1),hs_cfg(2),hs_cfg(3),hs_cfg(4),hs_cfg(5));
  if (op==1) voxels(hs_cfg(1),hs_cfg(2),hs_cfg(3),hs_cfg(4),hs_cfg(5));
#if defined(VPIC_USE_PTHREADS)
  if (op==3) serial_();
  if (op==5) threads();
  if (op==6) misuse();
#endif
  if (op==7) exec_();
#if defined(VPIC_USE_OPENMP)
  if (op==8) {                            /* cfg: op n */
    int n = hs_cfg(1), l = 0, m = n<0 ? -n : n; char p0[] = "vpic", p1[] = "--tpp", p2[] = "keep", p3[8]; if (n<0) p3[l++] = '-'; if (m>99) p3[l++] = '0'+m/100; if (m>9) p3[l++] = '0'+m/10%10; p3[l++] = '0'+m%10; p3[l] = 0;
    char *av[5] = { p0,p1,p3,p2,NULL }; char **a = av; int ac = 4;
    if (n<1 || n>MAX_PIPELINE) hs_expect_exit(1);
    omp_helper.boot(&ac,&a);
    if (n<1 || n>MAX_PIPELINE) hs_chk(0,"an impossible number of pipelines is refused");
    hs_chk(omp_helper.n_pipeline==n && ac==2 && a[1]==p2,"number of pipelines");
    hs_expect_exit(1); omp_helper.boot(&ac,&a); hs_chk(0,"booting twice is refused");
  }
#endif
}
