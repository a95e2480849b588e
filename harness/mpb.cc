// Message buffers and collective calls.
// EXCLUDE: src/util/util_base.cc
// cfg: op ...
#define util_malloc_aligned real_util_malloc_aligned
#define util_free_aligned real_util_free_aligned
#include "util/util_base.cc"
#undef util_malloc_aligned
#undef util_free_aligned
#include "util/mp/mp.h"
#include "util/checkpt/checkpt.h"
#include "hs.h"
extern "C" { void util_malloc_aligned(const char*, void*, size_t, size_t); void util_free_aligned(void*); }
/* capture of requests whose size is symbolic */
static int cap_on = 0, cap_n = 0; static size_t cap_sz, cap_al; static char pool[256] __attribute__((aligned(128)));
void util_malloc_aligned(const char *err, void *ref, size_t n, size_t a) { if (!cap_on) { real_util_malloc_aligned(err,ref,n,a); return; } cap_n++; cap_sz = n; cap_al = a; *(char**)ref = pool; }
void util_free_aligned(void *ref) { if (!cap_on) { real_util_free_aligned(ref); return; } *(char**)ref = NULL; }
static void boot(void) { static char nm[] = "vpic"; static char *av[2] = { nm, NULL }; int ac = 1; char **a = av; boot_checkpt(&ac,&a); boot_mp(&ac,&a); }
enum { NP = 3, MX = 48 };
static char *buf(mp_t *m, int side, int p) { return (char*)(side ? mp_send_buffer(m,p) : mp_recv_buffer(m,p)); }
static void want(mp_t *m, int side, int p, int n) { if (side) mp_size_send_buffer(m,p,n); else mp_size_recv_buffer(m,p,n); }
static void sizes(int nreq, int side0, int nport) {       /* any sequence of size requests */
  static const int L[7] = { 1, 4, 5, 12, 16, 17, 40 };
  static char ref[2][NP][MX]; static int n[2][NP]; static char *ptr[2][NP];
  mp_t *m = new_mp(nport);
  for (int s=0; s<2; s++) for (int p=0; p<nport; p++) { n[s][p] = 0; hs_chk(buf(m,s,p)==NULL,"a new port has no buffer"); ptr[s][p] = NULL; }
  for (int k=0; k<nreq; k++) {
    int s = side0<2 ? side0 : hs_choose("side",2), p = hs_choose("port",nport), z = L[hs_choose("size",7)];
    want(m,s,p,z);
    for (int t=0; t<2; t++) for (int q=0; q<nport; q++) {
      char *b = buf(m,t,q);
      if (t!=s || q!=p) hs_chk(b==ptr[t][q],"other ports keep their buffer"); else hs_chk(b!=NULL && ((size_t)b&127)==0,"a sized port has an aligned buffer");
      for (int i=0; i<n[t][q]; i++) hs_chk(b[i]==ref[t][q][i],"growing a buffer keeps the data of all ports");
    }
    char *b = buf(m,s,p);
    for (int i=0; i<z; i++) { char c = (char)hs_bits("data",8); ref[s][p][i] = c; b[i] = c; }
    if (z>n[s][p]) n[s][p] = z;
    ptr[s][p] = b;
  }
  for (int t=0; t<2; t++) for (int q=0; q<nport; q++) for (int i=0; i<n[t][q]; i++) hs_chk(buf(m,t,q)[i]==ref[t][q][i],"ports do not share memory");
  delete_mp(m); delete_mp(NULL);
}
static void anysize(int side) {                            /* the first request, of any size */
  mp_t *m = new_mp(2); int z = (int)hs_int("size",1,1<<30), y = (int)hs_int("size2",1,1<<30); hs_assume(y<=z);
  cap_on = 1; want(m,side,1,z); hs_chk(cap_n==1,"one buffer is allocated"); hs_chk(cap_sz>=(size_t)z,"a buffer is at least as large as asked"); hs_chk(cap_sz<=2*(size_t)z,"a buffer is not much larger than asked"); hs_chk(cap_al>=128 && (cap_al&(cap_al-1))==0,"buffers are 128 byte aligned");
  want(m,side,1,y); hs_chk(cap_n==1 && buf(m,side,1)==pool,"a smaller request keeps the buffer"); hs_chk(buf(m,side,0)==NULL && buf(m,!side,1)==NULL,"other ports keep their buffer");
}
static void misuse(int which) {
  mp_t *m = which==9 ? NULL : new_mp(NP); int p = (int)hs_int("port",-4,8); hs_chk(p<=8,"port");
  static int x[4], y[4]; static double d[4], e[4];
  if (which<9) for (int q=0; q<NP; q++) { want(m,0,q,8); want(m,1,q,8); }
  if (which==9) { hs_expect_exit(1); switch (hs_choose("call",7)) { case 0: mp_recv_buffer(m,0); break; case 1: mp_send_buffer(m,0); break; case 2: mp_size_recv_buffer(m,0,8); break; case 3: mp_size_send_buffer(m,0,8); break; case 4: mp_begin_recv(m,0,1,0,0); break; case 5: mp_end_recv(m,0); break; default: mp_end_send(m,0); } hs_chk(0,"a missing set of buffers is refused"); }
  if (which==10) { int n = (int)hs_int("n",-5,0); hs_expect_exit(1); new_mp(n); hs_chk(0,"a set without ports is refused"); }
  if (which==11) { int n = (int)hs_int("n",-3,4), c = hs_choose("call",8); hs_assume(n<1); hs_expect_exit(1); switch (c) { case 0: mp_allsum_d(d,e,n); break; case 1: mp_allsum_i(x,y,n); break; case 2: mp_allgather_i(x,y,n); break; case 3: mp_allgather_i64((int64_t*)x,(int64_t*)y,n); break; case 4: mp_gather_uc((unsigned char*)x,(unsigned char*)y,n); break; case 5: mp_send_i(x,n,0); break; case 6: mp_recv_i(x,n,0); break; default: mp_begin_send(m,0,n,0,0); } hs_chk(0,"an empty transfer is refused"); }
  if (which==12) { int n = (int)hs_int("n",1,4), o = (int)hs_int("o",0,3), c = hs_choose("call",2); hs_assume(o<n); hs_expect_exit(1); if (c) mp_allsum_d(d,d+o,n); else mp_allsum_i(x+o,x,n); hs_chk(0,"overlapping arguments of a global sum are refused"); }
  if (which==13) { int c = hs_choose("call",12); hs_expect_exit(1); switch (c) { case 0: mp_allsum_d(NULL,e,1); break; case 1: mp_allsum_d(d,NULL,1); break; case 2: mp_allsum_i(NULL,y,1); break; case 3: mp_allsum_i(x,NULL,1); break; case 4: mp_allgather_i(NULL,y,1); break; case 5: mp_allgather_i(x,NULL,1); break; case 6: mp_allgather_i64(NULL,(int64_t*)y,1); break; case 7: mp_allgather_i64((int64_t*)x,NULL,1); break; case 8: mp_gather_uc(NULL,(unsigned char*)y,1); break; case 9: mp_gather_uc((unsigned char*)x,NULL,1); break; case 10: mp_send_i(NULL,1,0); break; default: mp_recv_i(NULL,1,0); } hs_chk(0,"a missing argument is refused"); }
  if (which==14) { int w = (int)hs_int("rank",-3,5), c = hs_choose("call",4); hs_assume(w<0 || w>=world_size); hs_expect_exit(1); switch (c) { case 0: mp_send_i(x,1,w); break; case 1: mp_recv_i(x,1,w); break; case 2: mp_begin_send(m,0,1,w,0); break; default: mp_begin_recv(m,0,1,w,0); } hs_chk(0,"an unknown process is refused"); }
  if (which==7) { int z = (int)hs_int("n",-3,40), c = hs_choose("call",4); p = (int)hs_int("p",0,NP-1); hs_assume(c<2 ? z<1 : z<1 || z>12); hs_expect_exit(1); switch (c) { case 0: mp_size_recv_buffer(m,p,z); break; case 1: mp_size_send_buffer(m,p,z); break; case 2: mp_begin_recv(m,p,z,0,0); break; default: mp_begin_send(m,p,z,0,0); } hs_chk(0,"a size outside the buffer is refused"); }
  if (which<7 || which==8) { hs_assume(p<0 || p>=NP); hs_expect_exit(1);
    switch (which) { case 0: mp_recv_buffer(m,p); break; case 1: mp_send_buffer(m,p); break; case 2: mp_size_recv_buffer(m,p,8); break; case 3: mp_size_send_buffer(m,p,8); break; case 4: mp_begin_recv(m,p,1,0,0); break; case 5: mp_begin_send(m,p,1,0,0); break; case 6: mp_end_recv(m,p); break; default: mp_end_send(m,p); }
    hs_chk(0,"a port outside the layout is refused"); }
}
/* every process sends to every process (itself included), port = peer, several rounds with growing and shrinking sizes */
static int sz(int pat, int round, int from, int to) { return 1+(from*5+to*3+round*7+pat*11)%9; }
static void exchange(int order, int rounds, int pat) {
  int W = world_size, me = world_rank; mp_t *m = new_mp(W);
  static char d[2][4][4][12];
  for (int r=0; r<rounds; r++) {
    char (*t)[4][12] = d[r&1];
    for (int f=0; f<W; f++) for (int o=0; o<W; o++) for (int i=0; i<sz(pat,r,f,o); i++) t[f][o][i] = (char)hs_bits("data",8);
    for (int step=0; step<2; step++) {
      int rec = (order&1) ? step : !step;
      for (int k=0; k<W; k++) { int q = (order&2) ? W-1-k : k;
        if (rec) { int n = sz(pat,r,q,me); mp_size_recv_buffer(m,q,n); mp_begin_recv(m,q,n,q,q*4+me+r*16); }
        else { int n = sz(pat,r,me,q); mp_size_send_buffer(m,q,n); char *b = buf(m,1,q); for (int i=0; i<n; i++) b[i] = t[me][q][i]; mp_begin_send(m,q,n,q,me*4+q+r*16); } }
    }
    for (int step=0; step<2; step++) {
      int rec = (order&4) ? step : !step;
      for (int k=0; k<W; k++) { int q = (order&8) ? W-1-k : k;
        if (!rec) { mp_end_send(m,q); continue; }
        mp_end_recv(m,q); int n = sz(pat,r,q,me), ok = 1; char *b = buf(m,0,q); for (int i=0; i<n; i++) ok &= b[i]==t[q][me][i];
        hs_chk(ok,"a finished receive holds the bytes the peer sent"); }
    }
    for (int q=0; q<W; q++) { int n = sz(pat,r,q,me), ok = 1; char *b = buf(m,0,q); for (int i=0; i<n; i++) ok &= b[i]==t[q][me][i]; hs_chk(ok,"received data stay until the next receive"); }
  }
  delete_mp(m);
}
static void mismatch(int n, int k) {         /* rank 1 sends n bytes, rank 0 expects k>n */
  mp_t *m = new_mp(2); int me = world_rank;
  if (me==1) { mp_size_send_buffer(m,0,n); for (int i=0; i<n; i++) buf(m,1,0)[i] = (char)i; mp_begin_send(m,0,n,0,3); mp_end_send(m,0); hs_chk(1,"sent"); }
  else { mp_size_recv_buffer(m,1,k); mp_begin_recv(m,1,k,1,3); hs_expect_exit(k!=n); mp_end_recv(m,1); hs_chk(k==n,"a message of another size is refused"); }
}
static void coll(int kind, int n) {
  int W = world_size, me = world_rank; static double d[4][4], e[4]; static int x[4][4], y[16]; static int64_t u[4][4], v[16]; static unsigned char b[4][4], c[16];
  for (int r=0; r<W; r++) for (int i=0; i<n; i++) { d[r][i] = hs_f64("d",-1,1); x[r][i] = (int)hs_int("x",-100000000,100000000); u[r][i] = (int64_t)hs_bits("u",64); b[r][i] = (unsigned char)hs_bits("b",8); }
  for (int i=0; i<16; i++) { y[i] = -7; v[i] = -7; c[i] = 7; } for (int i=0; i<4; i++) e[i] = -7;
  if (kind==0) { mp_allsum_d(d[me],e,n); for (int i=0; i<n; i++) { double s = 0; for (int r=0; r<W; r++) s += d[r][i]; hs_near(e[i],s,1e-9,"a global sum has one contribution per process"); } for (int i=n; i<4; i++) hs_chk(e[i]==-7,"nothing else is written"); }
  if (kind==1) { mp_allsum_i(x[me],y,n); for (int i=0; i<n; i++) { int s = 0; for (int r=0; r<W; r++) s += x[r][i]; hs_chk(y[i]==s,"a global sum has one contribution per process"); } for (int i=n; i<16; i++) hs_chk(y[i]==-7,"nothing else is written"); }
  if (kind==2) { mp_allgather_i(x[me],y,n); for (int r=0; r<W; r++) for (int i=0; i<n; i++) hs_chk(y[r*n+i]==x[r][i],"gathered values are in process order"); for (int i=W*n; i<16; i++) hs_chk(y[i]==-7,"nothing else is written"); }
  if (kind==3) { mp_allgather_i64(u[me],v,n); for (int r=0; r<W; r++) for (int i=0; i<n; i++) hs_chk(v[r*n+i]==u[r][i],"gathered values are in process order"); for (int i=W*n; i<16; i++) hs_chk(v[i]==-7,"nothing else is written"); }
  if (kind==4) { mp_gather_uc(b[me],me ? (unsigned char*)NULL : c,n); if (me==0) for (int r=0; r<W; r++) for (int i=0; i<n; i++) hs_chk(c[r*n+i]==b[r][i],"gathered values are in process order"); else hs_chk(c[0]==7,"only the first process receives"); if (me==0) for (int i=W*n; i<16; i++) hs_chk(c[i]==7,"nothing else is written"); }
  if (kind==5) { mp_barrier(); for (int r=1; r<W; r++) { if (me==0) mp_recv_i(y,n,r); else if (me==r) mp_send_i(x[me],n,0); if (me==0) for (int i=0; i<n; i++) hs_chk(y[i]==x[r][i],"a sent integer arrives"); } mp_barrier(); hs_chk(1,"done"); }
  if (kind==6) { int in = 0; for (int t=1; t<=W+1; t++) { BEGIN_TURNSTILE(t) { in++; } END_TURNSTILE; } hs_chk(in==W+1,"every process passes a turnstile once"); mp_barrier(); }
}
void hs_main(void) {
  int op = hs_cfg(0), a = hs_cfg(1), b = hs_cfg(2), c = hs_cfg(3);
  boot();
  if (op==0) sizes(a,b,c); else if (op==1) anysize(a); else if (op==2) misuse(a); else if (op==3) exchange(a,b,c); else if (op==4) mismatch(a,b); else if (op==5) coll(a,b);
  hs_reach("end");
}
