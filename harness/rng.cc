// Random numbers. cfg: op ...   (C20: op 0-4, C21: op 10-)
#define IN_rng
#include "util/rng/rng_private.h"
#include "util/util.h"
#include "hs.h"
#include <string.h>
#include <limits.h>
#include <math.h>
static void boot(void) { static int done = 0; static char nm[] = "vpic"; static char *av[2] = { nm, NULL }; if (done) return; done = 1; int ac = 1; char **a = av; boot_checkpt(&ac,&a); boot_mp(&ac,&a); }
static void put(rng_t *r, int pos, uint64_t v, int sz) { for (int i=0; i<sz; i++) r->state.u8[pos+i] = (uint8_t)(v>>(8*i)); }
#define FRANDN_N 64
#define DRANDN_N 256
#define INTS(_) _(0,char,c,unsigned char) _(1,short,h,unsigned short) _(2,int,i,unsigned int) _(3,long,l,unsigned long) _(4,int8_t,i8,uint8_t) _(5,int16_t,i16,uint16_t) _(6,int32_t,i32,uint32_t) _(7,int64_t,i64,uint64_t)
#define UINTS(_) _(8,unsigned char,uc,unsigned char) _(9,unsigned short,uh,unsigned short) _(10,unsigned int,ui,unsigned int) _(11,unsigned long,ul,unsigned long) _(12,uint8_t,u8,uint8_t) _(13,uint16_t,u16,uint16_t) _(14,uint32_t,u32,uint32_t) _(15,uint64_t,u64,uint64_t)
#define FLTS(_) _(16,float,f,frand,uint32_t) _(17,float,f,frand_c0,uint32_t) _(18,float,f,frand_c1,uint32_t) _(19,float,f,frand_c,uint32_t) _(20,double,d,drand,uint64_t) _(21,double,d,drand_c0,uint64_t) _(22,double,d,drand_c1,uint64_t) _(23,double,d,drand_c,uint64_t)
/* draw of kind k as its bytes; sz: size of the result, *raw: raw bytes consumed */
static int rawsz(int k) { switch (k) {
#define _(n,t,p,u) case n: return sizeof(t);
INTS(_) UINTS(_)
#undef _
#define _(n,t,x,p,u) case n: return sizeof(u);
FLTS(_)
#undef _
} return 0; }
static void draw(rng_t *r, int k, void *out) { switch (k) {
#define _(n,t,p,u) case n: { t x = p##rand(r); memcpy(out,&x,sizeof(t)); } break;
INTS(_) UINTS(_)
#undef _
#define _(n,t,x,p,u) case n: { t y = p(r); memcpy(out,&y,sizeof(t)); } break;
FLTS(_)
#undef _
} }
static void fill(rng_t *r, int k, void *x, size_t s, size_t n) { void *y = NULL; switch (k) {
#define _(m,t,p,u) case m: y = p##rand_fill(r,(t*)x,s,n); break;
INTS(_) UINTS(_)
#undef _
#define _(m,t,q,p,u) case m: y = p##_fill(r,(t*)x,s,n); break;
FLTS(_)
#undef _
case 24: y = frande_fill(r,(float*)x,s,n); break; case 25: y = drande_fill(r,(double*)x,s,n); break; case 26: y = frandn_fill(r,(float*)x,s,n); break; case 27: y = drandn_fill(r,(double*)x,s,n); break;
} hs_chk(y==x, "fill returns its array"); }
/* integer k -> double range check */
static void chk_int(int k, uint64_t u, rng_t *r) { switch (k) {
#define _(n,t,p,ut) case n: { t x = p##rand(r); ut raw = (ut)u; hs_chk(x>=0, #p "rand is not negative"); hs_chk((ut)x==(ut)(raw>>1), #p "rand covers 0..MAX"); } break;
INTS(_)
#undef _
#define _(n,t,p,ut) case n: { t x = p##rand(r); hs_chk(x==(ut)u, #p "rand covers 0..MAX"); } break;
UINTS(_)
#undef _
} }
static int fin(double x) { return x-x==0; }
void hs_main(void) {
  boot();
  int op = hs_cfg(0), k = hs_cfg(1);
  rng_t *r = new_rng(1);
  if (op==0) {                                              /* integer draws */
    int sz = rawsz(k); uint64_t u = hs_bits("raw",8*sz); put(r,0,u,sz); r->n = 0; chk_int(k,u,r);
  } else if (op==1 && k<20) {                               /* single precision uniforms */
    uint32_t u = (uint32_t)hs_bits("raw",32); put(r,0,u,4); r->n = 0; float x;
    double t = (double)(u>>8);
    switch (k) {
    case 16: x = frand(r);    hs_chk(x>0.f && x<1.f, "frand lies in (0,1)");     hs_chk((double)x*8388608. == (double)(u>>9)+0.5, "frand is the midpoint of its raw sub-interval"); break;
    case 17: x = frand_c0(r); hs_chk(x>=0.f && x<1.f, "frand_c0 lies in [0,1)"); hs_chk((double)x*16777216. == t, "frand_c0 rounds down"); break;
    case 18: x = frand_c1(r); hs_chk(x>0.f && x<=1.f, "frand_c1 lies in (0,1]"); hs_chk((double)x*16777216. == t+1, "frand_c1 rounds up"); break;
    case 19: x = frand_c(r);  hs_chk(x>=0.f && x<=1.f, "frand_c lies in [0,1]"); hs_chk((double)x*16777216. == t+(u&1), "frand_c rounds to nearest"); break;
    }
    hs_chk(r->n==4, "one raw word per draw");
  } else if (op==1) {                                       /* double precision uniforms */
    uint64_t u = hs_bits("raw",64); put(r,0,u,8); r->n = 0; double x;
    switch (k) {
    case 20: x = drand(r);    hs_chk(x>0. && x<1., "drand lies in (0,1)");     hs_chk(x*9007199254740992. == (double)(2*(u>>12)+1), "drand is the midpoint of its raw sub-interval"); break;
    case 21: x = drand_c0(r); hs_chk(x>=0. && x<1., "drand_c0 lies in [0,1)"); hs_chk(x*9007199254740992. == (double)(u>>11), "drand_c0 rounds down"); break;
    case 22: x = drand_c1(r); hs_chk(x>0. && x<=1., "drand_c1 lies in (0,1]"); hs_chk(x*9007199254740992. == (double)((u>>11)+1), "drand_c1 rounds up"); break;
    case 23: x = drand_c(r);  hs_chk(x>=0. && x<=1., "drand_c lies in [0,1]"); hs_chk(x*9007199254740992. == (double)((u>>11)+(u&1)), "drand_c rounds to nearest"); break;
    }
    hs_chk(r->n==8, "one raw word per draw");
  } else if (op==2) {                                       /* exponential */
    if (k==0) { uint32_t u = (uint32_t)hs_bits("raw",32); put(r,0,u,4); r->n = 0; float x = frande(r); hs_chk(x>=0.f && x<1e3f, "frande is finite and not negative"); }
    else { uint64_t u = hs_bits("raw",64); put(r,0,u,8); r->n = 0; double x = drande(r); hs_chk(x>=0. && x<1e3, "drande is finite and not negative"); }
  } else if (op==3) {                                       /* normal: layer index k, sign s, at most one rejection */
    int s = hs_cfg(2), w;
    if (hs_cfg(3)==0) {
      uint32_t u = ((uint32_t)hs_bits("raw",25)<<7) | (uint32_t)(k<<1) | s, a = (uint32_t)hs_bits("raw2",32), b = (uint32_t)hs_bits("raw3",32);
      w = k==FRANDN_N-1 ? 3 : 2; put(r,0,u,4); put(r,4,a,4); put(r,8,b,4); put(r,4*w,2|s,4); put(r,4*w+4,0,4); r->n = 0;     /* after a rejection: zero from layer 1 */
      float x = frandn(r);
      hs_chk(x>-50.f && x<50.f, "frandn is finite");
      hs_chk(s ? x<=0.f : x>=0.f, "frandn sign follows its sign bit");
      hs_chk(r->n<=(uint32_t)4*(w+1), "frandn draws again only after a rejection");
    } else {
      uint64_t u = (hs_bits("raw",55)<<9) | (uint64_t)(k<<1) | s, a = hs_bits("raw2",64), b = hs_bits("raw3",64);
      w = k==DRANDN_N-1 ? 3 : 2; put(r,0,u,8); put(r,8,a,8); put(r,16,b,8); put(r,8*w,2|s,8); put(r,8*w+8,0,8); r->n = 0;
      double x = drandn(r);
      hs_chk(x>-100. && x<100., "drandn is finite");
      hs_chk(s ? x<=0. : x>=0., "drandn sign follows its sign bit");
      hs_chk(r->n<=(uint32_t)8*(w+1), "drandn draws again only after a rejection");
    }
  } else if (op==4) {                                       /* monotone in the raw bits */
    if (k<20) {
      uint32_t u = (uint32_t)hs_bits("u",32), v = (uint32_t)hs_bits("v",32); hs_assume((u>>9)<=(v>>9)); if (k!=16) hs_assume((u>>8)<(v>>8) || u==v);
      put(r,0,u,4); put(r,4,v,4); r->n = 0; float a,b; draw(r,k,&a); draw(r,k,&b); hs_chk(a<=b, "monotone in the raw bits");
    } else {
      uint64_t u = hs_bits("u",64), v = hs_bits("v",64); hs_assume((u>>12)<=(v>>12)); if (k!=20) hs_assume((u>>11)<(v>>11) || u==v);
      put(r,0,u,8); put(r,8,v,8); r->n = 0; double a,b; draw(r,k,&a); draw(r,k,&b); hs_chk(a<=b, "monotone in the raw bits");
    }
  }
  /* ---------------- C21 */
  else if (op==10) {                                        /* seeding: published initialisation and period certification */
    uint32_t s = (uint32_t)hs_bits("seed",32), w[SFMT_N32], par[4] = { 0x00000001u,0,0xe8148000u,0xd0c7afa3u };
    for (int i=0; i<SFMT_N32; i++) r->state.u32[i] = (uint32_t)hs_bits("before",32);
    r->n = 7;
    rng_t *q = seed_rng(r,(int)s); hs_chk(q==r, "seed_rng returns the generator");
    w[0] = s; for (uint32_t i=1; i<SFMT_N32; i++) w[i] = 1812433253u*(w[i-1]^(w[i-1]>>30))+i;
    uint32_t b = 0; for (int i=0; i<4; i++) b ^= w[i]&par[i];
    b ^= b>>16; b ^= b>>8; b ^= b>>4; b ^= b>>2; b ^= b>>1;
    if (!(b&1)) w[0] ^= 1;
    for (int i=0; i<SFMT_N32; i++) hs_chk(r->state.u32[i]==w[i], "seeding determines the state");
    hs_chk(r->n==SFMT_NC, "a seeded generator starts with a fresh block");
    rng_t *t = new_rng((int)s); int same = t->n==r->n; for (int i=0; i<SFMT_N32; i++) same &= t->state.u32[i]==w[i];
    hs_chk(same, "equal seeds give equal generators"); delete_rng(t);
  } else if (op==11) {                                      /* block generator: SFMT-11213 recurrence */
    uint32_t o[SFMT_N32]; static const uint32_t msk[4] = { 0xeffff7fbu,0xffffffefu,0xdfdfbfffu,0x7fffdbfdu };
    for (int i=0; i<SFMT_N32; i++) r->state.u32[i] = o[i] = (uint32_t)hs_bits("s",32);
    r->n = SFMT_NC;
    uint64_t buf; draw(r,k,&buf); hs_chk(r->n==(uint32_t)rawsz(k), "first draw of the new block");
    const int N = 88, M = 68;
    for (int n=0; n<N; n++) {
      const uint32_t *a = o+4*n, *b = n+M<N ? o+4*(n+M) : r->state.u32+4*(n+M-N), *c = n>=2 ? r->state.u32+4*(n-2) : o+4*(N-2+n), *d = n>=1 ? r->state.u32+4*(n-1) : o+4*(N-1);
      for (int i=0; i<4; i++) {
        uint32_t A = (a[i]<<24)|0, lo = i ? a[i-1]>>8 : 0, C = c[i]>>24, hi = i<3 ? c[i+1]<<8 : 0;
        uint32_t e = a[i] ^ (A|lo) ^ ((b[i]>>7)&msk[i]) ^ (C|hi) ^ (d[i]<<14);
        (void)e; hs_chk(r->state.u32[4*n+i]==e, "block recurrence");
      }
    }
  }
  else if (op==12) {                                        /* fill equals repeated single draws; aligned position reference */
    int n = hs_cfg(2), str = hs_cfg(3), cnt = hs_cfg(4), sz = rawsz(k); rng_t *q = new_rng(2);
    if (k>=24) sz = k&1 ? 8 : 4;
    for (int i=0; i<SFMT_N32; i++) { int w = n<(int)SFMT_NC-16 ? n/4 : i>=SFMT_N32-4 ? SFMT_N32-4 : 0; r->state.u32[i] = q->state.u32[i] = k<26 && i>=w && i<w+(w ? 24 : 2) ? (uint32_t)hs_bits("s",32) : 0x5bd1e995u*(uint32_t)(i+k*7919+1); }
    r->n = q->n = n;
    int es = k<16 ? sz : k<20 || k==24 || k==26 ? 4 : 8;
    uint8_t *x = (uint8_t*)malloc(es*str*cnt+16), *o = (uint8_t*)malloc(es*str*cnt+16);
    for (int i=0; i<es*str*cnt+16; i++) x[i] = o[i] = (uint8_t)(i*37+11);
    fill(r,k,x,str,cnt);
    for (int i=0; i<cnt; i++) {
      uint64_t b = 0;
      switch (k) { case 24: { float y = frande(q); memcpy(&b,&y,4); } break; case 25: { double y = drande(q); memcpy(&b,&y,8); } break; case 26: { float y = frandn(q); memcpy(&b,&y,4); } break; case 27: { double y = drandn(q); memcpy(&b,&y,8); } break; default: draw(q,k,&b); }
      memcpy(o+es*str*i,&b,es);
    }
    for (int i=0; i<es*str*cnt+16; i+=es) hs_chk(es==1 ? x[i]==o[i] : es==2 ? *(uint16_t*)(x+i)==*(uint16_t*)(o+i) : es==4 ? *(uint32_t*)(x+i)==*(uint32_t*)(o+i) : *(uint64_t*)(x+i)==*(uint64_t*)(o+i), "fill gives the numbers of repeated single draws and nothing else");
    hs_chk(r->n==q->n, "fill leaves the generator where single draws would");
    for (int i=0; i<SFMT_N32; i++) hs_chk(r->state.u32[i]==q->state.u32[i], "fill leaves the same state");
  } else if (op==13) {                                      /* a mix of draws consumes disjoint aligned bytes in order */
    int n = hs_cfg(1); r->n = n; rng_t *q = new_rng(3);
    for (int i=0; i<SFMT_N32; i++) { int w = n<(int)SFMT_NC-48 ? n/4 : i>=SFMT_N32-12 ? SFMT_N32-12 : 0; r->state.u32[i] = q->state.u32[i] = i>=w && i<w+(w ? 16 : 2) ? (uint32_t)hs_bits("s",32) : 0x5bd1e995u*(uint32_t)(i+1); }
    for (int j=2; j<8; j++) {
      int kk = hs_cfg(j), sz = rawsz(kk);
      n = (n+sz-1)/sz*sz;
      if (n>=(int)SFMT_NC) { q->n = SFMT_NC; draw(q,8,&n); n = 0; }           /* next block (its recurrence is checked separately) */
      uint64_t b = 0, e = 0; draw(r,kk,&b); for (int i=0; i<sz; i++) e |= (uint64_t)q->state.u8[n+i]<<(8*i);
      if (kk<8) e >>= 1;
      if (kk<16) hs_chk(b==e, "draw takes the next aligned bytes of the stream");
      else if (kk<20) { uint32_t u = (uint32_t)e; float y = kk==16 ? ((u>>9)+0.5f)*(2.f/16777216.f) : kk==17 ? (u>>8)*(1.f/16777216.f) : kk==18 ? ((u>>8)+1)*(1.f/16777216.f) : ((u>>8)+(u&1))*(1.f/16777216.f); float z; memcpy(&z,&b,4); hs_chk(y==z, "draw takes the next aligned word of the stream"); }
      n += sz; hs_chk((int)r->n==n, "position after the draw");
    }
    for (int i=0; i<SFMT_N32; i++) hs_chk(r->state.u32[i]==q->state.u32[i], "draws do not alter the block");
  } else if (op==14) {                                      /* pools */
    int nr = k, sync = hs_cfg(2), small = hs_cfg(3); static const int sd[4] = { 1, -7, 123456, 0 }; int seed = (int)(small ? hs_int("seed",-100000,100000) : sd[hs_choose("seedpick",4)]);
    rng_pool_t *a = new_rng_pool(nr,seed,sync), *b = new_rng_pool(nr,seed,1-sync);
    hs_chk(a->n_rng==nr && b->n_rng==nr, "pool size");
    uint32_t base = (uint32_t)(world_size+1)*(uint32_t)nr*(uint32_t)seed;
    for (int p=0; p<2; p++) for (int i=0; i<nr; i++) {
      rng_t *g = p ? b->rng[i] : a->rng[i]; int sy = p ? 1-sync : sync;
      uint32_t want = base + (uint32_t)(world_size+1)*i + (sy ? world_size : world_rank);
      rng_t *w = new_rng((int)want); int same = 1;
      for (int j=0; j<SFMT_N32; j++) same &= g->state.u32[j]==w->state.u32[j];
      hs_chk(same, "each generator of a pool has the seed of its rank and slot; synchronised pools agree");
      delete_rng(w);
    }
    /* all those seeds differ, over ranks, slots and both kinds */
    for (int i=0; i<nr; i++) for (int s=0; s<=world_size; s++) for (int i2=0; i2<nr; i2++) for (int s2=0; s2<=world_size; s2++)
      if (i!=i2 || s!=s2) hs_chk(base+(uint32_t)(world_size+1)*i+s != base+(uint32_t)(world_size+1)*i2+s2, "seeds of different ranks and slots differ");
    delete_rng_pool(b); delete_rng_pool(a);
  } else if (op==15) {                                      /* randperm */
    int n = k, x[8], seen[8] = {0}; r->n = 0;
    for (int i=0; i<8; i++) x[i] = 77;
    if (hs_cfg(2)==0) {
      for (int i=0; i<n+2; i++) put(r,4*i,hs_bits("raw",32),4);
      int *y = randperm(r,x,n); hs_chk(y==x, "randperm returns its array");
      hs_assume(r->n <= (uint32_t)4*(n+1));
    } else {
      int e[8]; for (int i=0; i<n; i++) e[i] = i;
      for (int i=0; i<n-1; i++) { int m = n-i, c = hs_choose("pick",m); uint32_t raw = (uint32_t)hs_bits("raw",32); double lo = 4294967296.*(c+0.01)/m, hi = 4294967296.*(c+0.99)/m; hs_assume(raw>=(uint32_t)lo && raw<=(uint32_t)hi); put(r,4*i,raw,4); int t = e[i]; e[i] = e[i+c]; e[i+c] = t; }
      randperm(r,x,n);
      for (int i=0; i<n; i++) hs_chk(x[i]==e[i], "equal shares of the raw values select each remaining element");
    }
    for (int i=0; i<n; i++) { hs_chk(x[i]>=0 && x[i]<n, "randperm entry in range"); if (x[i]>=0 && x[i]<n) seen[x[i]]++; }
    for (int i=0; i<n; i++) hs_chk(seen[i]==1, "randperm is a permutation");
    for (int i=n; i<8; i++) hs_chk(x[i]==77, "randperm writes only n entries");
  } else if (op==16) {                                      /* shuffle */
    int n = k, sz = hs_cfg(2), str = hs_cfg(3); uint8_t x[96], o[96]; r->n = 0;
    for (int i=0; i<96; i++) x[i] = o[i] = (uint8_t)hs_bits("b",8);
    int e[8]; for (int i=0; i<n; i++) e[i] = i;
    for (int i=0; i<n-1; i++) { int m = n-i, c = hs_choose("pick",m); uint64_t raw = hs_bits("raw",64); uint64_t q = UINT64_MAX/m, d = UINT64_MAX/(100*m); hs_assume(raw>=q*c+d && raw<=q*(c+1)-d); put(r,8*i,raw,8); int t = e[i]; e[i] = e[i+c]; e[i+c] = t; }
    void *y = shuffle(r,x,sz,str,n); hs_chk(y==x, "shuffle returns its array");
    int nd = 0;
    for (int i=0; i<96; i++) {
      int el = i/str, off = i%str; uint8_t w = el<n && off<sz ? o[e[el]*str+off] : o[i];
      hs_chk(x[i]==w, el<n && off<sz ? "shuffle moves whole elements; each order has equal shares of the raw values" : "shuffle leaves other bytes alone");
    }
    (void)nd;
  }
}
