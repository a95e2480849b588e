// Vector classes.  W (lanes) is the widest class of the build unless cfg1 asks for a narrower one.
// cfg: op lanes
// STANDALONE
// IRFLAGS: -mllvm -two-entry-phi-node-folding-threshold=40 -mllvm -phi-node-folding-threshold=40
#include <math.h>
#include <string.h>
#include "util/v4/v4.h"
#include "util/v8/v8.h"
#include "util/v16/v16.h"
#include "hs.h"
typedef uint32_t u32; typedef int32_t i32;
static inline u32 fb(float f) { u32 u; memcpy(&u,&f,4); return u; }
static inline float bf(u32 u) { float f; memcpy(&f,&u,4); return f; }
/* each build decides the classes that are its own */
#ifdef V16_ACCELERATION
#define NO4
#endif
#ifdef USE_V16_AVX512
#define NO8
#endif
#define A4(m) m(0),m(1),m(2),m(3)
#define A8(m) A4(m),m(4),m(5),m(6),m(7)
#define A16(m) A8(m),m(8),m(9),m(10),m(11),m(12),m(13),m(14),m(15)
#define QA(i) a[i]
#define QP(i) p[i]
#define PERMS(N) template<class V> static void shuf(int k, const V &a, V &r)
static int perm(int k, int i, int N) { return k==0 ? i : k==1 ? (i+1)%N : k==2 ? N-1-i : k==3 ? (3*i+1)%N : k==4 ? (i^1) : k==5 ? N/2-1 : (i*i+2)%N; }
#define CPERM(k,i,N) ((k)==0 ? (i) : (k)==1 ? ((i)+1)%(N) : (k)==2 ? (N)-1-(i) : (k)==3 ? (3*(i)+1)%(N) : (k)==4 ? ((i)^1) : (k)==5 ? (N)/2-1 : ((i)*(i)+2)%(N))
#if defined V4_ACCELERATION && !defined NO4
struct T4 { typedef ::v4::v4 V; typedef ::v4::v4int I; typedef ::v4::v4float F; enum { N = 4 };
  static I mi(const i32 *a) { return I(A4(QA)); } static F mf(const float *a) { return F(A4(QA)); }
  static void ld(const void *p, V &a) { load_4x1(p,a); } static void st(const V &a, void *p) { store_4x1(a,p); } static void str(const V &a, void *p) { stream_4x1(a,p); }
  static void clr(void *p) { ::v4::clear_4x1(p); } static void cpy(void *d, const void *s) { ::v4::copy_4x1(d,s); } static void swp(void *a, void *b) { ::v4::swap_4x1(a,b); }
  static void inc(float *p, const F &a) { increment_4x1(p,a); } static void dec(float *p, const F &a) { decrement_4x1(p,a); } static void scl(float *p, const F &a) { scale_4x1(p,a); }
  static void tr(V *a) { transpose(A4(QA)); }
  static int ldtr(int k, void **p, V *a) { if (k==1) load_4x1_tr(A4(QP),a[0]); else if (k==2) load_4x2_tr(A4(QP),a[0],a[1]); else if (k==3) load_4x3_tr(A4(QP),a[0],a[1],a[2]); else if (k==4) load_4x4_tr(A4(QP),A4(QA)); else return 0; return k; }
  static int sttr(int k, void **p, V *a) { if (k==1) store_4x1_tr(a[0],A4(QP)); else if (k==2) store_4x2_tr(a[0],a[1],A4(QP)); else if (k==3) store_4x3_tr(a[0],a[1],a[2],A4(QP)); else if (k==4) store_4x4_tr(A4(QA),A4(QP)); else return 0; return k; }
#define SH(k,a) ::v4::shuffle<CPERM(k,0,4),CPERM(k,1,4),CPERM(k,2,4),CPERM(k,3,4)>(a)
  static V sh(int k, const V &a) { return k==0 ? SH(0,a) : k==1 ? SH(1,a) : k==2 ? SH(2,a) : k==3 ? SH(3,a) : k==4 ? SH(4,a) : k==5 ? SH(5,a) : SH(6,a); }
#undef SH
  static V sp(int n, const V &a) { switch(n) { case 0: return ::v4::splat<0>(a); case 1: return ::v4::splat<1>(a); case 2: return ::v4::splat<2>(a); default: return ::v4::splat<3>(a); } }
};
#endif
#if defined V8_ACCELERATION && !defined NO8
struct T8 { typedef ::v8::v8 V; typedef ::v8::v8int I; typedef ::v8::v8float F; enum { N = 8 };
  static I mi(const i32 *a) { return I(A8(QA)); } static F mf(const float *a) { return F(A8(QA)); }
  static void ld(const void *p, V &a) { load_8x1(p,a); } static void st(const V &a, void *p) { store_8x1(a,p); } static void str(const V &a, void *p) { stream_8x1(a,p); }
  static void clr(void *p) { ::v8::clear_8x1(p); } static void cpy(void *d, const void *s) { ::v8::copy_8x1(d,s); } static void swp(void *a, void *b) { ::v8::swap_8x1(a,b); }
  static void inc(float *p, const F &a) { increment_8x1(p,a); } static void dec(float *p, const F &a) { decrement_8x1(p,a); } static void scl(float *p, const F &a) { scale_8x1(p,a); }
  static void tr(V *a) { transpose(A8(QA)); }
  static int ldtr(int k, void **p, V *a) { if (k==1) load_8x1_tr(A8(QP),a[0]); else if (k==2) load_8x2_tr(A8(QP),a[0],a[1]); else if (k==3) load_8x3_tr(A8(QP),a[0],a[1],a[2]); else if (k==4) load_8x4_tr(A8(QP),A4(QA)); else if (k==8) load_8x8_tr(A8(QP),A8(QA)); else return 0; return k; }
  static int sttr(int k, void **p, V *a) { if (k==1) store_8x1_tr(a[0],A8(QP)); else if (k==2) store_8x2_tr(a[0],a[1],A8(QP)); else if (k==3) store_8x3_tr(a[0],a[1],a[2],A8(QP)); else if (k==4) store_8x4_tr(A4(QA),A8(QP)); else if (k==8) store_8x8_tr(A8(QA),A8(QP)); else return 0; return k; }
#define SH(k,a) ::v8::shuffle<CPERM(k,0,8),CPERM(k,1,8),CPERM(k,2,8),CPERM(k,3,8),CPERM(k,4,8),CPERM(k,5,8),CPERM(k,6,8),CPERM(k,7,8)>(a)
  static V sh(int k, const V &a) { return k==0 ? SH(0,a) : k==1 ? SH(1,a) : k==2 ? SH(2,a) : k==3 ? SH(3,a) : k==4 ? SH(4,a) : k==5 ? SH(5,a) : SH(6,a); }
#undef SH
#define C(n) case n: return ::v8::splat<n>(a);
  static V sp(int n, const V &a) { switch(n) { C(1) C(2) C(3) C(4) C(5) C(6) C(7) default: return ::v8::splat<0>(a); } }
};
#endif
#ifdef V16_ACCELERATION
struct T16 { typedef ::v16::v16 V; typedef ::v16::v16int I; typedef ::v16::v16float F; enum { N = 16 };
  static I mi(const i32 *a) { return I(A16(QA)); } static F mf(const float *a) { return F(A16(QA)); }
  static void ld(const void *p, V &a) { load_16x1(p,a); } static void st(const V &a, void *p) { store_16x1(a,p); } static void str(const V &a, void *p) { stream_16x1(a,p); }
  static void clr(void *p) { ::v16::clear_16x1(p); } static void cpy(void *d, const void *s) { ::v16::copy_16x1(d,s); } static void swp(void *a, void *b) { ::v16::swap_16x1(a,b); }
  static void inc(float *p, const F &a) { increment_16x1(p,a); } static void dec(float *p, const F &a) { decrement_16x1(p,a); } static void scl(float *p, const F &a) { scale_16x1(p,a); }
  static void tr(V *a) { transpose(A16(QA)); }
  static int ldtr(int k, void **p, V *a) { if (k==1) load_16x1_tr(A16(QP),a[0]); else if (k==2) load_16x2_tr(A16(QP),a[0],a[1]); else if (k==3) load_16x3_tr(A16(QP),a[0],a[1],a[2]); else if (k==4) load_16x4_tr(A16(QP),A4(QA)); else if (k==8) load_16x8_tr(A16(QP),A8(QA)); else if (k==16) load_16x16_tr(A16(QP),A16(QA)); else return 0; return k; }
  static int sttr(int k, void **p, V *a) { if (k==1) store_16x1_tr(a[0],A16(QP)); else if (k==2) store_16x2_tr(a[0],a[1],A16(QP)); else if (k==3) store_16x3_tr(a[0],a[1],a[2],A16(QP)); else if (k==4) store_16x4_tr(A4(QA),A16(QP)); else if (k==8) store_16x8_tr(A8(QA),A16(QP)); else if (k==16) store_16x16_tr(A16(QA),A16(QP)); else return 0; return k; }
#define SH(k,a) ::v16::shuffle<CPERM(k,0,16),CPERM(k,1,16),CPERM(k,2,16),CPERM(k,3,16),CPERM(k,4,16),CPERM(k,5,16),CPERM(k,6,16),CPERM(k,7,16),CPERM(k,8,16),CPERM(k,9,16),CPERM(k,10,16),CPERM(k,11,16),CPERM(k,12,16),CPERM(k,13,16),CPERM(k,14,16),CPERM(k,15,16)>(a)
  static V sh(int k, const V &a) { return k==0 ? SH(0,a) : k==1 ? SH(1,a) : k==2 ? SH(2,a) : k==3 ? SH(3,a) : k==4 ? SH(4,a) : k==5 ? SH(5,a) : SH(6,a); }
#undef SH
  static V sp(int n, const V &a) { switch(n) { 
#define D(n) case n: return ::v16::splat<n>(a);
    D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10) D(11) D(12) D(13) D(14) D(15) default: return ::v16::splat<0>(a); } }
};
#endif
template<class T> struct Sim {
  typedef typename T::V V; typedef typename T::I I; typedef typename T::F F; enum { N = T::N };
  u32 x[16], y[16], z[16];
  static void eqv(const V &r, const u32 *w, const char *lab) { u32 o[16] __attribute__((aligned(64))); memcpy(o,&r,4*N); for (int i=0; i<N; i++) hs_chk(o[i]==w[i],lab); }
  /* equal as numbers: either zero, any not-a-number */
  static void eqf(const V &r, const u32 *w, const char *lab) { float o[16] __attribute__((aligned(64))); memcpy(o,&r,4*N); for (int i=0; i<N; i++) { float g = bf(w[i]); hs_chk((o[i]==g)|((o[i]!=o[i])&(g!=g)),lab); } }
  static V mk(const u32 *a) { V r; memcpy((void*)&r,a,4*N); return r; }
  static I mkI(const u32 *a) { return I(mk(a)); } static F mkF(const u32 *a) { return F(mk(a)); }
  void draw() { for (int i=0; i<N; i++) { x[i] = (u32)hs_bits("a",32); y[i] = (u32)hs_bits("b",32); z[i] = (u32)hs_bits("c",32); } }
#define LANES(E) for (int i=0; i<N; i++) w[i] = (u32)(E)
  void ints() { u32 w[16]; draw(); I a = mkI(x), b = mkI(y);
    LANES(x[i]); eqv(+a,w,"+a"); LANES(0u-x[i]); eqv(-a,w,"-a"); LANES(~x[i]); eqv(~a,w,"~a"); LANES(0-(x[i]==0)); eqv(!a,w,"!a");
    LANES(x[i]+y[i]); eqv(a+b,w,"a+b"); LANES(x[i]-y[i]); eqv(a-b,w,"a-b"); LANES(x[i]*y[i]); eqv(a*b,w,"a*b");
    LANES(x[i]^y[i]); eqv(a^b,w,"a^b"); LANES(x[i]&y[i]); eqv(a&b,w,"a&b"); LANES(x[i]|y[i]); eqv(a|b,w,"a|b");
#define CMP(op) LANES(0-(int)((i32)x[i] op (i32)y[i])); eqv(a op b,w,"int a " #op " b");
    CMP(<) CMP(>) CMP(==) CMP(!=) CMP(<=) CMP(>=)
#undef CMP
    { I c = a; c = b; LANES(y[i]); eqv(c,w,"a=b"); c = a; LANES(x[i]+1); eqv(++c,w,"++a"); eqv(c,w,"++a stores"); c = a; LANES(x[i]-1); eqv(--c,w,"--a"); eqv(c,w,"--a stores");
      c = a; LANES(x[i]); eqv(c++,w,"a++"); LANES(x[i]+1); eqv(c,w,"a++ stores"); c = a; LANES(x[i]); eqv(c--,w,"a--"); LANES(x[i]-1); eqv(c,w,"a-- stores"); }
#define AS(op) { I c = a; LANES(x[i] op y[i]); eqv(c op##= b,w,"int a " #op "= b"); eqv(c,w,"int a " #op "= b stores"); }
    AS(+) AS(-) AS(*) AS(^) AS(&) AS(|)
#undef AS
    for (int j=0; j<N; j++) { I c = a; hs_chk((u32)c[j]==x[j],"a[j]"); hs_chk((u32)c(j)==x[j],"a(j)"); c[j] = (i32)y[j]; LANES(i==j ? y[i] : x[i]); eqv(c,w,"a[j]=x"); }
    { i32 s[16]; for (int i=0; i<N; i++) s[i] = (i32)x[i]; LANES(x[i]); eqv(T::mi(s),w,"int lanes constructor"); eqv(I(a),w,"int copy constructor"); eqv(I(s[1]),[&](){ LANES(x[1]); return w; }(),"int scalar constructor"); }
    for (int i=0; i<N; i++) hs_assume(x[i]!=0x80000000u); { LANES((x[i]^(0u-(x[i]>>31)))+(x[i]>>31)); eqv(abs(a),w,"abs"); }
    hs_chk(1,"int operations"); }
  void anyall() { draw(); I a = mkI(x);
    int nx = 0, ny = 1; for (int i=0; i<N; i++) { nx |= x[i]!=0; ny &= x[i]!=0; }
    hs_chk((any(a)!=0)==nx,"any"); hs_chk((all(a)!=0)==ny,"all"); hs_chk((any(mkF(x))!=0)==nx,"any"); hs_chk((all(mkF(x))!=0)==ny,"all"); }
  void intdiv() { u32 w[16], s[16]; draw(); for (int i=0; i<N; i++) { s[i] = y[i]&31; hs_assume(y[i]!=0); hs_assume((x[i]!=0x80000000u) | (y[i]!=0xffffffffu)); } I a = mkI(x), b = mkI(y), c = mkI(s), d;
    LANES((i32)x[i]/(i32)y[i]); eqv(a/b,w,"a/b"); d = a; eqv(d /= b,w,"a/=b"); LANES((i32)x[i]%(i32)y[i]); eqv(a%b,w,"a%b"); d = a; eqv(d %= b,w,"a%=b");
    LANES(x[i]<<s[i]); eqv(a<<c,w,"a<<b"); d = a; eqv(d <<= c,w,"a<<=b"); LANES((i32)x[i]>>s[i]); eqv(a>>c,w,"a>>b"); d = a; eqv(d >>= c,w,"a>>=b"); }
  void perms() { u32 w[16], m[16]; draw(); V a = mk(x), b = mk(y), c;
    for (int k=0; k<7; k++) { LANES(x[perm(k,i,N)]); eqv(T::sh(k,a),w,"shuffle"); }
    for (int k=0; k<N; k++) { LANES(x[k]); eqv(T::sp(k,a),w,"splat"); }
    c = a; { V d = b; swap(c,d); LANES(y[i]); eqv(c,w,"swap first"); LANES(x[i]); eqv(d,w,"swap second"); }
    u32 t[16][16]; V q[16]; for (int j=0; j<N; j++) { for (int i=0; i<N; i++) t[j][i] = (u32)hs_bits("t",32); q[j] = mk(t[j]); }
    T::tr(q); for (int j=0; j<N; j++) { LANES(t[i][j]); eqv(q[j],w,"transpose"); }
    for (int i=0; i<N; i++) m[i] = 0u-(u32)hs_bits("m",1); I l = mkI(m);
    LANES(x[i]&~m[i]); eqv(czero(l,a),w,"czero"); LANES(x[i]&m[i]); eqv(notczero(l,a),w,"notczero"); LANES((x[i]&m[i])|(y[i]&~m[i])); eqv(merge(l,a,b),w,"merge"); }
  /* memory: every word of a block of G+n+G words is arbitrary */
  enum { G = 16, MW = 16*16+2*16 }; u32 mem[MW] __attribute__((aligned(64))), was[MW];
  void fill(int n) { for (int i=0; i<n; i++) was[i] = mem[i] = (u32)hs_bits("mem",32); }
  void kept(int n, const char *lab) { for (int i=0; i<n; i++) hs_chk(mem[i]==was[i],lab); }
  void keptf(int n, const char *lab) { for (int i=0; i<n; i++) { if (i<G || i>=G+N) hs_chk(mem[i]==was[i],lab); else { float o = bf(mem[i]), g = bf(was[i]); hs_chk((o==g)|((o!=o)&(g!=g)),lab); } } }
  void memory() { u32 w[16]; const int n = 3*G+N; draw(); V a = mk(x), c; 
    fill(n); T::ld(mem+G,c); LANES(was[G+i]); eqv(c,w,"load"); kept(n,"load leaves memory alone");
    T::st(a,mem+G); for (int i=0; i<N; i++) was[G+i] = x[i]; kept(n,"store"); fill(n); T::str(a,mem+G); for (int i=0; i<N; i++) was[G+i] = x[i]; kept(n,"stream");
    fill(n); T::clr(mem+G); for (int i=0; i<N; i++) was[G+i] = 0; kept(n,"clear"); fill(n); T::cpy(mem+G,mem+2*G); for (int i=0; i<N; i++) was[G+i] = was[2*G+i]; kept(n,"copy");
    fill(n); T::cpy(mem+2*G,mem+G); for (int i=0; i<N; i++) was[2*G+i] = was[G+i]; kept(n,"copy");
    fill(n); T::swp(mem+G,mem+2*G); for (int i=0; i<N; i++) { u32 q = was[G+i]; was[G+i] = was[2*G+i]; was[2*G+i] = q; } kept(n,"swap memory"); }
  void tr(int k) { /* pointers in an order of their own, blocks as far apart as the alignment the header asks for allows */
    const int al = k==1 ? 1 : k==2 ? 2 : k==3 ? 4 : k<N || k==4 ? k : N, pad = al<4 && N==4 ? al : al; const int n = 2*G+N*pad; void *p[16]; int o[16]; V q[16]; u32 w[16], t[16][16];
    for (int i=0; i<N; i++) { o[i] = G+pad*((i*5+3)%N); p[i] = mem+o[i]; }
    fill(n); if (!T::ldtr(k,p,q)) { hs_chk(1,"no such width"); return; }
    for (int j=0; j<k; j++) { LANES(was[o[i]+j]); eqv(q[j],w,"transposed load"); } kept(n,"transposed load leaves memory alone");
    for (int j=0; j<k; j++) { for (int i=0; i<N; i++) t[j][i] = (u32)hs_bits("s",32); q[j] = mk(t[j]); }
    T::sttr(k,p,q); for (int i=0; i<N; i++) for (int j=0; j<k; j++) was[o[i]+j] = t[j][i]; kept(n,"transposed store"); }
  void floats() { u32 w[16]; draw(); F a = mkF(x), b = mkF(y), c;
#define X_ bf(x[i])
#define Y_ bf(y[i])
#define Z_ bf(z[i])
    LANES(x[i]); eqv(+a,w,"float +a"); LANES(x[i]^0x80000000u); eqf(-a,w,"float -a");
#define BIN(op) LANES(fb(X_ op Y_)); eqf(a op b,w,"float a " #op " b"); c = a; eqf(c op##= b,w,"float a " #op "= b"); eqf(c,w,"float a " #op "= b stores");
    BIN(+) BIN(-) BIN(*) BIN(/)
    c = a; LANES(fb(X_+1)); eqf(++c,w,"float ++a"); eqf(c,w,"float ++a stores"); c = a; LANES(fb(X_-1)); eqf(--c,w,"float --a"); eqf(c,w,"float --a stores");
    c = a; LANES(x[i]); eqv(c++,w,"float a++"); LANES(fb(X_+1)); eqf(c,w,"float a++ stores"); c = a; LANES(x[i]); eqv(c--,w,"float a--"); LANES(fb(X_-1)); eqf(c,w,"float a-- stores");
    c = b; LANES(y[i]); eqv(c,w,"float a=b"); for (int j=0; j<N; j++) { c = a; hs_chk(fb(c[j])==x[j],"float a[j]"); hs_chk(fb(c(j))==x[j],"float a(j)"); c[j] = bf(y[j]); LANES(i==j ? y[i] : x[i]); eqv(c,w,"float a[j]=x"); }
    { float s[16]; for (int i=0; i<N; i++) s[i] = X_; LANES(x[i]); eqv(T::mf(s),w,"float lanes constructor"); eqv(F(a),w,"float copy constructor"); LANES(x[1]); eqv(F(s[1]),w,"float scalar constructor"); }
    { LANES(x[i]&~y[i]); eqv(clear_bits(mkI(y),a),w,"clear_bits"); LANES(x[i]|y[i]); eqv(set_bits(mkI(y),a),w,"set_bits"); LANES(x[i]^y[i]); eqv(toggle_bits(mkI(y),a),w,"toggle_bits"); }
    LANES(x[i]&0x7fffffffu); eqf(fabs(a),w,"fabs"); LANES((x[i]&0x7fffffffu)|(y[i]&0x80000000u)); eqf(copysign(a,b),w,"copysign"); LANES(fb(::sqrtf(X_))); eqf(sqrt(a),w,"sqrt");
    const int n = 2*G+N; fill(n); T::inc((float*)(mem+G),a); for (int i=0; i<N; i++) was[G+i] = fb(bf(was[G+i])+X_); keptf(n,"increment");
    fill(n); T::dec((float*)(mem+G),a); for (int i=0; i<N; i++) was[G+i] = fb(bf(was[G+i])-X_); keptf(n,"decrement"); fill(n); T::scl((float*)(mem+G),a); for (int i=0; i<N; i++) was[G+i] = fb(bf(was[G+i])*X_); keptf(n,"scale"); }
  void fcmp() { u32 w[16]; draw(); F a = mkF(x), b = mkF(y);
#define CMP(op) LANES(0-(int)(X_ op Y_)); eqv(a op b,w,"float a " #op " b");
    CMP(<) CMP(>) CMP(==) CMP(!=) CMP(<=) CMP(>=)
    LANES(0-(X_==0)); eqv(!a,w,"float !a"); }
  /* lanes lo..lo+n-1 arbitrary, the others fixed (some builds branch on every lane) */
  void andor(int f, int lo, int n) { u32 w[16]; draw(); for (int i=0; i<N; i++) if (i<lo || i>=lo+n) { x[i] = i&1; y[i] = (i>>1)&1; }
    if (f) { F a = mkF(x), b = mkF(y); LANES(0-((X_!=0)&(Y_!=0))); eqv(a && b,w,"float a && b"); LANES(0-((X_!=0)|(Y_!=0))); eqv(a || b,w,"float a || b"); }
    else { I a = mkI(x), b = mkI(y); LANES(0-((x[i]!=0)&(y[i]!=0))); eqv(a && b,w,"int a && b"); LANES(0-((x[i]!=0)|(y[i]!=0))); eqv(a || b,w,"int a || b"); } }
  void cmath() { u32 w[16]; draw(); F a = mkF(x), b = mkF(y);
#define M1(f) LANES(fb((float)::f(X_))); eqv(f(a),w,#f);
#define M2(f) LANES(fb((float)::f(X_,Y_))); eqv(f(a,b),w,#f);
    M1(acos) M1(asin) M1(atan) M2(atan2) M1(ceil) M1(cos) M1(cosh) M1(exp) M1(floor) M2(fmod) M1(log) M1(log10) M2(pow) M1(sin) M1(sinh) M1(tan) M1(tanh) }
  /* exact arithmetic with the hardware's approximation error arbitrary within its documented bound */
  void approx() { float v[16], o[16] __attribute__((aligned(64))); for (int i=0; i<N; i++) v[i] = hs_f32("v",1e-6,1e6); F a = T::mf(v), r;
    const double c = 1e-6, e = 1./2048;
#define NEAR(E,G,t,l) r = E; memcpy(o,&r,4*N); for (int i=0; i<N; i++) hs_near(G,1.,t,l);
    NEAR(rcp_approx(a),(double)o[i]*v[i],e,"rcp_approx") NEAR(rcp(a),(double)o[i]*v[i],c,"rcp") NEAR(rsqrt_approx(a),(double)o[i]*(double)o[i]*v[i],2*e,"rsqrt_approx") NEAR(rsqrt(a),(double)o[i]*(double)o[i]*v[i],2*c,"rsqrt") }
  void fmas() { float p[16], q[16], s[16], o[16] __attribute__((aligned(64))); for (int i=0; i<N; i++) { p[i] = hs_f32("p",-8,8); q[i] = hs_f32("q",-8,8); s[i] = hs_f32("s",-8,8); } F a = T::mf(p), b = T::mf(q), c = T::mf(s), r;
#define NR(E,G,l) r = E; memcpy(o,&r,4*N); for (int i=0; i<N; i++) hs_near(o[i],G,3e-5,l);
    NR(fma(a,b,c),(double)p[i]*q[i]+s[i],"fma") NR(fms(a,b,c),(double)p[i]*q[i]-s[i],"fms") NR(fnms(a,b,c),(double)s[i]-(double)p[i]*q[i],"fnms") }
  void run(int op) { if (op==0) ints(); else if (op==1) intdiv(); else if (op==2) perms(); else if (op==3) memory(); else if (op==4) for (int k=1; k<=N; k++) tr(k); else if (op==5) floats(); else if (op==6) fcmp(); else if (op==7) cmath(); else if (op==8) approx(); else if (op==9) fmas(); else if (op==11) anyall(); else if (op==12 || op==13) andor(op-12,hs_cfg(2),hs_cfg(3)); }
};
#ifndef NO4
static void tril() { float p[4], o[8] __attribute__((aligned(64))); p[0] = hs_f32("x",-1,1); p[1] = hs_f32("y",-1,1); p[2] = hs_f32("z",-1,1); p[3] = hs_f32("w",-9,9); v4::v4float l(p[0],p[1],p[2],p[3]), h; trilinear(l,h); memcpy(o,&l,16); memcpy(o+4,&h,16);
  for (int i=0; i<8; i++) hs_near(o[i],(1.+(i&1?p[0]:-p[0]))*(1.+(i&2?p[1]:-p[1]))*(1.+(i&4?p[2]:-p[2])),1e-5,"trilinear"); }
#endif
#ifdef V16_ACCELERATION
static Sim<T16> s16;
#endif
#if defined V8_ACCELERATION && !defined NO8
static Sim<T8> s8;
#endif
#if defined V4_ACCELERATION && !defined NO4
static Sim<T4> s4;
#endif
void hs_main(void) { int op = hs_cfg(0), n = hs_cfg(1);
#ifdef V16_ACCELERATION
  if (n==16) { s16.run(op); return; }
#endif
#if defined V8_ACCELERATION && !defined NO8
  if (n==8) { s8.run(op); return; }
#endif
#if defined V4_ACCELERATION && !defined NO4
  if (n==4) { if (op==10) tril(); else s4.run(op); return; }
#endif
  hs_chk(0,"no such class");
}
