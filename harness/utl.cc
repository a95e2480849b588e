// Command line stripping, aligned memory, byte swapping, bit fields.
// EXCLUDE: src/util/util_base.cc
// cfg: op a b c
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include "util/util_base.h"
/* raw memory with an arbitrary start: what the allocator may return */
static char pool[16384] __attribute__((aligned(4096))); static char *raw_p; static unsigned long raw_n; static int raw_used = 0, raw_freed = 0; static int raw_on = 0; static void *raw_bad; static unsigned long raw_off;
static void *vs_malloc(size_t n) { if (!raw_on) return malloc(n); raw_used++; raw_n = n; raw_p = pool+64+raw_off; return raw_p; }
static void vs_free(void *p) { if (!raw_on) { free(p); return; } if (p==raw_p) raw_freed++; else raw_bad = p; }
#define malloc(n) vs_malloc(n)
#define free(p) vs_free(p)
#include "util/util_base.cc"
#undef malloc
#undef free
#include "util/bitfield.h"
#include "util/swap.h"
#include "hs.h"
#include <stddef.h>
static int same(const char *a, const char *b) { for (;; a++, b++) { if (*a!=*b) return 0; if (!*a) return 1; } }
// ------------------------------------------------------------------ command line
enum { MAXA = 8 };
static char arg[MAXA][8]; static char *av[MAXA+2]; static char *av0[MAXA+2];
static void freeargs(int n, int len) { for (int i=0; i<n; i++) { for (int j=0; j<len; j++) arg[i][j] = (char)hs_bits("c",8); arg[i][len] = 0; av[i] = av0[i] = arg[i]; } av[n] = (char*)"sentinel"; }
static void kept(int n, const int *keep, int ac) { int m = 0; for (int i=0; i<n; i++) if (keep[i]) { hs_chk(av[m]==av0[i],"other arguments stay, in order"); m++; } hs_chk(ac==m,"argument count is what is left"); hs_chk(av[m]==NULL,"argument list stays terminated"); }
static void strip(int kind, int n, int len) {   /* kind 0 flag 1 string, arguments of arbitrary text */
  static const char *K[5] = { "", "k", "-k", "--k", "--ke" }; const char *key = K[len]; int keep[MAXA], cnt = 0, last = -1, ac = n; char **a = av;
  freeargs(n,len);
  for (int i=0; i<n; i++) keep[i] = 1;
  for (int i=0; i<n; i++) if (same(arg[i],key)) { keep[i] = 0; cnt++; if (kind==1 && i+1<n) { keep[++i] = 0; last = i; } }
  if (kind==0) { int r = strip_cmdline(&ac,&a,key); hs_chk(r==cnt,"strip_cmdline counts the removed keys"); }
  else { static const char def[] = "default"; const char *r = strip_cmdline_string(&ac,&a,key,def); hs_chk(r==(last<0 ? def : av0[last]),"value of the last complete pair or the default"); }
  hs_chk(a==av,"argument array stays"); kept(n,keep,ac);
}
/* arguments drawn from a list; numeric values */
static void stripnum(int kind, int n) {
  static const char *L[6] = { "--n", "12", "-3", "--nn", "0x", "2.5" }; static const int VI[6] = { 0, 12, -3, 0, 0, 2 }; static const double VD[6] = { 0, 12, -3, 0, 0, 2.5 };
  int keep[MAXA], ix[MAXA], ac = n, last = -1; char **a = av;
  for (int i=0; i<n; i++) { ix[i] = hs_choose("arg",i+1<n ? 6 : 4); av[i] = av0[i] = (char*)L[ix[i]]; keep[i] = 1; }
  av[n] = (char*)"sentinel";
  for (int i=0; i<n; i++) if (ix[i]==0) { keep[i] = 0; if (i+1<n) { keep[++i] = 0; last = ix[i]; } }
  int d = (int)hs_int("default",-1000000,1000000);
  if (kind==0) { int r = strip_cmdline_int(&ac,&a,"--n",d); hs_chk(r==(last<0 ? d : VI[last]),"integer of the last complete pair or the default"); }
  else { double r = strip_cmdline_double(&ac,&a,"--n",(double)d); hs_chk(r==(last<0 ? (double)d : VD[last]),"number of the last complete pair or the default"); }
  kept(n,keep,ac);
}
static void strings(int which, int n, int m) {
  char s[8], t[8]; int ls = n, lt = m;
  for (int i=0; i<n; i++) { s[i] = (char)hs_bits("s",8); hs_assume(s[i]!=0); } s[n] = 0;
  for (int i=0; i<m; i++) { t[i] = (char)hs_bits("t",8); hs_assume(t[i]!=0); } t[m] = 0;
  int pre = ls>=lt, eq = ls==lt, in = 0;
  for (int i=0; i<lt && i<ls; i++) { pre &= s[i]==t[i]; eq &= s[i]==t[i]; }
  for (int o=0; o+lt<=ls; o++) { int w = 1; for (int i=0; i<lt; i++) w &= s[o+i]==t[i]; in |= w; }
  if (which==0) hs_chk(string_starts_with(s,t)==pre,"string_starts_with");
  if (which==1) hs_chk(string_matches(s,t)==eq,"string_matches");
  if (which==2) hs_chk(string_contains(s,t)==in,"string_contains");
}
static void oldstyle(int n, int base) {
  static const char *L[7] = { "-tpp", "-restore", "-restart", "--tpp", "--restore", "deck", "a=b" };
  int bad = 0, ac = n; char **a = av;
  for (int i=0; i<n; i++) {
    int c = hs_choose("arg",7); strcpy(arg[i],""); static char b[MAXA][16]; int k = 0; for (; L[c][k]; k++) b[i][k] = L[c][k]; b[i][k] = 0;
    if (i==base) { b[i][k] = (char)hs_bits("tail",8); b[i][k+1] = 0; if (c==2) { if (b[i][k]==0) bad = 1; } }
    else if (c==2) bad = 1;
    if (c<2) bad = 1;
    av[i] = av0[i] = b[i];
  }
  av[n] = NULL;
  if (bad) { hs_expect_exit(1); detect_old_style_arguments(&ac,&a); hs_chk(0,"an old style option is refused"); hs_expect_exit(0); return; }
  detect_old_style_arguments(&ac,&a);
  hs_chk(ac==n,"argument count stays"); for (int i=0; i<n; i++) hs_chk(av[i]==av0[i],"arguments stay"); hs_chk(av[n]==NULL,"argument list stays terminated");
}
// ------------------------------------------------------------------ aligned memory
static void aligned(int k) {
  size_t a = (size_t)1<<k, want = a<16 ? 16 : a; size_t n = (size_t)hs_int("n",1,1<<30); raw_off = (unsigned long)hs_int("start",0,k>8 ? 4095 : 511); if (k>8) hs_assume((raw_off&63)==8); else hs_assume((raw_off&7)==0);
  for (int i=0; i<(int)sizeof(pool); i++) pool[i] = 7;
  char *m = NULL; raw_on = 1;
  util_malloc_aligned(NULL,&m,n,a);
  hs_chk(raw_used==1,"one block of raw memory"); size_t d = (size_t)m-(size_t)raw_p;
  hs_chk(((size_t)m & (want-1))==0,"aligned memory is aligned"); hs_chk(m>=raw_p,"aligned memory lies in the raw block"); hs_chk(d+n<=raw_n,"aligned memory holds the requested bytes");
  int lim = n<40 ? 1 : 40; for (int i=0; i<lim; i++) m[i] = -1;
  char *b = m; util_free_aligned(&b); hs_chk(b==NULL,"pointer is cleared after free"); hs_chk(raw_freed==1 && !raw_bad,"exactly the raw block is freed");
  for (int i=1; i<=16; i++) hs_chk(raw_p[-i]==7,"memory before the block is untouched");
  util_free_aligned(&b); hs_chk(raw_freed==1 && !raw_bad,"freeing nothing does nothing"); util_free_aligned(NULL);
}
static void alignedbad(void) {
  size_t n = (size_t)hs_int("n",0,1<<20), a = (size_t)hs_bits("a",32); char *m = (char*)8; raw_on = 1; hs_chk(raw_used==0 && a<=0xffffffffu,"request"); int p = a && !(a&(a-1));
  if (hs_cfg(1)==0) { hs_assume(!p); hs_expect_exit(1); util_malloc_aligned(NULL,&m,n,a); hs_chk(0,"an alignment that is no power of two is refused"); }
  else if (hs_cfg(1)==1) { hs_assume(p); util_malloc_aligned("err",&m,0,a); hs_chk(m==NULL && raw_used==0,"an empty request gives no memory"); }
  else if (hs_cfg(1)==2) { hs_expect_exit(1); util_malloc_aligned(NULL,NULL,n,16); hs_chk(0,"a request without a pointer is refused"); }
  else if (hs_cfg(1)==3) { hs_expect_exit(1); util_malloc(NULL,NULL,n); hs_chk(0,"a request without a pointer is refused"); }
  else { size_t q = (size_t)hs_int("q",1,1<<30); util_malloc(NULL,&m,0); hs_chk(m==NULL && raw_used==0,"an empty request gives no memory"); util_malloc(NULL,&m,q); hs_chk(raw_used==1 && m==raw_p && raw_n>=q,"memory holds the requested bytes"); char *b = m; util_free(&b); hs_chk(b==NULL && raw_freed==1 && !raw_bad,"exactly that memory is freed"); util_free(&b); util_free(NULL); hs_chk(raw_freed==1 && !raw_bad,"freeing nothing does nothing"); }
}
// ------------------------------------------------------------------ bits
static void bitf(void) {
  uint32_t v = (uint32_t)hs_bits("v",32), m = (uint32_t)hs_bits("m",32); int b = (int)hs_int("b",0,31); uint32_t one = (uint32_t)1<<b;
  BitField f(v), g(f), h; int s = 0;
  hs_chk(g.set(m)==(v|m),"set sets the mask"); for (int i=0; i<32; i++) { uint32_t w = (v|m)>>i&1; hs_chk(g.bitset(i)==(w!=0) && g.bitclear(i)==(w==0),"bitset and bitclear read one bit"); }
  BitField c(f); hs_chk(c.clear(m)==(v&~m),"clear clears the mask"); BitField d(f); hs_chk(d.setibit(b)==(v|one),"setibit sets one bit"); BitField e(f); hs_chk(e.clearbit(b)==(v&~one),"clearbit clears one bit");
  hs_chk(f.bitset(b)==((v&one)!=0) && f.bitclear(b)==((v&one)==0),"bitset of any bit"); hs_chk(f.bitsset(m)==((v&m)==m),"bitsset tells whether all bits of the mask are set");
  hs_chk(h.clear(0)==0xffffffffu,"a default field has all bits set");
}
static void bsum(void) {
  uint32_t v = (uint32_t)hs_bits("v",32); BitField f(v); size_t ix[4], s = 0, t = 0;
  for (int i=0; i<32; i++) s += v>>i&1;
  hs_chk(f.bitsum()==s,"bitsum counts the set bits");
  for (int i=0; i<4; i++) { ix[i] = (size_t)hs_int("ix",0,31); t += v>>ix[i]&1; }
  hs_chk(f.bitsum(ix,4)==t,"bitsum counts the named bits"); hs_chk(f.bitsum(ix,0)==0,"bitsum of no bits");
}
static void macros(void) {
  int k = hs_cfg(1); size_t a = (size_t)1<<k, u = (size_t)hs_bits("u",32), c = POW2_CEIL(u,a);
  hs_chk(c>=u && c-u<a && (c&(a-1))==0,"POW2_CEIL rounds up"); hs_chk((size_t)ALIGN_PTR(char,u,a)==c,"ALIGN_PTR rounds up");
  size_t p = PAD(u,a); hs_chk(p>0 && p<=a && ((u+p)&(a-1))==0,"PAD completes a block");
  for (int l=k; l<32; l++) { uint64_t w = MASK_BIT_RANGE(uint64_t,k,l); uint64_t x = 0; for (int i=k; i<=l; i++) x |= (uint64_t)1<<i; hs_chk(w==x,"MASK_BIT_RANGE"); }
}
// ------------------------------------------------------------------ byte order
static void put(void *p, int n) { for (int i=0; i<n; i++) ((unsigned char*)p)[i] = (unsigned char)hs_bits("byte",8); }
template<class T> static void one(void) { T x, y; unsigned char b[sizeof(T)], c[sizeof(T)]; put(b,sizeof(T)); memcpy(&x,b,sizeof(T)); utils::swap(x); memcpy(c,&x,sizeof(T)); int ok = 1, back = 1; for (size_t i=0; i<sizeof(T); i++) ok &= c[i]==b[sizeof(T)-1-i]; hs_chk(ok,"swap reverses the bytes"); memcpy(&y,c,sizeof(T)); utils::swap(y); memcpy(c,&y,sizeof(T)); for (size_t i=0; i<sizeof(T); i++) back &= c[i]==b[i]; hs_chk(back,"swapping twice changes nothing"); }
template<class T> static void rec(const int *off, const int *sz, int n, const char *nm) {
  T x; unsigned char b[sizeof(T)], c[sizeof(T)]; put(b,sizeof(T)); memcpy(&x,b,sizeof(T)); utils::swap(x); memcpy(c,&x,sizeof(T));
  int ok = 1, back = 1; for (int k=0; k<n; k++) for (int i=0; i<sz[k]; i++) ok &= c[off[k]+i]==b[off[k]+sz[k]-1-i];
  hs_chk(ok,nm); utils::swap(x); memcpy(c,&x,sizeof(T)); for (int k=0; k<n; k++) for (int i=0; i<sz[k]; i++) back &= c[off[k]+i]==b[off[k]+i]; hs_chk(back,"swapping a record twice changes nothing");
}
static void swaps(int w) {
  switch (w) {
  case 0: one<short>(); break; case 1: one<double>(); break; case 2: one<uint64_t>(); break; case 3: one<int64_t>(); break; case 4: one<float>(); break; case 5: one<uint16_t>(); break; case 6: one<uint32_t>(); break; case 7: one<int32_t>(); break;
  case 8: { char x = (char)hs_bits("x",8), y = x; utils::swap(x); hs_chk(x==y,"a single byte stays"); unsigned char b[4], c[4]; float f; put(b,4); uint32_t t; memcpy(&t,b,4); hs_assume((t>>23&255)!=255); uint32_t tr = (t>>24)|(t>>8&0xff00)|(t<<8&0xff0000)|(t<<24); hs_assume((tr>>23&255)!=255); memcpy(&f,b,4); f = utils::swap_float(f); memcpy(c,&f,4); hs_chk(c[0]==b[3]&&c[1]==b[2]&&c[2]==b[1]&&c[3]==b[0],"swap_float reverses the bytes"); } break;
#define M(t,m) (int)offsetof(t,m)
#define Z(t,m) (int)sizeof(((t*)0)->m)
#define L(t,...) _L(t,__VA_ARGS__)
#define FLD(_) _(ex) _(ey) _(ez) _(div_e_err) _(cbx) _(cby) _(cbz) _(div_b_err) _(tcax) _(tcay) _(tcaz) _(rhob) _(jfx) _(jfy) _(jfz) _(rhof) _(ematx) _(ematy) _(ematz) _(nmat) _(fmatx) _(fmaty) _(fmatz) _(cmat)
#define HYD(_) _(jx) _(jy) _(jz) _(rho) _(px) _(py) _(pz) _(ke) _(txx) _(tyy) _(tzz) _(tyz) _(tzx) _(txy)
#define PAR(_) _(dx) _(dy) _(dz) _(i) _(ux) _(uy) _(uz) _(w)
#define O1(m) M(T,m),
#define S1(m) Z(T,m),
  case 9: { typedef field_t T; static const int o[] = { FLD(O1) }, s[] = { FLD(S1) }; rec<T>(o,s,24,"swap of a field reverses every member"); } break;
  case 10: { typedef hydro_t T; static const int o[] = { HYD(O1) }, s[] = { HYD(S1) }; rec<T>(o,s,14,"swap of a moment record reverses every member"); } break;
  case 11: { typedef particle_t T; static const int o[] = { PAR(O1) }, s[] = { PAR(S1) }; rec<T>(o,s,8,"swap of a particle reverses every member"); } break;
  }
}
void hs_main(void) {
  int op = hs_cfg(0), a = hs_cfg(1), b = hs_cfg(2), c = hs_cfg(3);
  if (op==0) strip(a,b,c); else if (op==1) stripnum(a,b); else if (op==2) strings(a,b,c); else if (op==3) oldstyle(a,b);
  else if (op==4) aligned(a); else if (op==5) alignedbad(); else if (op==6) bitf(); else if (op==7) bsum(); else if (op==8) macros(); else if (op==9) swaps(a);
  hs_reach("end");
}
