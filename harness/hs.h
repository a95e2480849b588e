/* Harness interface.  Under the symbolic executor every hs_* call is interpreted by the engine; natively
   (replay of counterexamples, validation of the encoding) hs_native.cc provides it. */
#ifndef hs_h
#define hs_h
#include <stdint.h>
#include <stddef.h>
extern "C" {
float    hs_f32(const char *name, double lo, double hi);       /* arbitrary value in [lo,hi] */
double   hs_f64(const char *name, double lo, double hi);
uint64_t hs_bits(const char *name, int nbits);                 /* arbitrary bit pattern, zero extended */
int64_t  hs_int(const char *name, int64_t lo, int64_t hi);     /* arbitrary integer in [lo,hi] */
int      hs_choose(const char *name, int n);                   /* case split 0..n-1 */
int64_t  hs_conc(int64_t x);                                   /* case split on every value of x */
int      hs_cfg(int i);                                        /* shape parameter of the job */
void     hs_assume(int c);
void     hs_chk(int c, const char *label);
void     hs_near(double a, double b, double tol, const char *label);
void     hs_near_at(double a, double b, double tol, const char *label, const char *comp, int x, int y, int z);
void     hs_reach(const char *label);
void     hs_expect_exit(int on);                               /* error exit is the specified behaviour from here */
int      hs_sampled(void);                                         /* 1 in runs on concrete inputs: choose ranges that satisfy the assumptions */
void     hs_name(double v);                                    /* proof hint: treat equal sub-terms as one unknown */
void     hs_lemma(double a, double b);                         /* proof hint: if a=b can be shown, use it from here on */
int      hs_native(void);
int64_t  hs_obj_size(const void *p);
int      hs_is_freed(const void *p);
int      hs_nlog(void);
int      hs_rank(void);
int      hs_co_new(void (*fn)(void*), void *arg);              /* a further context sharing the memory; fn never returns */
void     hs_co_switch(int id);                                 /* continue in context id (0: the original one) */
int      hs_mpi_pending(void);
void     hs_main(void);
}
#endif
