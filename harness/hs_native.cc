/* Native side of hs.h: replays a recorded input assignment, or generates deterministic inputs (HS_SEED) and
   prints the value of every check (HS_TRACE) so that the encoding can be compared with the real code. */
#include "hs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ucontext.h>
#include <math.h>
#include <map>
#include <string>
#include <vector>
static std::map<std::string,uint64_t> in; static std::map<std::string,int> occ;
static std::vector<int> cfg; static int trace_on=0, from_hash=0, expect_exit=0, nfail=0, done=0; static uint64_t seed=1;
static int rank_=0,np_=1, nlog_=0;
static char pre_[16]="";static FILE*tf_=0;
static FILE*tf(void){if(!tf_){char b[64];sprintf(b,"%s/trace.%d",getenv("HS_DIR")?getenv("HS_DIR"):".",rank_);tf_=fopen(b,"w");setvbuf(tf_,NULL,_IOFBF,1<<16);if(np_>1)sprintf(pre_,"%d~",rank_);}return tf_;}
#define _exit(x) do{if(tf_)fflush(tf_);(_exit)(x);}while(0)
static uint64_t fnv(const std::string&s){uint64_t h=1469598103934665603ull^seed*0x9E3779B97F4A7C15ull;for(unsigned char c:s){h^=c;h*=1099511628211ull;}h^=h>>29;h*=0xBF58476D1CE4E5B9ull;h^=h>>32;return h;}
static std::string full(const char*n){char b[32];sprintf(b,"#%d",occ[n]++);return std::string(n)+b;}
static bool get(const std::string&f,uint64_t&v){auto i=in.find(f);if(i==in.end())return false;v=i->second;return true;}
extern "C" {
float hs_f32(const char*n,double lo,double hi){std::string f=full(n);uint64_t v;
  if(from_hash)return (float)(lo+(hi-lo)*((double)(fnv(f)%4096)/4096.0));
  if(!get(f,v))return (float)(lo+(hi-lo)*0.5);
  uint32_t u=(uint32_t)v;float x;memcpy(&x,&u,4);return x;}
double hs_f64(const char*n,double lo,double hi){std::string f=full(n);uint64_t v;
  if(from_hash)return lo+(hi-lo)*((double)(fnv(f)%4096)/4096.0);
  if(!get(f,v))return lo+(hi-lo)*0.5;
  double x;memcpy(&x,&v,8);return x;}
uint64_t hs_bits(const char*n,int nb){std::string f=full(n);uint64_t v=0;
  if(from_hash)v=fnv(f);else get(f,v); return nb<64?v&((1ull<<nb)-1):v;}
int64_t hs_int(const char*n,int64_t lo,int64_t hi){std::string f=full(n);uint64_t v;
  if(from_hash)return lo+(int64_t)(fnv(f)%(uint64_t)(hi-lo+1)); if(!get(f,v))return lo;return (int64_t)v;}
int hs_choose(const char*n,int k){return (int)hs_int(n,0,k-1);}
int64_t hs_conc(int64_t x){return x;}
int hs_cfg(int i){return i<(int)cfg.size()?cfg[i]:0;}
void hs_assume(int c){if(!c){done=1;printf("HSASSUME\n");fflush(stdout);_exit(77);}}
void hs_chk(int c,const char*l){if(trace_on)fprintf(tf(),"T %s%s %d\n",pre_,l,c!=0);if(!c){printf("HSFAIL %s\n",l);fflush(stdout);nfail++;}}
void hs_near(double a,double b,double tol,const char*l){
  if(trace_on){uint64_t x,y;memcpy(&x,&a,8);memcpy(&y,&b,8);fprintf(tf(),"N %s%s %016llx %016llx\n",pre_,l,(unsigned long long)x,(unsigned long long)y);}
  if(!(a==b||fabs(a-b)<=tol)){printf("HSFAIL %s got %.9g want %.9g tol %g\n",l,a,b,tol);fflush(stdout);nfail++;}}
void hs_near_at(double a,double b,double tol,const char*l,const char*c,int x,int y,int z){char t[256];snprintf(t,256,"%s:%s(%d,%d,%d)",l,c,x,y,z);for(char*p=t;*p;p++)if(*p==' ')*p='_';hs_near(a,b,tol,t);}
void hs_reach(const char*){}
void hs_task(int){}
void hs_expect_exit(int on){expect_exit=on;}
void hs_name(double) {}
void hs_lemma(double, double) {}
int hs_sampled(void) { return 1; }
int hs_native(void){return 1;}
int64_t hs_obj_size(const void*){return -2;}
int hs_is_freed(const void*){return -1;}
int hs_nlog(void){return nlog_;}
int hs_rank(void){return rank_;}
static std::vector<ucontext_t*> co_; static int cocur_=0; static void(*cofn_[64])(void*); static void*coarg_[64];
static void cotramp(int i){cofn_[i](coarg_[i]);printf("HSFAIL context returned\n");fflush(stdout);_exit(1);}
int hs_co_new(void(*fn)(void*),void*arg){if(co_.empty())co_.push_back(new ucontext_t);int i=(int)co_.size();ucontext_t*u=new ucontext_t;getcontext(u);
  u->uc_stack.ss_size=1<<18;u->uc_stack.ss_sp=malloc(1<<18);u->uc_link=0;cofn_[i]=fn;coarg_[i]=arg;makecontext(u,(void(*)())cotramp,1,i);co_.push_back(u);return i;}
void hs_co_switch(int id){if(id==cocur_)return;int o=cocur_;cocur_=id;swapcontext(co_[o],co_[id]);}
int hs_fork_procs(int); int hs_join_procs(void);
static void atend(void){ if(done)return; if(expect_exit){printf("HSEXIT expected\n");fflush(stdout);_exit((rank_==0&&np_>1&&hs_join_procs())||nfail?1:0);} printf("HSFAIL unexpected-exit\n");fflush(stdout);_exit(1);}
}
int main(int argc,char**argv){
  const char*e;
  if((e=getenv("HS_CFG"))){char*t=strdup(e);for(char*p=strtok(t,",");p;p=strtok(NULL,","))cfg.push_back(atoi(p));}
  if((e=getenv("HS_SEED"))){seed=strtoull(e,0,10);from_hash=1;}
  if(getenv("HS_TRACE"))trace_on=1;
  
  if((e=getenv("HS_IN"))){FILE*f=fopen(e,"r");char n[512];unsigned long long v;if(!f)return 3;while(fscanf(f,"%511s %llx",n,&v)==2)in[n]=v;fclose(f);}
  alarm(100);
  setvbuf(stdout,NULL,_IOFBF,1<<20);
  if((e=getenv("HS_NP"))&&(np_=atoi(e))>1){rank_=hs_fork_procs(np_); if(rank_)alarm(100);}
  atexit(atend);
  hs_main();
  done=1; if(hs_mpi_pending()){printf("HSFAIL communication left unfinished\n");nfail++;} printf("HSDONE %d\n",nfail); fflush(stdout);
  if(rank_==0&&np_>1&&hs_join_procs())nfail++;
  _exit(nfail?1:0);
}
