// Text output: energies, species and materials tables, the global header of a set of dumps.  The text is written to a recorder
// in place of the file class; numbers stay symbolic and are compared as numbers, layout as words and lines.
// EXCLUDE: src/vpic/dump.cc
// cfg: op nx ny nz a b c
//  0 dump_energies: append species    1 dump_species: species   2 dump_materials: materials    3 global_header: field-mask moment-mask species   4 create_field_list / create_hydro_list: mask
#include "vh.h"
#include <vector>
#include <string>
#include <cmath>
#include <climits>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <map>
#include "util/io/FileIO.h"
static char T[32768]; static int nt = 0, nd = 0, opened = 0, closed = 0, badfmt = 0; static double D[512]; static char fname[300]; static int fmode;
static void put(char c) { if (nt<32767) T[nt++] = c; else badfmt = 1; }
/* a number appears as '\1' followed by its index */
static void num(double d) { put(1); put((char)(1+nd/100)); put((char)(1+nd%100)); if (nd<511) D[nd++] = d; }
static void fix(char c, double d) { if (c!='e' && c!='f' && c!='g' && c!='E' && c!='G') badfmt = 1; num(d); }
static void fix(char c, float d) { fix(c,(double)d); }
static void fix(char c, long d) { if (c!='d' && c!='i' && c!='u') badfmt = 1; num((double)d); }
static void fix(char c, int d) { fix(c,(long)d); } static void fix(char c, size_t d) { fix(c,(long)d); } static void fix(char c, unsigned d) { fix(c,(long)d); } static void fix(char c, short d) { fix(c,(long)d); } static void fix(char c, long long d) { fix(c,(long)d); }
static void fix(char c, const char *s) { if (c!='s') badfmt = 1; while (s && *s) put(*s++); } static void fix(char c, char *s) { fix(c,(const char*)s); }
static const char *upto(const char *f, char *c) { while (*f) { if (*f!='%') { put(*f++); continue; } if (f[1]=='%') { put('%'); f += 2; continue; } f++; while (*f && ((*f>='0' && *f<='9') || *f=='.' || *f=='-' || *f=='+' || *f==' ' || *f=='l' || *f=='z' || *f=='h' || *f=='j')) f++; *c = *f; return *f ? f+1 : f; } *c = 0; return f; }
static void pr(const char *f) { char c; upto(f,&c); if (c) badfmt = 1; }
template<class A, class... B> static void pr(const char *f, A a, B... b) { char c; f = upto(f,&c); if (!c) badfmt = 1; else { fix(c,a); pr(f,b...); } }
struct RecIO {
  FileIOStatus open(const char *f, FileIOMode m) { opened++; if (opened!=closed+1) badfmt = 1; strcpy(fname,f); fmode = m; return ok; }
  int32_t close(void) { closed++; return 0; }
  template<class... B> void print(const char *f, B... b) { if (opened!=closed+1) badfmt = 1; pr(f,b...); }
  template<class X> size_t read(X *, size_t n) { return n; } template<class X> size_t write(const X *, size_t n) { return n; }
  int64_t seek(uint64_t, int32_t) { return 0; } int64_t tell(void) { return 0; } void rewind(void) {} int64_t size(void) { return 0; } bool isOpen(void) { return opened>closed; }
};
#define FileIO RecIO
#define protected public
#define private public
#include "vpic/vpic.h"
#undef protected
#undef private
#include "vpic/dump.cc"
void vpic_simulation::user_initialization(int, char**) {} void vpic_simulation::user_particle_collisions(void) {} void vpic_simulation::user_particle_injection(void) {} void vpic_simulation::user_current_injection(void) {} void vpic_simulation::user_field_injection(void) {} void vpic_simulation::user_diagnostics(void) {}
static vpic_simulation *S; static grid_t *g; static int pos;
/* reading the recorded text */
static void blanks(int nl) { while (pos<nt && (T[pos]==' ' || T[pos]=='\t' || (nl && T[pos]=='\n'))) pos++; }
static int word(const char *w) { blanks(1); int i = 0; while (w[i] && pos+i<nt && T[pos+i]==w[i]) i++; if (w[i]) return 0; pos += i; return pos>=nt || T[pos]==' ' || T[pos]=='\n' || T[pos]=='\t'; }
static double number(int *okp) { blanks(1); if (pos+2>=nt || T[pos]!=1) { *okp = 0; return 0; } int i = (T[pos+1]-1)*100+T[pos+2]-1; pos += 3; return D[i]; }
static void want(double v, const char *what) { int k = 1; double d = number(&k); hs_chk(k,what); if (k) hs_near(d,v,1e-9,what); }
static void say(const char *w, const char *what) { hs_chk(word(w),what); }
static void endl(const char *what) { blanks(0); hs_chk(pos<nt && T[pos]=='\n',what); }
static void comments(char c) { blanks(1); while (pos<nt && T[pos]==c) { while (pos<nt && T[pos]!='\n') pos++; blanks(1); } }
static void build(int nx, int ny, int nz, int ns) {
  S = new vpic_simulation(); g = S->grid; size_grid(g,nx,ny,nz); for (int b=0; b<6; b++) if (b%3==0) join_grid(g,vh_bnd[b],(world_rank+1)%world_size); else { set_fbc(g,vh_bnd[b],pec_fields); set_pbc(g,vh_bnd[b],reflect_particles); }
  vh_metric(g,0); g->dt = hs_f32("dt",0.0625,1); g->step = 17; append_material(material("vacuum",1,1,1,1,1,1,0,0,0,0,0,0),&S->material_list);
  S->field_array = new_standard_field_array(g,S->material_list,0); S->interpolator_array = new_interpolator_array(g);
  static const char *nm[3] = { "electron","ion","He ++" }; for (int i=0; i<ns; i++) { species_t *s = append_species(species(nm[i],1,1,4,4,0,0,g),&S->species_list); s->q = hs_f32("q",-2,2); s->m = hs_f32("m",0.5,2); }
}
static void fill(void) {
  for (int v=0; v<g->nv; v++) for (int c=0; c<16; c++) FC(S->field_array->f+v,c) = hs_f32(vh_cn[c],-1,1); for (int v=0; v<g->nv; v++) for (int c=0; c<18; c++) ((float*)(S->interpolator_array->i+v))[c] = 0;
  for (species_t *s=S->species_list; s; s=s->next) { s->np = 1+s->id%2; for (int i=0; i<s->np; i++) { particle_t *p = s->p+i; p->dx = p->dy = p->dz = 0; p->i = VOXEL(1,1,1,g->nx,g->ny,g->nz); p->ux = hs_f32("u",-2,2); p->uy = 1; p->uz = 0; p->w = hs_f32("w",0,2); } }
}
static const char *FN[12] = { "Electric Field","Electric Field Divergence Error","Magnetic Field","Magnetic Field Divergence Error","TCA Field","Bound Charge Density","Free Current Field","Charge Density","Edge Material","Node Material","Face Material","Cell Material" };
static const char *HN[5] = { "Current Density","Charge Density","Momentum Density","Kinetic Energy Density","Stress Tensor" };
static int first(int h, int i) { static const int f[12] = { 0,3,4,7,8,11,12,15,16,19,20,23 }, m[5] = { 0,3,4,7,8 }; return h ? m[i] : f[i]; }
static int width(int h, int i) { return h ? (i==4 ? 6 : i%2 ? 1 : 3) : i%2 ? 1 : 3; }
static void groups(int h, unsigned mask, const char *key) {
  int N = h ? 5 : 12, c = 0; for (int i=0; i<N; i++) c += mask>>first(h,i)&1; say(key,"number of quantities"); want(c,"number of quantities"); endl("a line each");
  for (int i=0; i<N; i++) if (mask>>first(h,i)&1) { char q[64]; q[0] = '"'; strcpy(q+1,h ? HN[i] : FN[i]); strcat(q,"\""); say(q,"selected quantities in order"); int w = width(h,i); say(w==1 ? "SCALAR" : w==3 ? "VECTOR" : "TENSOR","kind of quantity"); say(w==1 ? "1" : w==3 ? "3" : "6","number of components"); say(!h && i>=8 ? "INTEGER" : "FLOATING_POINT","type"); want(!h && i>=8 ? 2 : 4,"bytes of a component"); endl("a line each"); }
}
void hs_main(void) {
  int op = hs_cfg(0), nx = hs_cfg(1), ny = hs_cfg(2), nz = hs_cfg(3); vh_threads(1,0); vh_boot();
  if (op==0) { int app = hs_cfg(4), ns = hs_cfg(5); build(nx,ny,nz,ns); fill(); field_t *k = (field_t*)malloc(sizeof(field_t)*g->nv); memcpy(k,S->field_array->f,sizeof(field_t)*g->nv);
    if (app==2) S->dump_energies("en"); else S->dump_energies("en",app); double e[6]; S->field_array->kernel->energy_f(e,S->field_array); double p[3]; int i = 0; for (species_t *s=S->species_list; s; s=s->next) p[i++] = energy_p(s,S->interpolator_array);
    unsigned d = 0; for (int v=0; v<g->nv; v++) for (int c=0; c<16; c++) hs_near(FC(S->field_array->f+v,c),FC(k+v,c),0,"fields unchanged"); (void)d; hs_chk(g->step==17,"step unchanged");
    if (world_rank) { hs_chk(opened==0 && nt==0,"one process writes"); return; } hs_chk(opened==1 && closed==1 && !badfmt && strcmp(fname,"en")==0 && fmode==(app ? io_append : io_write),"written to the file, appended unless asked not to");
    if (!app) { say("%","headed by a comment"); int at[3] = { -1,-1,-1 }; pos = 0; i = 0; for (species_t *s=S->species_list; s; s=s->next,i++) { char q[64]; q[0] = '"'; strcpy(q+1,s->name); strcat(q,"\""); for (int j=0; j<nt; j++) if (strncmp(T+j,q,strlen(q))==0) { at[i] = j; break; } hs_chk(at[i]>=0 && (i==0 || at[i]>at[i-1]),"species named in the order of their columns"); } int dtok = 0; for (int j=0; j<nd && T[0]; j++) dtok = 1; hs_chk(dtok,"time step in the heading"); hs_near(D[0],g->dt,1e-9,"time step in the heading"); comments('%'); }
    want(17,"step"); for (int c=0; c<6; c++) want(e[c],"field energies in order"); for (i=0; i<ns; i++) want(p[i],"kinetic energy of every species"); endl("one line"); blanks(1); hs_chk(pos==nt,"nothing else"); }
  if (op==1) { int ns = hs_cfg(4); build(nx,ny,nz,ns); S->dump_species("sp"); if (world_rank) { hs_chk(opened==0 && nt==0,"one process writes"); return; } hs_chk(opened==1 && closed==1 && !badfmt && strcmp(fname,"sp")==0 && fmode==io_write,"written to the file");
    for (species_t *s=S->species_list; s; s=s->next) { say(s->name,"name"); want(s->id,"number"); want(s->q,"charge"); want(s->m,"mass"); endl("a line per species"); } blanks(1); hs_chk(pos==nt,"nothing else"); }
  if (op==2) { int nm = hs_cfg(4); build(nx,ny,nz,0); for (int i=0; i<nm; i++) { char c[4] = { 'm','a',(char)('0'+i),0 }; float q[9]; for (int j=0; j<9; j++) q[j] = hs_f32("q",0.5,2); append_material(material(c,q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8],0,0,0),&S->material_list); }
    S->dump_materials("mt"); if (world_rank) { hs_chk(opened==0 && nt==0,"one process writes"); return; } hs_chk(opened==1 && closed==1 && !badfmt && strcmp(fname,"mt")==0 && fmode==io_write,"written to the file");
    for (material_t *m=S->material_list; m; m=m->next) { say(m->name,"name"); want(m->id,"number"); for (int i=0; i<3; i++) want((&m->epsx)[i],"permittivity"); for (int i=0; i<3; i++) want((&m->mux)[i],"permeability"); for (int i=0; i<3; i++) want((&m->sigmax)[i],"conductivity"); endl("lines per material"); } blanks(1); hs_chk(pos==nt,"nothing else"); }
  if (op==3) { unsigned fm = (unsigned)hs_cfg(4), hm = (unsigned)hs_cfg(5); int ns = hs_cfg(6); build(nx,ny,nz,1); g->cvac = hs_f32("c",0.5,2); g->eps0 = hs_f32("eps0",0.5,2); float ex[9]; for (int i=0; i<9; i++) ex[i] = hs_f32("x",0.5,4); g->x0 = ex[0]; g->x1 = ex[1]; g->y0 = ex[2]; g->y1 = ex[3]; g->z0 = ex[4]; g->z1 = ex[5]; g->dx = ex[6]; g->dy = ex[7]; g->dz = ex[8]; S->px = 2; S->py = 3; S->pz = 5;
    std::vector<DumpParameters*> P; for (int i=0; i<=ns; i++) { DumpParameters *d = new DumpParameters(); memset((void*)d,0,sizeof(*d)); d->output_variables(i==0 ? fm : i==1 ? hm : hm*5+1); strcpy(d->baseDir,i ? "hydro" : "fields"); strcpy(d->baseFileName,i==0 ? "em" : i==1 ? "eh" : "ih"); P.push_back(d); }
    S->global_header("glob",P); if (world_rank) { hs_chk(opened==0 && nt==0,"one process writes"); return; } hs_chk(opened==1 && closed==1 && !badfmt && strcmp(fname,"glob.vpc")==0 && fmode==io_write,"written to the file");
    comments('#'); say("VPIC_HEADER_VERSION","version"); say("1.0.0","version"); comments('#'); say("DATA_HEADER_SIZE","bytes of a data header"); say("123","bytes of a data header");
    static const char *K[14] = { "GRID_DELTA_T","GRID_CVAC","GRID_EPS0","GRID_EXTENTS_X","GRID_EXTENTS_Y","GRID_EXTENTS_Z","GRID_DELTA_X","GRID_DELTA_Y","GRID_DELTA_Z","GRID_TOPOLOGY_X","GRID_TOPOLOGY_Y","GRID_TOPOLOGY_Z" };
    for (int i=0; i<12; i++) { comments('#'); say(K[i],K[i]); if (i==0) want(g->dt,K[i]); if (i==1) want(g->cvac,K[i]); if (i==2) want(g->eps0,K[i]); if (i>2 && i<6) { want(ex[2*(i-3)],K[i]); want(ex[2*(i-3)+1],K[i]); } if (i>=6 && i<9) want(ex[i],K[i]); if (i>=9) want(i==9 ? 2 : i==10 ? 3 : 5,K[i]); endl(K[i]); }
    comments('#'); say("FIELD_DATA_DIRECTORY","field directory"); say("fields","field directory"); say("FIELD_DATA_BASE_FILENAME","field files"); say("em","field files"); groups(0,fm,"FIELD_DATA_VARIABLES"); comments('#'); say("NUM_OUTPUT_SPECIES","number of species"); want(ns,"number of species");
    for (int i=1; i<=ns; i++) { comments('#'); say("SPECIES_DATA_DIRECTORY","species directory"); say("hydro","species directory"); say("SPECIES_DATA_BASE_FILENAME","species files"); say(i==1 ? "eh" : "ih","species files"); groups(1,i==1 ? hm : hm*5+1,"HYDRO_DATA_VARIABLES"); } blanks(1); hs_chk(pos==nt,"nothing else"); }
  if (op==4) { unsigned m = (unsigned)hs_cfg(4); build(nx,ny,nz,1); DumpParameters d; memset((void*)&d,0,sizeof d); d.output_variables(m); for (int h=0; h<2; h++) { char b[1024], w[1024]; memset(b,'x',sizeof b); b[1023] = 0; if (h) S->create_hydro_list(b,d); else S->create_field_list(b,d); w[0] = 0; int k = 0; for (int i=0; i<(h ? 5 : 12); i++) if (m>>first(h,i)&1) { if (k++) strcat(w,", "); strcat(w,h ? HN[i] : FN[i]); } hs_chk(strcmp(b,w)==0,"names of the selected quantities"); } }
}
