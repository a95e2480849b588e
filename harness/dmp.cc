// Output files: grid, field, moment and particle dumps hold exactly the selected data, and dumping changes nothing.
// EXCLUDE: src/vpic/dump.cc
// cfg: op nx ny nz ...
//  0 dump_grid: tag-less          1 dump_fields: ftag own       2 dump_hydro: ftag own species     3 dump_particles: ftag np nm
//  4 field_dump: format sx sy sz mask own userstep              5 hydro_dump: format sx sy sz mask own userstep   6 refusals: what
#include "vh.h"
#include <vector>
#include <string>
#include <cmath>
#include <climits>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#define protected public
#define private public
#include "vpic/vpic.h"
#undef protected
#undef private
#define VPIC_DUMP_PBUF_SIZE 4
#include "vpic/dump.cc"
static vpic_simulation *S; static grid_t *g; static species_t *sp[2]; static FILE *fi;
template<class T> static T rd(void) { T x; memset(&x,0,sizeof x); hs_chk(fread(&x,sizeof(T),1,fi)==1,"the file is long enough"); return x; }
static void num(float a, double b, double tol, const char *what) { hs_near(a,b,tol,what); }
static void in(const char *what) { hs_chk(fi!=NULL,what); if (!fi) hs_assume(0); }
static void done(void) { char c; hs_chk(fread(&c,1,1,fi)==0,"the file ends there"); fclose(fi); fi = NULL; }
static void header(int type, int spid, const float *q, const float *m, long step, int sx, int sy, int sz, int esz, int nd, const int *d) {
  hs_chk(rd<char>()==8 && rd<char>()==2 && rd<char>()==4 && rd<char>()==4 && rd<char>()==8,"sizes"); hs_chk((unsigned short)rd<short>()==0xcafe && (unsigned)rd<int>()==0xdeadbeef,"byte order marks"); { float a = rd<float>(); double b = rd<double>(); num(a,1,0,"one"); hs_near(b,1,0,"one"); }
  hs_chk(rd<int>()==0,"version"); hs_chk(rd<int>()==type,"dump type"); hs_chk(rd<int>()==(int)step,"step"); hs_chk(rd<int>()==g->nx/sx,"cells along x"); hs_chk(rd<int>()==g->ny/sy,"cells along y"); hs_chk(rd<int>()==g->nz/sz,"cells along z");
  num(rd<float>(),g->dt,0,"dt"); num(rd<float>(),(double)g->dx*sx,1e-6,"spacing along x"); num(rd<float>(),(double)g->dy*sy,1e-6,"spacing along y"); num(rd<float>(),(double)g->dz*sz,1e-6,"spacing along z");
  num(rd<float>(),g->x0,0,"x0"); num(rd<float>(),g->y0,0,"y0"); num(rd<float>(),g->z0,0,"z0"); num(rd<float>(),g->cvac,0,"cvac"); num(rd<float>(),g->eps0,0,"eps0"); num(rd<float>(),0,0,"damp");
  hs_chk(rd<int>()==world_rank && rd<int>()==world_size,"process"); hs_chk(rd<int>()==spid,"species"); { float r = rd<float>(); if (q) hs_near((double)r*m[0],q[0],1e-5,"charge to mass ratio"); else num(r,0,0,"charge to mass ratio"); }
  hs_chk(rd<int>()==esz && rd<int>()==nd,"array header"); for (int i=0; i<nd; i++) hs_chk(rd<int>()==d[i],"array extents");
}
/* ---- what must not change */
static struct { particle_t *p[2]; int np[2], nm[2], mnp[2], mnm[2]; particle_t *pp[2]; particle_mover_t *pm[2], *mm[2]; int *part[2]; field_t *f; interpolator_t *ia; hydro_t *h; grid_t g; int64_t *nb; } K; static vpic_simulation *KS;
static void *dup(const void *a, size_t n) { void *b = malloc(n ? n : 1); memcpy(b,a,n); return b; }
static void snap(int hy) {
  for (int i=0; i<2; i++) { species_t *s = sp[i]; K.p[i] = (particle_t*)dup(s->p,32*s->np); K.np[i] = s->np; K.nm[i] = s->nm; K.mnp[i] = s->max_np; K.mnm[i] = s->max_nm; K.pp[i] = s->p; K.pm[i] = s->pm; K.mm[i] = (particle_mover_t*)dup(s->pm,16*s->nm); K.part[i] = s->partition; }
  K.f = (field_t*)dup(S->field_array->f,sizeof(field_t)*g->nv); K.ia = (interpolator_t*)dup(S->interpolator_array->i,sizeof(interpolator_t)*g->nv); K.h = hy ? (hydro_t*)dup(S->hydro_array->h,sizeof(hydro_t)*g->nv) : NULL; K.g = *g; K.nb = (int64_t*)dup(g->neighbor,48*g->nv); KS = (vpic_simulation*)dup((void*)S,sizeof(*S));
}
static void words(const void *a, const void *b, size_t n, const char *what) { uint32_t d = 0; for (size_t i=0; i<n/4; i++) d |= ((const uint32_t*)a)[i]^((const uint32_t*)b)[i]; hs_chk(d==0,what); }
static void reals(const void *a, const void *b, int n, const char *what) { for (int i=0; i<n; i++) hs_near(((const float*)a)[i],((const float*)b)[i],0,what); }
static int fw;                                                  /* fields are words, not numbers */
static void unchanged(void) {
  for (int i=0; i<2; i++) { species_t *s = sp[i]; hs_chk(s->p==K.pp[i] && s->pm==K.pm[i] && s->np==K.np[i] && s->nm==K.nm[i] && s->max_np==K.mnp[i] && s->max_nm==K.mnm[i] && s->partition==K.part[i],"species unchanged");
    for (int j=0; j<K.np[i] && j<s->np; j++) { reals(&s->p[j].dx,&K.p[i][j].dx,3,"particles unchanged"); reals(&s->p[j].ux,&K.p[i][j].ux,4,"particles unchanged"); hs_chk(s->p[j].i==K.p[i][j].i,"particles unchanged"); }
    for (int j=0; j<K.nm[i] && j<s->nm; j++) { reals(s->pm+j,K.mm[i]+j,3,"movers unchanged"); hs_chk(s->pm[j].i==K.mm[i][j].i,"movers unchanged"); } }
  if (fw) words(S->field_array->f,K.f,sizeof(field_t)*g->nv,"fields unchanged"); else for (int v=0; v<g->nv; v++) { reals(S->field_array->f+v,K.f+v,16,"fields unchanged"); words(&S->field_array->f[v].ematx,&K.f[v].ematx,16,"materials unchanged"); }
  for (int v=0; v<g->nv; v++) reals(S->interpolator_array->i+v,K.ia+v,18,"interpolators unchanged");
  if (K.h) words(S->hydro_array->h,K.h,sizeof(hydro_t)*g->nv,"moments unchanged");
  hs_chk(g->nx==K.g.nx && g->ny==K.g.ny && g->nz==K.g.nz && g->nv==K.g.nv && g->step==K.g.step && g->mp==K.g.mp && g->range==K.g.range && g->neighbor==K.g.neighbor,"grid unchanged"); reals(&g->dt,&K.g.dt,3,"grid unchanged"); num(g->dx,K.g.dx,0,"grid unchanged"); num(g->dy,K.g.dy,0,"grid unchanged"); num(g->dz,K.g.dz,0,"grid unchanged");
  words(g->neighbor,K.nb,48*g->nv,"neighbours unchanged"); words(g->bc,K.g.bc,108,"boundaries unchanged");
  vpic_simulation *k = KS; hs_chk(S->num_step==k->num_step && S->species_list==k->species_list && S->field_array==k->field_array && S->interpolator_array==k->interpolator_array && S->accumulator_array==k->accumulator_array && S->hydro_array==k->hydro_array && S->grid==k->grid && S->entropy==k->entropy && S->px==k->px && S->py==k->py && S->pz==k->pz,"simulation unchanged");
}
static void build(int nx, int ny, int nz, int numeric) {
  S = new vpic_simulation(); g = S->grid; size_grid(g,nx,ny,nz); for (int b=0; b<6; b++) if (b%3==0) join_grid(g,vh_bnd[b],(world_rank+1)%world_size); else { set_fbc(g,vh_bnd[b],absorb_fields); set_pbc(g,vh_bnd[b],reflect_particles); }
  vh_metric(g,0); g->dt = hs_f32("dt",0.0625,1); g->cvac = hs_f32("cvac",0.5,2); g->eps0 = hs_f32("eps0",0.5,2); if (!numeric) { g->dx = hs_f32("dx",0.5,2); g->dy = hs_f32("dy",0.5,2); g->dz = hs_f32("dz",0.5,2); } g->x0 = hs_f32("x0",-4,4); g->y0 = hs_f32("y0",-4,4); g->z0 = hs_f32("z0",-4,4); g->step = 17;
  S->field_array = new_standard_field_array(g,append_material(material("vacuum",1,1,1,1,1,1,0,0,0,0,0,0),&S->material_list),0); S->interpolator_array = new_interpolator_array(g); S->accumulator_array = new_accumulator_array(g); S->hydro_array = new_hydro_array(g);
  fw = !numeric; if (fw) for (int v=0; v<g->nv; v++) for (int w=0; w<20; w++) ((uint32_t*)(S->field_array->f+v))[w] = (uint32_t)hs_bits("f",32);
  for (int i=0; i<2; i++) { sp[i] = append_species(species(i ? "ion" : "electron",1,1,12,4,0,0,g),&S->species_list); sp[i]->q = hs_f32("q",0.5,2); sp[i]->m = hs_f32("m",0.5,2); }
}
static void parts(species_t *s, int np, int nm) {
  static const char *c[3] = { "x","y","z" }, *u[3] = { "ux","uy","uz" }; s->np = np; s->nm = nm;
  for (int i=0; i<np; i++) { particle_t *p = s->p+i; for (int k=0; k<3; k++) { (&p->dx)[k] = hs_f32(c[k],-1,1); (&p->ux)[k] = hs_f32(u[k],-2,2); } p->w = hs_f32("w",0.5,2); p->i = VOXEL(1+i%g->nx,1+(i/2)%g->ny,1+(i/3)%g->nz,g->nx,g->ny,g->nz); }
  for (int i=0; i<nm; i++) { reals(s->pm,s->pm,0,""); for (int k=0; k<3; k++) (&s->pm[i].dispx)[k] = hs_f32("disp",-1,1); s->pm[i].i = i; }
}
static void interp(void) { for (int v=0; v<g->nv; v++) for (int c=0; c<18; c++) ((float*)(S->interpolator_array->i+v))[c] = hs_f32("ip",-1,1); }
static char nm[300];
static int at(int k, int s, int n) { int m = n/s; return k==0 ? 0 : k==m+1 ? n+1 : s==1 ? k : k*s-1; }    /* ghosts, and every s-th cell */
static void dims(int *d, int sx, int sy, int sz) { d[0] = g->nx/sx+2; d[1] = g->ny/sy+2; d[2] = g->nz/sz+2; }
/* every selected quantity (32 bits each, materials 16) of every selected cell; esz: bytes of a cell, nw: 32-bit quantities, nv: quantities */
static void body(const void *src, int esz, int nw, int nv, int format, int sx, int sy, int sz, unsigned mask) {
  int d[3]; dims(d,sx,sy,sz); unsigned bad = 0; long got = 0, n = 0; const char *a = (const char*)src;
  for (int v=0; v<(format==band ? nv : 1); v++) if (format!=band || (mask>>v&1))
    for (int k=0; k<d[2]; k++) for (int j=0; j<d[1]; j++) for (int i=0; i<d[0]; i++) { n++;
      const char *c = a+(size_t)esz*VOXEL(at(i,sx,g->nx),at(j,sy,g->ny),at(k,sz,g->nz),g->nx,g->ny,g->nz);
      if (format!=band) { uint32_t w[20]; memset(w,0,80); got += fread(w,esz,1,fi)==1; for (int x=0; x<esz/4; x++) bad |= w[x]^((const uint32_t*)c)[x]; }
      else if (v<nw) { uint32_t w = 0; got += fread(&w,4,1,fi)==1; bad |= w^((const uint32_t*)c)[v]; }
      else { uint16_t w = 0; got += fread(&w,2,1,fi)==1; bad |= (unsigned)(w^((const uint16_t*)c)[2*nw+v-nw]); } }
  hs_chk(got==n,"the file is long enough"); hs_chk(bad==0,"the selected quantities of the selected cells, in order");
}
static void fillh(hydro_t *h) { for (int v=0; v<g->nv; v++) for (int w=0; w<(int)sizeof(hydro_t)/4; w++) ((uint32_t*)(h+v))[w] = (uint32_t)hs_bits("h",32); }
void hs_main(void) {
  int op = hs_cfg(0), nx = hs_cfg(1), ny = hs_cfg(2), nz = hs_cfg(3), d[4]; vh_threads(1,0); vh_boot();
  if (op==0) {
    build(nx,ny,nz,0); for (int i=0; i<27; i++) g->bc[i] = (int)hs_bits("bc",32); for (int i=0; i<6*g->nv; i++) g->neighbor[i] = (int64_t)hs_bits("nb",64); for (int i=0; i<=world_size; i++) g->range[i] = (int64_t)hs_bits("range",64);
    snap(1); int64_t *rg = (int64_t*)dup(g->range,8*(world_size+1)); S->dump_grid("mesh"); unchanged(); words(g->range,rg,8*(world_size+1),"ranges unchanged");
    sprintf(nm,"mesh.%d",world_rank); fi = fopen(nm,"r"); in("file of this process"); d[0] = d[1] = d[2] = 3; header(0,-1,NULL,NULL,17,1,1,1,4,3,d); unsigned bad = 0; for (int i=0; i<27; i++) bad |= (unsigned)(rd<int>()^g->bc[i]); hs_chk(bad==0,"boundary conditions");
    hs_chk(rd<int>()==8 && rd<int>()==1 && rd<int>()==world_size+1,"array header"); uint64_t b = 0; for (int i=0; i<=world_size; i++) b |= (uint64_t)(rd<int64_t>()^g->range[i]); hs_chk(b==0,"ranges");
    hs_chk(rd<int>()==8 && rd<int>()==4 && rd<int>()==6 && rd<int>()==nx+2 && rd<int>()==ny+2 && rd<int>()==nz+2,"array header"); b = 0; for (int i=0; i<6*g->nv; i++) b |= (uint64_t)(rd<int64_t>()^g->neighbor[i]); hs_chk(b==0,"neighbours"); done();
  }
  if (op==1 || op==4) {
    build(nx,ny,nz,0); int fmt = op==4 ? hs_cfg(4) : (int)band_interleave, s[3] = { 1,1,1 }, own = hs_cfg(op==4 ? 9 : 5), us = op==4 ? hs_cfg(10) : -1; unsigned mask = op==4 ? (unsigned)hs_cfg(8) : 0; if (op==4) for (int i=0; i<3; i++) s[i] = hs_cfg(5+i);
    field_t *f = NULL; if (own) { f = (field_t*)malloc(sizeof(field_t)*g->nv); for (int v=0; v<g->nv; v++) for (int w=0; w<20; w++) ((uint32_t*)(f+v))[w] = (uint32_t)hs_bits("own",32); }
    fillh(S->hydro_array->h); snap(1); long st = us==-1 ? 17 : us;
    if (op==1) { S->dump_fields("fld",hs_cfg(4),f); if (hs_cfg(4)) sprintf(nm,"fld.17.%d",world_rank); else sprintf(nm,"fld.%d",world_rank); }
    else { DumpParameters *P = new DumpParameters(); memset((void*)P,0,sizeof(*P)); P->output_variables(mask); P->stride_x = s[0]; P->stride_y = s[1]; P->stride_z = s[2]; P->format = (DumpFormat)fmt; strcpy(P->name,"x"); strcpy(P->baseDir,"out"); strcpy(P->baseFileName,"em"); mkdir("out",0777);
      if (us==-1) S->field_dump(*P,f); else S->field_dump(*P,f,us); sprintf(nm,"out/T.%ld/em.%ld.%d",st,st,world_rank); hs_chk((int)P->stride_x==s[0] && (int)P->stride_y==s[1] && (int)P->stride_z==s[2] && P->output_vars.bits_==mask && P->format==fmt,"parameters unchanged"); }
    unchanged(); fi = fopen(nm,"r"); in("file of this process and step"); dims(d,s[0],s[1],s[2]); header(1,-1,NULL,NULL,st,s[0],s[1],s[2],80,3,d); body(f ? f : S->field_array->f,80,16,24,fmt,s[0],s[1],s[2],mask); done();
  }
  if (op==2 || op==5) {
    int own = hs_cfg(op==5 ? 9 : 5), which = op==2 ? hs_cfg(6) : (nx+nz)%2, fmt = op==5 ? hs_cfg(4) : (int)band_interleave, s[3] = { 1,1,1 }, us = op==5 ? hs_cfg(10) : -1; unsigned mask = op==5 ? (unsigned)hs_cfg(8) : 0; if (op==5) for (int i=0; i<3; i++) s[i] = hs_cfg(5+i);
    build(nx,ny,nz,!own); if (!own) { interp(); parts(sp[0],2,0); parts(sp[1],1,0); } long st = us==-1 ? 17 : us; hydro_t *h = NULL; const char *name = which ? "ion" : "electron";
    if (own) { h = (hydro_t*)malloc(sizeof(hydro_t)*g->nv); fillh(h); fillh(S->hydro_array->h); } snap(own);
    if (op==2) { S->dump_hydro(name,"hyd",hs_cfg(4),h); if (hs_cfg(4)) sprintf(nm,"hyd.17.%d",world_rank); else sprintf(nm,"hyd.%d",world_rank); }
    else { DumpParameters *P = new DumpParameters(); memset((void*)P,0,sizeof(*P)); P->output_variables(mask); P->stride_x = s[0]; P->stride_y = s[1]; P->stride_z = s[2]; P->format = (DumpFormat)fmt; strcpy(P->baseDir,"out"); strcpy(P->baseFileName,"mom"); mkdir("out",0777);
      if (us==-1) S->hydro_dump(name,*P,h); else S->hydro_dump(name,*P,h,us); sprintf(nm,"out/T.%ld/mom.%ld.%d",st,st,world_rank); }
    unchanged(); fi = fopen(nm,"r"); in("file of this process and step"); dims(d,s[0],s[1],s[2]); header(2,sp[which]->id,&sp[which]->q,&sp[which]->m,st,s[0],s[1],s[2],(int)sizeof(hydro_t),3,d);
    if (own) body(h,(int)sizeof(hydro_t),14,14,fmt,s[0],s[1],s[2],mask);
    else { hydro_array_t *b = new_hydro_array(g); clear_hydro_array(b); accumulate_hydro_p(b,sp[which],S->interpolator_array); synchronize_hydro_array(b);
      for (int v=0; v<g->nv; v++) { hydro_t t = rd<hydro_t>(); for (int c=0; c<14; c++) hs_near(((float*)&t)[c],((float*)(b->h+v))[c],0,"moments of the species"); } }
    done();
  }
  if (op==3) {
    build(nx,ny,nz,1); interp(); for (int v=0; v<g->nv; v++) for (int c=0; c<16; c++) FC(S->field_array->f+v,c) = hs_f32(vh_cn[c],-1,1); int n = hs_cfg(5); parts(sp[1],n,hs_cfg(6)); parts(sp[0],1,0); snap(0);
    species_t *r = append_species(species("copy",1,1,n+1,1,0,0,g),&S->species_list); r->q = sp[1]->q; r->m = sp[1]->m; r->np = n; for (int i=0; i<n; i++) r->p[i] = sp[1]->p[i]; KS->species_list = S->species_list;
    S->dump_particles("ion","prt",hs_cfg(4)); unchanged(); if (hs_cfg(4)) sprintf(nm,"prt.17.%d",world_rank); else sprintf(nm,"prt.%d",world_rank);
    fi = fopen(nm,"r"); in("file of this process and step"); d[0] = n; header(3,sp[1]->id,&sp[1]->q,&sp[1]->m,17,1,1,1,32,1,d); center_p(r,S->interpolator_array);
    for (int i=0; i<n; i++) { particle_t t = rd<particle_t>(); hs_chk(t.i==r->p[i].i,"cell"); for (int k=0; k<3; k++) hs_near((&t.dx)[k],(&r->p[i].dx)[k],0,"position"); for (int k=0; k<4; k++) hs_near((&t.ux)[k],(&r->p[i].ux)[k],0,k<3 ? "time-centred momentum" : "weight"); } done();
  }
  if (op==6) {
    build(nx,ny,nz,0); int w = hs_cfg(4); DumpParameters *P = new DumpParameters(); memset((void*)P,0,sizeof(*P)); P->stride_x = P->stride_y = P->stride_z = 1; P->format = band; strcpy(P->baseDir,"out"); strcpy(P->baseFileName,"em"); mkdir("out",0777); (w>=3 && w<6 ? (&P->stride_x)[w-3] : w>=6 && w<9 ? (&P->stride_x)[w-6] : P->stride_x) = w>=3 && w<9 ? hs_choose("stride",4)+2 : 1;
    if (w>=3 && w<9) { int n = w%3==0 ? nx : w%3==1 ? ny : nz; hs_assume(n%(&P->stride_x)[w%3]!=0); } hs_expect_exit(1);
    switch (w) { case 0: S->dump_particles("nobody","p",0); break; case 1: S->dump_hydro("nobody","p",0); break; case 2: S->hydro_dump("nobody",*P); break; case 3: case 4: case 5: S->field_dump(*P); break; case 6: case 7: case 8: S->hydro_dump("ion",*P,S->hydro_array->h); break;
      case 9: S->dump_grid("none/x"); break; case 10: S->dump_fields(NULL); break; case 11: S->dump_particles("ion",NULL); break; case 12: S->dump_grid(NULL); break; case 13: S->dump_hydro("ion",NULL); break; case 14: strcpy(P->baseDir,"none"); S->field_dump(*P); break; case 15: S->dump_particles("ion","none/x"); break; }
    hs_chk(0,"refused");
  }
}
