// What an input deck calls: regions of fields, materials, particle boundaries and emitters, and the definition helpers.
// cfg: op nx ny nz seed k a b
//  0 set_region_field  1 set_point_region_field  2 set_region_material a b  3 set_point_region_material a  4 set_region_bc a b c(=k%4..)  5 set_point_region_bc a b
//  6 define_surface_emitter  7 define_volume_emitter  8 helpers: what
// k: number of points of arbitrary membership, around the centre of one cell (seed); all others in or out after a pattern (seed)
#define IN_emitter
#define IN_boundary
#include "vh.h"
#include <vector>
#include <string>
#include <cmath>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <map>
#define protected public
#define private public
#include "vpic/vpic.h"
#undef protected
#undef private
#include "emitter/emitter_private.h"
#include "boundary/boundary_private.h"
#include "wrapper.h"
enum { M = 14 };
static vpic_simulation *S; static grid_t *g; static int n[3], T[M][M][M], bad = 0, evals = 0, op, sd; static double co[6][4]; static material_t *mat[4]; static particle_bc_t *hd[2]; static emitter_t *em; static int arg[3];
static int V(int x, int y, int z) { return VOXEL(x,y,z,n[0],n[1],n[2]); }
/* positions in half cells from the lower corner, shifted by 3 */
static int half(double x, int a) { double x0 = a==0 ? g->x0 : a==1 ? g->y0 : g->z0, d = a==0 ? g->dx : a==1 ? g->dy : g->dz, h = 2*(x-x0)/d+3; int i = (int)h; if (h!=i || i<0 || i>=M) { bad = 1; return 0; } return i; }
static double at(int h, int a) { double x0 = a==0 ? g->x0 : a==1 ? g->y0 : g->z0, d = a==0 ? g->dx : a==1 ? g->dy : g->dz; return x0+d*(h-3)*0.5; }
static int in(double x, double y, double z) { return T[half(x,0)][half(y,1)][half(z,2)]; }
static double eqn(int c, double x, double y, double z) { evals++; return co[c][0]+co[c][1]*x+co[c][2]*y+co[c][3]*z; }
#define E(c) eqn(c,x,y,z)
static particle_bc_t *bc(int k) { return k==0 ? leave_unchanged : k==1 ? (particle_bc_t*)reflect_particles : k==2 ? (particle_bc_t*)absorb_particles : hd[k-3]; }
static int64_t bcid(int k) { return k==0 ? 0 : k==1 ? reflect_particles : k==2 ? absorb_particles : -3-(k-3); }
static void apply(vpic_simulation *s);
void vpic_simulation::user_initialization(int, char**) {}
void vpic_simulation::user_particle_collisions(void) {}
void vpic_simulation::user_particle_injection(void) {}
void vpic_simulation::user_current_injection(void) {}
void vpic_simulation::user_diagnostics(void) {}
begin_field_injection {
  switch (op) {
    case 0: set_region_field(in(x,y,z),E(0),E(1),E(2),E(3),E(4),E(5)); break;
    case 1: set_point_region_field(in(x,y,z),E(0),E(1),E(2),E(3),E(4),E(5)); break;
    case 2: set_region_material(in(x,y,z),arg[0]<0 ? leave_unchanged : mat[arg[0]],arg[1]<0 ? leave_unchanged : mat[arg[1]]); break;
    case 3: set_point_region_material(in(x,y,z),arg[0]<0 ? leave_unchanged : mat[arg[0]]); break;
    case 4: set_region_bc(in(x,y,z),bc(arg[0]),bc(arg[1]),bc(arg[2])); break;
    case 5: set_point_region_bc(in(x,y,z),bc(arg[0]),bc(arg[1])); break;
    case 6: define_surface_emitter(em,in(x,y,z)); break;
    case 7: define_volume_emitter(em,in(x,y,z)); break;
  }
}
static int pbc_(void *, species_t *, particle_t *, particle_mover_t *, particle_injector_t *, int, int) { return 0; }
static void emit_(void *, const int *, int) {} static void edel_(emitter_t *) {} static void ck_(const void *) {} static void *rs_(void) { return NULL; }
static int tag[4];
/* cell (i,j,k) of the mesh (ghosts and beyond included) in the region */
static int C(int i, int j, int k) { return T[2*i+2][2*j+2][2*k+2]; }
static void cells(int i, int j, int k, int sx, int sy, int sz, int *any, int *all) { *any = 0; *all = 1; for (int a=0; a<=sx; a++) for (int b=0; b<=sy; b++) for (int c=0; c<=sz; c++) { int t = C(i-a,j-b,k-c); *any |= t; *all &= t; } }
static void region(int kk) {
  unsigned r = sd*2654435761u+12345u; int pat = sd%4;
  for (int a=0; a<M; a++) for (int b=0; b<M; b++) for (int c=0; c<M; c++) { r = r*1664525u+1013904223u; T[a][b][c] = pat==0 ? 0 : pat==1 ? 1 : pat==2 ? r>>31 : (r>>28)<11; }
  /* a cluster of points of arbitrary membership around a cell, on the sub-lattice the region rule looks at */
  int st = op==1 || op==3 ? 1 : 2, o[3]; for (int a=0; a<3; a++) o[a] = (st==1 || op==5 ? 3 : 4)+2*((sd>>a)%(n[a]));
  if (op==4 || op>=6) { int c[3]; for (int a=0; a<3; a++) c[a] = 4+2*((sd>>a)%n[a]); static const int nbr[7][3] = { { 0,0,0 },{ -2,0,0 },{ 0,2,0 },{ 0,0,-2 },{ 2,0,0 },{ 0,-2,0 },{ 0,0,2 } };
    for (int q=0; q<kk; q++) { const int *d = nbr[q ? 1+(q-1+sd)%6 : 0]; T[c[0]+d[0]][c[1]+d[1]][c[2]+d[2]] = (int)hs_bits("in",1); } return; }
  for (int q=0; q<kk; q++) { int e = op==5 ? q : (q*5+sd)%8; T[o[0]+st*(e&1)-(op==5 || st==1 ? 0 : 2*((sd/8)&1))][o[1]+st*(e>>1&1)][o[2]+st*(e>>2&1)] = (int)hs_bits("in",1); }
}
static void mesh(int ng) {
  S = new vpic_simulation(); g = S->grid; if (!ng) return;
  size_grid(g,n[0],n[1],n[2]); for (int b=0; b<6; b++) join_grid(g,vh_bnd[b],0); vh_metric(g,0); g->cvac = 2; g->dx = 1; g->dy = 0.5f; g->dz = 2; g->x0 = -1; g->y0 = 0.5f; g->z0 = 4;
  for (int i=0; i<4; i++) { char nm[3] = { 'm',(char)('0'+i),0 }; mat[i] = append_material(material(nm,1+i,1,2,1,1,1+i,0,0,0,0,0,0),&S->material_list); }
  S->field_array = new_standard_field_array(g,S->material_list,0);
  for (int i=0; i<2; i++) hd[i] = S->define_particle_bc(new_particle_bc_internal(&tag[i],pbc_,NULL,(checkpt_func_t)ck_,(restore_func_t)rs_,NULL));
}
static void regions(void) {
  mesh(1); region(hs_cfg(5)); for (int i=0; i<3; i++) arg[i] = hs_cfg(6+i);
  for (int c=0; c<6; c++) for (int i=0; i<4; i++) co[c][i] = op<2 ? hs_f64("eqn",-1,1) : 0;
  field_array_t *fa = S->field_array; for (int v=0; v<g->nv; v++) for (int c=0; c<16; c++) FC(fa->f+v,c) = op<2 ? hs_f32(vh_cn[c],-1,1) : 0;
  if (op==2 || op==3) for (int v=0; v<g->nv; v++) for (int c=0; c<8; c++) (&fa->f[v].ematx)[c] = (material_id)hs_bits("mat",16);
  vh_exp X; X.init(fa); int64_t *nb = (int64_t*)malloc(48*(size_t)g->nv); for (int i=0; i<6*g->nv; i++) nb[i] = g->neighbor[i] = op==4 || op==5 ? (int64_t)hs_bits("nb",62) : 0;
  if (op>=6) em = new_emitter_internal(&tag[2],emit_,edel_,(checkpt_func_t)ck_,(restore_func_t)rs_,NULL);
  S->user_field_injection();
  hs_chk(!bad,"the region is looked up at cell centres, nodes and the like only");
  static const int D[6][3] = { { 1,0,0 },{ 0,1,0 },{ 0,0,1 },{ 0,1,1 },{ 1,0,1 },{ 1,1,0 } };  /* along these axes at the centre: ex ey ez bx by bz */
  static const int F[6] = { EX,EY,EZ,CBX,CBY,CBZ };
  if (op<2) { int ne = 0;
    for (int k=0; k<n[2]+2; k++) for (int j=0; j<n[1]+2; j++) for (int i=0; i<n[0]+2; i++) for (int c=0; c<6; c++) { const int *d = D[c]; int any, all;
      int hx = 2*i+1+d[0], hy = 2*j+1+d[1], hz = 2*k+1+d[2]; if (op==0) cells(i,j,k,!d[0],!d[1],!d[2],&any,&all); else any = T[hx][hy][hz]; ne += any;
      double v = (c>=3 ? 2 : 1)*(co[c][0]+co[c][1]*at(hx,0)+co[c][2]*at(hy,1)+co[c][3]*at(hz,2)); if (any) X.set(F[c],i,j,k,v,1e-6); }
    hs_chk(evals==ne,"equations evaluated once per selected component"); X.check(fa,"field of the region"); }
  if (op==2 || op==3) { uint16_t err = 0;
    for (int k=0; k<n[2]+2; k++) for (int j=0; j<n[1]+2; j++) for (int i=0; i<n[0]+2; i++) { material_id *m = X.id+8*V(i,j,k), *got = &fa->f[V(i,j,k)].ematx;
      for (int c=0; c<8; c++) { /* ematx..z nmat fmatx..z cmat */ int d[3]; for (int a=0; a<3; a++) d[a] = c<3 ? D[c][a] : c==3 ? 0 : c<7 ? D[c-4+3][a] : 1;
        int any, all; cells(i,j,k,!d[0],!d[1],!d[2],&any,&all); int pt = T[2*i+1+d[0]][2*j+1+d[1]][2*k+1+d[2]]; uint16_t want = (uint16_t)m[c];
        if (op==3) { if (arg[0]>=0 && pt) want = (uint16_t)mat[arg[0]]->id; }
        else { if (arg[1]>=0 && any && !all) want = (uint16_t)mat[arg[1]]->id; if (arg[0]>=0 && all) want = (uint16_t)mat[arg[0]]->id; }
        err |= (uint16_t)(want^(uint16_t)got[c]); } }
    hs_chk(err==0,"materials of the interior and of the surface, nothing else"); }
  if (op==4 || op==5) { uint64_t err = 0;
    for (int k=1; k<=n[2]; k++) for (int j=1; j<=n[1]; j++) for (int i=1; i<=n[0]; i++) for (int b=0; b<6; b++) { int a = b%3, hi = b>=3; int64_t *w = nb+6*V(i,j,k)+b;
      if (op==4) { int me = C(i,j,k), o = C(i+(a==0 ? 2*hi-1 : 0),j+(a==1 ? 2*hi-1 : 0),k+(a==2 ? 2*hi-1 : 0)); int q = me && o ? arg[0] : me ? arg[1] : o ? arg[2] : 0; if (q) *w = bcid(q); }
      else { int any = 0, all = 1; for (int c=0; c<4; c++) { int e[3]; e[a] = hi; e[(a+1)%3] = c&1; e[(a+2)%3] = c>>1; int t = T[2*(i+e[0])+1][2*(j+e[1])+1][2*(k+e[2])+1]; any |= t; all &= t; } int q = all ? arg[0] : any ? arg[1] : 0; if (q) *w = bcid(q); } }
    for (int i=0; i<6*g->nv; i++) err |= (uint64_t)(nb[i]^g->neighbor[i]); hs_chk(err==0,"particle boundaries of the interior, the two sides of the surface, nothing else"); X.check(fa,"fields unchanged"); }
  if (op>=6) { int cnt = 0, ok = 1; char seen[32*M*M*M/4]; memset(seen,0,sizeof seen);
    hs_chk(S->emitter_list==em && num_emitter(S->emitter_list)==1,"the emitter is in the list");
    for (int i=0; i<em->n_component; i++) { int c = em->component[i]; if (c<0 || c>=(int)sizeof seen) { ok = 0; break; } if (seen[c]) ok = 0; seen[c] = 1; } hs_chk(ok,"each face once");
    for (int k=1; k<=n[2]; k++) for (int j=1; j<=n[1]; j++) for (int i=1; i<=n[0]; i++) { int me = C(i,j,k);
      if (op==7) { if (me) { cnt++; hs_chk(seen[COMPONENT_ID(V(i,j,k),BOUNDARY(0,0,0))],"every cell inside"); } }
      else for (int b=0; b<6; b++) { int a = b%3, s = b<3 ? -1 : 1; int o = C(i+(a==0)*s,j+(a==1)*s,k+(a==2)*s); if (!me && o) { cnt++; hs_chk(seen[COMPONENT_ID(V(i,j,k),vh_bnd[b])],"every outside cell next to the region, on the face towards it"); } } }
    hs_chk(cnt==em->n_component,"nothing else"); X.check(fa,"fields unchanged"); }
}
static int sameg(const grid_t *a, const grid_t *b, int all) {
  int same = a->nx==b->nx && a->ny==b->ny && a->nz==b->nz && a->nv==b->nv && a->sx==b->sx && a->sy==b->sy && a->sz==b->sz && a->rangel==b->rangel && a->rangeh==b->rangeh && memcmp(a->bc,b->bc,sizeof a->bc)==0; if (!same) return 0;
  for (int i=0; i<6*a->nv; i++) same &= a->neighbor[i]==b->neighbor[i]; for (int i=0; i<=world_size; i++) same &= a->range[i]==b->range[i];
  if (all) { const float *x = &a->dt, *y = &b->dt; (void)x; (void)y; hs_near(a->dx,b->dx,0,"mesh spacing"); hs_near(a->dy,b->dy,0,"mesh spacing"); hs_near(a->dz,b->dz,0,"mesh spacing"); hs_near(a->x0,b->x0,0,"mesh corner"); hs_near(a->y0,b->y0,0,"mesh corner"); hs_near(a->z0,b->z0,0,"mesh corner");
    hs_near(a->x1,b->x1,0,"mesh corner"); hs_near(a->y1,b->y1,0,"mesh corner"); hs_near(a->z1,b->z1,0,"mesh corner"); hs_near(a->rdx,b->rdx,0,"mesh spacing"); hs_near(a->rdy,b->rdy,0,"mesh spacing"); hs_near(a->rdz,b->rdz,0,"mesh spacing"); hs_near(a->dV,b->dV,0,"volume"); hs_near(a->r8V,b->r8V,0,"volume"); }
  return same;
}
static void helpers(void) {
  int w = hs_cfg(6); mesh(w<4 || w==7 ? 0 : 1);
  if (w==0) { double c = hs_f32("c",0.5,2), e = hs_f32("e",0.5,2), dt = hs_f32("dt",0.0625,1), t0 = hs_f64("t0",-4,4); int64_t st = hs_int("step",0,1<<20); float odt = g->dt;
    (void)odt; S->define_units((float)c,(float)e); hs_near(g->cvac,c,0,"speed of light"); hs_near(g->eps0,e,0,"permittivity"); S->define_timestep((float)dt,t0,st); hs_near(g->dt,dt,0,"time step"); hs_near(g->t0,t0,0,"start time"); hs_chk(g->step==st,"first step"); hs_chk(S->step()==st,"step"); hs_near(S->time(),t0+dt*(double)st,1e-9,"time"); hs_near(g->cvac,c,0,"units kept"); S->define_timestep((float)dt); hs_chk(g->step==0,"step 0 by default"); hs_near(g->t0,0,0,"time 0 by default"); S->step() = 3; hs_near(S->time(),3*dt,1e-9,"time"); }
  if (w>=1 && w<4) { double xl = hs_f64("xl",-2,-1), yl = hs_f64("yl",-2,-1), zl = hs_f64("zl",-2,-1), xh = hs_f64("xh",1,2), yh = hs_f64("yh",1,2), zh = hs_f64("zh",1,2); grid_t *r = new_grid(); r->cvac = g->cvac = 1; r->eps0 = g->eps0 = 1; r->dt = g->dt = 0.25f; int P[3] = { hs_cfg(7),hs_cfg(8),hs_cfg(9) };
    if (w==1) { S->define_periodic_grid(xl,yl,zl,xh,yh,zh,n[0],n[1],n[2],P[0],P[1],P[2]); partition_periodic_box(r,xl,yl,zl,xh,yh,zh,n[0],n[1],n[2],P[0],P[1],P[2]); }
    if (w==2) { S->define_absorbing_grid(xl,yl,zl,xh,yh,zh,n[0],n[1],n[2],P[0],P[1],P[2],absorb_particles); partition_absorbing_box(r,xl,yl,zl,xh,yh,zh,n[0],n[1],n[2],P[0],P[1],P[2],absorb_particles); }
    if (w==3) { S->define_reflecting_grid(xl,yl,zl,xh,yh,zh,n[0],n[1],n[2],P[0],P[1],P[2]); partition_metal_box(r,xl,yl,zl,xh,yh,zh,n[0],n[1],n[2],P[0],P[1],P[2]); }
    hs_chk(sameg(g,r,1),"the partition of the same name"); hs_chk((int)S->px==P[0] && (int)S->py==P[1] && (int)S->pz==P[2],"topology kept"); }
  if (w==4) { double e = hs_f32("eps",0.5,2), m = hs_f32("mu",0.5,2), s = hs_f32("sigma",0,2), z = hs_f32("zeta",0,2); material_t *a = S->define_material("iso",e,m,s,z), *b = S->define_material("vac",e); float q[12]; for (int i=0; i<12; i++) q[i] = hs_f32("q",0.5,2);
    material_t *c = S->define_material("full",q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8],q[9],q[10],q[11]), *d = S->define_material("nozeta",q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8]); material_t *L[4] = { a,b,c,d }; static const char *N[4] = { "iso","vac","full","nozeta" };
    for (int i=0; i<4; i++) hs_chk(S->lookup_material(N[i])==L[i] && S->lookup_material(L[i]->id)==L[i] && L[i]->id==4+i,"found by name and number"); hs_chk(S->lookup_material("none")==NULL,"unknown name");
    for (int i=0; i<3; i++) { hs_near((&a->epsx)[i],e,0,"permittivity"); hs_near((&a->mux)[i],m,0,"permeability"); hs_near((&a->sigmax)[i],s,0,"conductivity"); hs_near((&a->zetax)[i],z,0,"magnetic conductivity"); hs_near((&b->epsx)[i],e,0,"permittivity"); hs_near((&b->mux)[i],1,0,"permeability 1 by default"); hs_near((&b->sigmax)[i],0,0,"conductivity 0 by default"); hs_near((&b->zetax)[i],0,0,"magnetic conductivity 0 by default");
      const material_t *M2[2] = { c,d }; for (int k=0; k<2; k++) { hs_near((&M2[k]->epsx)[i],q[i],0,"permittivity"); hs_near((&M2[k]->mux)[i],q[3+i],0,"permeability"); hs_near((&M2[k]->sigmax)[i],q[6+i],0,"conductivity"); hs_near((&M2[k]->zetax)[i],k ? 0 : q[9+i],0,"magnetic conductivity"); } } }
  if (w==5) { double q = hs_f32("q",-2,2), m = hs_f32("m",0.5,2); int big = 16*(MAX_PIPELINE+1); static const int np[4] = { 10,1000,100000,1 }, nm[4] = { 5,-1,-1,0 };
    for (int i=0; i<4; i++) { char nme[3] = { 's',(char)('0'+i),0 }; species_t *s = S->define_species(nme,q,m,np[i],nm[i],10*i,i%2); int want = nm[i]<0 ? (2*np[i]/25<big ? big : 2*np[i]/25) : nm[i]<1 ? 1 : nm[i];
      hs_near(s->q,q,0,"charge"); hs_near(s->m,m,0,"mass"); hs_chk(s->max_np==np[i] && s->np==0 && s->nm==0,"room for particles"); hs_chk(s->max_nm==want,"room for movers, by default 2/25 of it and not too small"); hs_chk(s->sort_interval==10*i && s->sort_out_of_place==i%2 && s->g==g && s->id==i,"sorting, mesh, number"); hs_chk(S->find_species(nme)==s && S->find_species(i)==s,"found by name and number"); }
    hs_chk(S->find_species("none")==NULL,"unknown name"); }
  if (w==6) { double lo = hs_f64("lo",-2,2), hi = hs_f64("hi",-2,2), s = hs_f64("s",0,2); S->seed_entropy(7); rng_pool_t *a = new_rng_pool(S->entropy->n_rng,0,0), *b = new_rng_pool(S->sync_entropy->n_rng,0,1); seed_rng_pool(a,7,0); seed_rng_pool(b,7,1);
    hs_chk(S->rng(0)==S->entropy->rng[0] && S->sync_rng(1)==S->sync_entropy->rng[1],"generators of the pools"); hs_chk(u32rand(S->rng(1))==u32rand(a->rng[1]) && u32rand(S->sync_rng(0))==u32rand(b->rng[0]),"seeded as the pools are");
    for (int i=0; i<3; i++) { double d = drand(a->rng[0]); hs_near(S->uniform(S->rng(0),lo,hi),lo*(1-d)+hi*d,1e-12,"uniform between the limits"); } for (int i=0; i<2; i++) { double d = drandn(a->rng[1]); hs_near(S->normal(S->rng(1),lo,s),lo+s*d,1e-12,"normal with mean and deviation"); } }
  if (w==7) { int bnd = vh_bnd[hs_cfg(7)]; S->size_domain(n[0],n[1],n[2]); grid_t *r = new_grid(); size_grid(r,n[0],n[1],n[2]); hs_chk(sameg(g,r,0),"a box of that size"); S->join_domain(bnd,0); join_grid(r,bnd,0); hs_chk(sameg(g,r,0),"joined"); S->set_domain_field_bc(-bnd+2*13,absorb_fields); set_fbc(r,-bnd+2*13,absorb_fields); hs_chk(sameg(g,r,0),"field condition of that side"); S->set_domain_particle_bc(-bnd+2*13,absorb_particles); set_pbc(r,-bnd+2*13,absorb_particles); hs_chk(sameg(g,r,0),"particle condition of that side"); hs_chk(S->voxel(1,2,3)==V(1,2,3),"voxel"); }
  if (w==8) { double l[3] = { hs_f64("lx",0.5,2),hs_f64("ly",0.5,2),hs_f64("lz",0.5,2) }, r = S->courant_length(l[0],l[1],l[2],n[0],n[1],n[2]), s = 0; for (int a=0; a<3; a++) if (n[a]>1) s += (n[a]/l[a])*(n[a]/l[a]); hs_chk(r>0,"positive"); hs_near(r*r*s,1,1e-9,"Courant length of the resolved axes"); }
  if (w==9) { int q = hs_cfg(7); S->field_array = NULL; hs_chk(S->interpolator_array==NULL && S->accumulator_array==NULL,"nothing yet"); if (q) { hs_expect_exit(1); if (q==1) g->nx = 0; else S->material_list = NULL; S->define_field_array(); hs_chk(0,"refused"); }
    float damp = hs_f32("damp",0,0.5); S->define_field_array(NULL,damp); hs_chk(S->field_array && S->interpolator_array && S->accumulator_array && S->hydro_array,"all arrays"); hs_chk(S->field_array->g==g && S->interpolator_array->g==g && S->accumulator_array->g==g && S->hydro_array->g==g,"of the mesh"); hs_near(((sfa_params_t*)S->field_array->params)->damp,damp,0,"damping");
    static const int dx[3] = { 0,0,0 }; (void)dx; for (int b=0; b<6; b++) hs_chk(mp_send_buffer(g->mp,vh_bnd[b])!=NULL && mp_recv_buffer(g->mp,vh_bnd[b])!=NULL,"message buffers of every face");
    hs_chk(&S->field(1,1,1)==S->field_array->f+V(1,1,1) && &S->interpolator(1,1,1)==S->interpolator_array->i+V(1,1,1) && &S->hydro(1,1,1)==S->hydro_array->h+V(1,1,1) && &S->field(5)==S->field_array->f+5 && &S->hydro(5)==S->hydro_array->h+5 && &S->interpolator(5)==S->interpolator_array->i+5,"accessors"); }
  if (w==10) { species_t *s = S->define_species("s",1,1,8,8,0,0); particle_t *k = s->p; s->np = 2; memset(k,0,64); S->inject_particle_raw(s,hs_f32("dx",-1,1),0.25f,-0.5f,V(1,1,1),1,2,3,hs_f32("w",0,2)); hs_chk(s->np==3 && s->nm==0 && k[2].i==V(1,1,1),"one particle at the end of the list"); hs_near(k[2].dy,0.25,0,"position"); hs_near(k[2].dz,-0.5,0,"position"); hs_near(k[2].ux,1,0,"momentum"); hs_near(k[2].uy,2,0,"momentum"); hs_near(k[2].uz,3,0,"momentum"); }
}
void hs_main(void) { op = hs_cfg(0); for (int i=0; i<3; i++) n[i] = hs_cfg(1+i); sd = hs_cfg(4); vh_threads(1,0); vh_boot(); if (op<8) regions(); else helpers(); }
