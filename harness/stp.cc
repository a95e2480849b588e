// A whole time step of the real driver: Gauss's law, magnetic divergence, order of the sub-steps; initialization; Poynting flux.
// cfg: op ...
//  0 Gauss over one step: nx ny nz codes cx cy cz signs rounds nmat variant-of-fields
//  1 step against its sub-steps: nx ny nz step num_step (sort div_e div_b sync intervals as digits) (1: no operators) cleaning-rounds signs
//  2 Poynting flux: nx ny nz px py pz       3 initialization: nx ny nz codes cx cy cz nmat
// codes: faces -x,-y,-z,+x,+y,+z: 0 periodic or neighbouring domain (along x) 1 metal, reflecting 2 absorbing 3 absorbing fields, particle handler
#define IN_boundary
#include "vh.h"
#include <vector>
#include <string>
#include <cmath>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <map>
#define protected public
#define private public
#include "vpic/vpic.h"
#undef protected
#undef private
#include "boundary/boundary_private.h"
#define IN_collision
#include "collision/collision_private.h"
#define IN_emitter
#include "emitter/emitter_private.h"
static vpic_simulation *S; static grid_t *g; static species_t *sp[2]; static int W, kind[6], n[3];
static float true_rd[3]; static int swap_rd = 0, log_[16], nlog = 0; static const char *hook[6] = { "initialization","collisions","injection","current","field","diagnostics" };
static void (*on[6])(void); static void called(int k) { hs_chk(nlog<16,"hook calls"); if (nlog<16) log_[nlog++] = k; if (k<6 && on[k]) on[k](); }
void vpic_simulation::user_initialization(int, char**) { called(0); }
void vpic_simulation::user_particle_collisions(void) { called(1); }
void vpic_simulation::user_particle_injection(void) { if (swap_rd) { g->rdx = true_rd[0]; g->rdy = true_rd[1]; g->rdz = true_rd[2]; swap_rd = 0; } called(2); }
void vpic_simulation::user_current_injection(void) { called(3); }
void vpic_simulation::user_field_injection(void) { called(4); }
void vpic_simulation::user_diagnostics(void) { called(5); }
static int V(int x, int y, int z) { return VOXEL(x,y,z,n[0],n[1],n[2]); }
static int eaten(void *, species_t *, particle_t *, particle_mover_t *, particle_injector_t *, int, int) { return 0; }
static void build(int codes, int nmat) {
  S = new vpic_simulation(); S->verbose = 0; g = S->grid; size_grid(g,n[0],n[1],n[2]); S->px = W; S->py = S->pz = 1;
  for (int b=5; b>=0; b--) { kind[b] = codes%10; codes /= 10; }
  for (int b=0; b<6; b++) { int k = kind[b]; if (k==0) { join_grid(g,vh_bnd[b],b%3 ? world_rank : (world_rank+(b<3 ? W-1 : 1))%W); continue; } if (W>1 && b%3==0 && (b<3 ? world_rank!=0 : world_rank!=W-1)) { join_grid(g,vh_bnd[b],world_rank+(b<3 ? -1 : 1)); kind[b] = 0; continue; }
    set_fbc(g,vh_bnd[b],k==1 ? pec_fields : absorb_fields); set_pbc(g,vh_bnd[b],k==1 ? reflect_particles : k==2 ? absorb_particles : -3); }
  vh_metric(g,0); g->step = 0; g->cvac = 1; g->eps0 = 2;
  for (int i=0; i<nmat; i++) { char nm[3] = { 'm',(char)('0'+i),0 }; append_material(material(nm,1+i,1,2,1,1,1+i,0,0,0,0,0,0),&S->material_list); }
  S->field_array = new_standard_field_array(g,S->material_list,0); S->interpolator_array = new_interpolator_array(g); S->accumulator_array = new_accumulator_array(g); S->hydro_array = new_hydro_array(g);
  for (int i=0; i<2; i++) { sp[i] = append_species(species(i ? "ion" : "electron",1,1,8,8,0,0,g),&S->species_list); sp[i]->q = hs_f32("q",-2,2); }
}
static void fill(int nmat) {
  for (int z=0; z<=n[2]+1; z++) for (int y=0; y<=n[1]+1; y++) for (int x=0; x<=n[0]+1; x++) { field_t *f = S->field_array->f+V(x,y,z); memset(f,0,sizeof(*f));
    int in = x && y && z; for (int c=0; c<16; c++) if (c==DIVE || c==DIVB || (c>=TCAX && c<RHOB) || c>=JFX) FC(f,c) = in ? 0.5f : 0; else FC(f,c) = in ? hs_f32(vh_cn[c],-1,1) : 0;
    if (nmat>1) for (int c=0; c<8; c++) (&f->ematx)[c] = (c+(n[0]%2 ? 0 : x)+(n[1]%2 ? 0 : 2*y)+(n[2]%2 ? 0 : z))%nmat; }
}
static void copyf(field_t *to) { memcpy(to,S->field_array->f,sizeof(field_t)*g->nv); }
/* charge of the particles and Gauss error at every node, by the real diagnostics, on a copy */
static field_t *gauss(void) {
  field_array_t *fa = S->field_array; field_t *keep = (field_t*)malloc(sizeof(field_t)*g->nv), *r = (field_t*)malloc(sizeof(field_t)*g->nv); copyf(keep);
  fa->kernel->clear_rhof(fa); for (int i=0; i<2; i++) accumulate_rho_p(fa,sp[i]); fa->kernel->synchronize_rho(fa); fa->kernel->compute_div_e_err(fa); fa->kernel->compute_div_b_err(fa); copyf(r); memcpy(fa->f,keep,sizeof(field_t)*g->nv); free(keep); return r;
}
/* whole observable state, to run the documented sequence and the driver from the same start */
struct snap { field_t *f; interpolator_t *i; accumulator_t *a; species_t s[2]; particle_t p[2][8]; int64_t step; int log[16], nlog; };
static snap *take(void) { snap *k = (snap*)calloc(1,sizeof(*k)); k->f = (field_t*)malloc(sizeof(field_t)*g->nv); copyf(k->f); k->i = (interpolator_t*)malloc(sizeof(interpolator_t)*g->nv); memcpy(k->i,S->interpolator_array->i,sizeof(interpolator_t)*g->nv);
  k->a = (accumulator_t*)malloc(sizeof(accumulator_t)*g->nv); memcpy(k->a,S->accumulator_array->a,sizeof(accumulator_t)*g->nv); for (int i=0; i<2; i++) { memcpy(k->s+i,sp[i],sizeof(species_t)); memcpy(k->p[i],sp[i]->p,8*sizeof(particle_t)); } k->step = g->step; k->nlog = nlog; memcpy(k->log,log_,sizeof(log_)); return k; }
static void put(const snap *k) { memcpy(S->field_array->f,k->f,sizeof(field_t)*g->nv); memcpy(S->interpolator_array->i,k->i,sizeof(interpolator_t)*g->nv); memcpy(S->accumulator_array->a,k->a,sizeof(accumulator_t)*g->nv); for (int i=0; i<2; i++) { memcpy(sp[i],k->s+i,sizeof(species_t)); memcpy(sp[i]->p,k->p[i],8*sizeof(particle_t)); } g->step = k->step; nlog = 0; }
static void alike(const snap *a, const snap *b, double tol) {
  for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) { int v = V(x,y,z); for (int c=0; c<16; c++) { if ((c==DIVB || (c>=CBX && c<=CBZ)) && (x>n[0] && c!=CBX || y>n[1] && c!=CBY || z>n[2] && c!=CBZ)) continue; if ((c==EX || c==JFX || c==TCAX) && x>n[0]) continue; if ((c==EY || c==JFY || c==TCAY) && y>n[1]) continue; if ((c==EZ || c==JFZ || c==TCAZ) && z>n[2]) continue;
    hs_near_at(FC(a->f+v,c),FC(b->f+v,c),tol,"field",vh_cn[c],x,y,z); }
    if (x<=n[0] && y<=n[1] && z<=n[2]) for (int c=0; c<18; c++) hs_near_at(((float*)(a->i+v))[c],((float*)(b->i+v))[c],tol,"interpolator","coefficient",c,v,0); }
  hs_chk(a->step==b->step,"step counter"); hs_chk(a->nlog==b->nlog,"number of hook calls"); for (int i=0; i<a->nlog && i<16; i++) hs_chk(a->log[i]==b->log[i],"order of hook calls");
  for (int s=0; s<2; s++) { hs_chk(a->s[s].np==b->s[s].np && a->s[s].nm==b->s[s].nm,"particle count"); hs_chk(a->s[s].last_sorted==b->s[s].last_sorted,"step of the last sort"); for (int i=0; i<a->s[s].np && i<8; i++) { hs_chk(a->p[s][i].i==b->p[s][i].i,"cell of the particle"); for (int c=0; c<8; c++) if (c!=3) hs_near_at(((float*)(a->p[s]+i))[c],((float*)(b->p[s]+i))[c],tol,"particle","component",c,s,i); } }
}
static float inj[4]; 
static void on_coll(void) { sp[1]->p[0].w += 1; }
static void on_inject(void) { particle_t *p = sp[1]->p+sp[1]->np++; memset(p,0,sizeof(*p)); p->i = V(n[0],n[1],n[2]); p->dx = 0.25f; p->w = inj[0]; S->accumulator_array->a[V(1,1,1)].jz[0] += inj[0]; }
static void on_current(void) { S->field_array->f[V(1,1,1)].jfy += inj[1]; S->field_array->f[V(1,1,1)].rhob += inj[1]; }
static void on_field(void) { S->field_array->f[V(n[0],1,1)].ez += inj[2]; S->field_array->f[V(1,1,1)].cbx += inj[3]; }
static void on_diag(void) { inj[3] += (float)g->step; }
static void op_coll(void *) { called(6); sp[1]->p[0].w *= 3; }
static void op_emit(void *, const int *, int m) { called(7); hs_chk(m==1,"emitter components"); sp[0]->p[sp[0]->np-1].w += 2; }
static int due(int64_t step, int iv) { return iv>0 && step%iv==0; }
static void sync(void) { field_array_t *fa = S->field_array; fa->kernel->synchronize_tang_e_norm_b(fa); fa->kernel->clear_rhof(fa); fa->kernel->synchronize_rho(fa); }
static void same(const field_t *a, const field_t *b, int lo, int hi, double tol, const char *what) { for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=n[0]; x++) for (int c=lo; c<=hi; c++) hs_near_at(FC(a+V(x,y,z),c),FC(b+V(x,y,z),c),tol,what,vh_cn[c],x,y,z); }
/* one particle moving at most one cell per axis, first face reached after the fraction t of it (see par.cc) */
static void mover(species_t *s, int cx, int cy, int cz, int sgn, int inside) {
  particle_t *p = s->p; s->np = 1; p->i = V(cx,cy,cz); p->w = hs_f32("w",0,2); double u[3], P[3], gam, u2 = 0; static const char *nu[3] = { "ux","uy","uz" }, *nP[3] = { "Px","Py","Pz" }, *nt[3] = { "tx","ty","tz" };
  for (int a=0; a<3; a++) { int m = sgn>>a&1 ? -1 : 1; double t, c = hs_f32(nu[a],0.5,2); P[a] = hs_f32(nP[a],hs_sampled() && inside ? 2 : 1,hs_sampled() ? 2 : 1024); t = hs_f32(nt[a],inside ? (hs_sampled() ? 2 : 1) : 0,hs_sampled() ? (inside ? 2 : 1+a*0.25) : 1024); hs_assume(t<=P[a]); if (inside) hs_assume(t>1); u[a] = c; u2 += c*c; (&p->ux)[a] = m*c; (&p->dx)[a] = m*(1-2*t/P[a]); }
  hs_name(u2); double g2 = 1+u2; hs_name(g2); gam = sqrt(g2); float *rd[3] = { &g->rdx,&g->rdy,&g->rdz };
  for (int a=0; a<3; a++) { true_rd[a] = *rd[a]; *rd[a] = gam/(u[a]*P[a])/(g->cvac*g->dt); } swap_rd = 1;
}
void hs_main(void) {
  int op = hs_cfg(0); for (int i=0; i<3; i++) n[i] = hs_cfg(1+i); W = world_size; vh_threads(1,0); vh_boot(); W = world_size;
  if (op==0) {
    int nmat = hs_cfg(10); build(hs_cfg(4),nmat); S->num_comm_round = hs_cfg(9); fill(nmat); sync(); memset(S->interpolator_array->i,0,sizeof(interpolator_t)*g->nv);
    if (kind[0]==3 || kind[1]==3 || kind[2]==3 || kind[3]==3 || kind[4]==3 || kind[5]==3) { particle_bc_t *pb = (particle_bc_t*)calloc(1,sizeof(*pb)); pb->interact = (particle_bc_func_t)eaten; pb->id = -3; S->particle_bc_list = pb; }
    int sgn = hs_cfg(8); if (sgn>=8) sgn = hs_choose("signs",8);
    if (world_rank==0) mover(sp[0],hs_cfg(5),hs_cfg(6),hs_cfg(7),sgn,0);
    particle_t *r = sp[1]->p; sp[1]->np = 1; memset(r,0,sizeof(*r)); r->dx = hs_f32("x",-1,1); r->dy = hs_f32("y",-1,1); r->dz = hs_f32("z",-1,1); r->w = hs_f32("w",0,2); r->i = V(n[0],1,n[2]);   /* another species, at rest */
    float keep[3] = { g->rdx,g->rdy,g->rdz }; if (swap_rd) { g->rdx = true_rd[0]; g->rdy = true_rd[1]; g->rdz = true_rd[2]; } field_t *a = gauss(); g->rdx = keep[0]; g->rdy = keep[1]; g->rdz = keep[2];
    hs_chk(S->advance()==1,"one step made"); hs_chk(g->step==1,"step counted"); hs_chk(sp[0]->nm==0 && sp[1]->nm==0,"no movers left"); hs_chk(sp[0]->np<=1 && sp[1]->np<=1,"particle count");
    for (int s=0; s<2; s++) for (int i=0; i<sp[s]->np; i++) { int v = sp[s]->p[i].i, c[3] = { v%(n[0]+2),v/(n[0]+2)%(n[1]+2),v/(n[0]+2)/(n[1]+2) }; for (int k=0; k<3; k++) hs_chk(c[k]>=1 && c[k]<=n[k],"particles end in local cells"); }
    if (sp[0]->np==0 && world_rank==0) hs_reach("left the domain or dropped"); else hs_reach("kept");
    field_t *b = gauss();
    for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) {
      if ((kind[0] && x==1) || (kind[1] && y==1) || (kind[2] && z==1) || (kind[3] && x==n[0]+1) || (kind[4] && y==n[1]+1) || (kind[5] && z==n[2]+1)) continue;     /* the error is not defined on walls */
      hs_near_at(b[V(x,y,z)].div_e_err,a[V(x,y,z)].div_e_err,1e-3,"Gauss error unchanged","node",x,y,z); }
    for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=n[0]; x++) hs_near_at(b[V(x,y,z)].div_b_err,a[V(x,y,z)].div_b_err,1e-3,"magnetic divergence unchanged","cell",x,y,z);
    return;
  }
  if (op==1) {
    build(0,1); fill(1); sync(); memset(S->interpolator_array->i,0,sizeof(interpolator_t)*g->nv); memset(S->accumulator_array->a,0,sizeof(accumulator_t)*g->nv); int iv = hs_cfg(6), so = iv/1000, de = iv/100%10, db = iv/10%10, sy = iv%10, emptyop = hs_cfg(7);
    g->step = hs_cfg(4); S->num_step = hs_cfg(5); sp[0]->sort_interval = so; sp[1]->sort_interval = so ? so+1 : 0; S->clean_div_e_interval = de; S->clean_div_b_interval = db; S->sync_shared_interval = sy; S->num_div_e_round = S->num_div_b_round = hs_cfg(8); S->num_comm_round = 2; S->status_interval = 0;
    for (int i=0; i<4; i++) inj[i] = hs_f32("injected",-1,1); float inj0[4]; memcpy(inj0,inj,sizeof(inj)); on[1] = on_coll; on[2] = on_inject; on[3] = on_current; on[4] = on_field; on[5] = on_diag;
    collision_op_t co; memset(&co,0,sizeof(co)); co.apply = op_coll; emitter_t em; memset(&em,0,sizeof(em)); em.emit = op_emit; em.n_component = 1; int comp = 0; em.component = &comp; if (!emptyop) { S->collision_op_list = &co; S->emitter_list = &em; }
    mover(sp[0],n[0],n[1],n[2],hs_cfg(9),1);
    for (int s=0; s<2; s++) for (int i=(s==0); i<3; i++) { particle_t *p = sp[s]->p+i; memset(p,0,sizeof(*p)); p->dx = hs_f32("x",-1,1); p->dy = hs_f32("y",-1,1); p->dz = hs_f32("z",-1,1); p->w = hs_f32("w",0,2); p->i = i==1 ? V(1,1,1) : V(n[0],1,n[2]); sp[s]->np = i+1; }
    float fast[3] = { g->rdx,g->rdy,g->rdz }; snap *a = take();
    /* the documented sequence */
    nlog = 0; int go = !(S->num_step>0 && g->step>=S->num_step); field_array_t *fa = S->field_array; field_advance_kernels_t *K = fa->kernel;
    if (go) {
      for (int s=0; s<2; s++) if (due(g->step,sp[s]->sort_interval)) { sort_p(sp[s]); }
      clear_accumulator_array(S->accumulator_array); if (!emptyop) op_coll(NULL); S->user_particle_collisions();
      for (species_t *q=S->species_list; q; q=q->next) advance_p(q,S->accumulator_array,S->interpolator_array);
      if (!emptyop) op_emit(NULL,&comp,1); S->user_particle_injection(); reduce_accumulator_array(S->accumulator_array);
      for (int s=0; s<2; s++) hs_chk(sp[s]->nm==0,"reference: no boundary is reached");
      K->clear_jf(fa); unload_accumulator_array(fa,S->accumulator_array); K->synchronize_jf(fa); S->user_current_injection();
      K->advance_b(fa,0.5); K->advance_e(fa,1.0); S->user_field_injection(); K->advance_b(fa,0.5);
      if (due(g->step,de)) { K->clear_rhof(fa); for (int s=0; s<2; s++) accumulate_rho_p(fa,sp[s]); K->synchronize_rho(fa); for (int r=0; r<S->num_div_e_round; r++) { K->compute_div_e_err(fa); K->clean_div_e(fa); } }
      if (due(g->step,db)) for (int r=0; r<S->num_div_b_round; r++) { K->compute_div_b_err(fa); K->clean_div_b(fa); }
      if (due(g->step,sy)) K->synchronize_tang_e_norm_b(fa);
      load_interpolator_array(S->interpolator_array,fa); g->step++; S->user_diagnostics();
    }
    snap *want = take(); put(a); memcpy(inj,inj0,sizeof(inj)); g->rdx = fast[0]; g->rdy = fast[1]; g->rdz = fast[2]; swap_rd = 1;
    int r = S->advance(); snap *got = take(); hs_chk((r!=0)==go,"advance tells whether a step was made"); alike(got,want,1e-3);
    if (!go) { snap *u = got; alike(u,a,1e-6); } else { const int o[] = { 6,1,7,2,3,4,5 }; if (!emptyop) { hs_chk(got->nlog==7,"every hook called once"); for (int i=0; i<7; i++) hs_chk(got->log[i]==o[i],"hooks in the documented order"); } }
    return;
  }
  if (op==2) {
    S = new vpic_simulation(); S->verbose = 0; g = S->grid; S->px = hs_cfg(4); S->py = hs_cfg(5); S->pz = hs_cfg(6); size_grid(g,n[0],n[1],n[2]); for (int b=0; b<6; b++) join_grid(g,vh_bnd[b],world_rank); vh_metric(g,1);
    append_material(material("m",1,1,1,1,1,1,0,0,0,0,0,0),&S->material_list); S->field_array = new_standard_field_array(g,S->material_list,0); double e0 = hs_f32("e0",0.5,2), want = 0;
    for (int r=0; r<W; r++) for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=2; x++) { char nm[32]; snprintf(nm,32,"f%d_%d_%d_%d",r,x,y,z); float v[4]; for (int c=0; c<4; c++) v[c] = hs_f32(nm,-1,1); if (r==world_rank) { field_t *f = S->field_array->f+V(x,y,z); f->ey = v[0]; f->ez = v[1]; f->cby = v[2]; f->cbz = v[3]; f->ex = v[0]+1; f->cbx = v[1]-1; } }
    /* the flux through the plane x = half a cell into the leftmost domains, from the values every domain was given */
    double sum = 0; field_t *f = S->field_array->f; if (world_rank%(int)S->px==0) for (int z=2; z<=n[2]; z++) for (int y=2; y<=n[1]; y++) { field_t *a = f+V(1,y,z), *b = f+V(2,y,z); sum += (b->ey*(a->cbz+b->cbz)-b->ez*(a->cby+b->cby))/2; }
    mp_allsum_d(&sum,&want,1); want /= (double)g->cvac*g->cvac*e0*e0*(n[1]-1)*(n[2]-1)*hs_cfg(5)*hs_cfg(6);
    field_t *c = (field_t*)malloc(sizeof(field_t)*g->nv); copyf(c); hs_near(S->poynting_flux(e0),want,1e-4,"Poynting flux"); same(c,f,0,15,1e-6,"fields left alone"); return;
  }
  if (op==3) {
    int nmat = hs_cfg(8); build(hs_cfg(4),nmat); fill(nmat); for (int i=0; i<2; i++) { particle_t *p = sp[i]->p; memset(p,0,sizeof(*p)); p->i = i ? V(n[0],n[1],n[2]) : V(hs_cfg(5),hs_cfg(6),hs_cfg(7)); p->dx = hs_f32("x",-1,1); p->dy = hs_f32("y",-1,1); p->dz = hs_f32("z",-1,1); p->w = hs_f32("w",0,2); sp[i]->np = 1; }
    snap *a = take(); field_array_t *fa = S->field_array; field_advance_kernels_t *K = fa->kernel;
    K->synchronize_tang_e_norm_b(fa); K->compute_div_b_err(fa); K->clean_div_b(fa); K->compute_curl_b(fa); K->clear_rhof(fa); for (int i=0; i<2; i++) accumulate_rho_p(fa,sp[i]); K->synchronize_rho(fa); K->compute_rhob(fa);
    K->synchronize_tang_e_norm_b(fa); load_interpolator_array(S->interpolator_array,fa); for (int i=0; i<2; i++) uncenter_p(sp[i],S->interpolator_array); snap *want = take(); put(a); want->nlog = 2; want->log[0] = 0; want->log[1] = 5;
    S->initialize(0,NULL); snap *got = take(); for (int v=0; v<g->nv; v++) { want->f[v].div_e_err = got->f[v].div_e_err; } alike(got,want,1e-3);
    for (int i=0; i<2; i++) memcpy(sp[i]->p,a->p[i],sizeof(particle_t));
    field_t *b = gauss(); for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) { if ((kind[0] && x==1) || (kind[1] && y==1) || (kind[2] && z==1) || (kind[3] && x==n[0]+1) || (kind[4] && y==n[1]+1) || (kind[5] && z==n[2]+1)) continue; hs_near_at(b[V(x,y,z)].div_e_err,0,1e-3,"no Gauss error after initialization","node",x,y,z); }
    return;
  }
}
