// Momentum of arbitrary particles in arbitrary fields: push, centring, un-centring.
// cfg: op(0 advance 1 center 2 uncenter 3 uncenter(center) 4 center(uncenter)) np lane n_pipeline mode fam nsym
//      5 mover list: fam = pattern of staying, crossing and leaving particles, nsym = max_nm (0: plenty)
// fam: bit 0 E and its gradients arbitrary, bits 1..3 Bx,By,Bz arbitrary, bit 4 gradients of B arbitrary
// particles lane..lane+nsym-1 are arbitrary, each in a cell of its own; the others have fixed values and no field
#include "vh.h"
static const int n[3] = { 5,4,2 };
static int V(int x, int y, int z) { return VOXEL(x,y,z,n[0],n[1],n[2]); }
struct part { double x[3], u[3], E[3], B[3], w; int v; };
static double kick; static int lem;
static void half_kick(part &P, double s, const double *start = NULL) { for (int a=0; a<3; a++) { P.u[a] += s*P.E[a]; if (start) hs_lemma(P.u[a],start[a]); else hs_name(P.u[a]); } }
/* rotation about B by the angle whose half has the tangent of the fifth order series */
static void rotate(part &P, double h0, const double *start = NULL) {
  double *u = P.u, *B = P.B, u2 = u[0]*u[0]+u[1]*u[1]+u[2]*u[2], r[3], w[3]; hs_name(u2); double g1 = 1+u2; hs_name(g1); double B2 = B[0]*B[0]+B[1]*B[1]+B[2]*B[2]; hs_name(B2);
  double t0 = h0/sqrt(g1), t2 = t0*t0*B2; hs_name(t2); double t = t0*(1+t2/3+t2*t2*2/15); hs_name(t); double h = 1+B2*t*t; hs_name(h); double s = 2*t/h; hs_name(s);
  for (int a=0; a<3; a++) { int b = (a+1)%3, c = (a+2)%3; r[a] = u[a]+t*(u[b]*B[c]-u[c]*B[b]); hs_name(r[a]); }
  for (int a=0; a<3; a++) { int b = (a+1)%3, c = (a+2)%3; w[a] = u[a]+s*(r[b]*B[c]-r[c]*B[b]); if (start) hs_lemma(w[a],start[a]); else hs_name(w[a]); }
  if (start) { for (int a=0; a<3; a++) u[a] = w[a]; return; }
  double w2 = w[0]*w[0]+w[1]*w[1]+w[2]*w[2];
  if (lem) { hs_lemma(w2,u2); hs_lemma(1+w2,g1); }
  for (int a=0; a<3; a++) u[a] = w[a];
}
/* particles that stay (kind 0), cross into the next cell (1) or leave through the absorbing +x wall (2) */
static void movers(int np, int pat, int max_nm) {
  grid_t *g = vh_grid(n[0],n[1],n[2],444444,0);
  for (int b=0; b<6; b++) set_pbc(g,vh_bnd[b],absorb_particles);
  g->dt = 0.5f; g->cvac = 2; g->rdx = g->rdy = g->rdz = 1; g->dx = g->dy = g->dz = g->dV = 1; g->r8V = 0.125f;
  int room = max_nm ? max_nm : 8*(np+16);
  species_t *sp = species("s",-1,1,np+8,room,0,0,g); sp->np = np;
  interpolator_array_t *ia = new_interpolator_array(g); memset(ia->i,0,sizeof(interpolator_t)*g->nv);
  int *kind = new int[np], left = 0;
  for (int i=0; i<np+8; i++) {                          /* u=0.75, gamma 1.25: 0.6 of the step, 1.2 in units of the offset */
    particle_t *p = sp->p+i; int k = pat==1 ? 2 : pat==2 ? (i%5==3 ? 2 : 0) : (i*7+i/3+pat)%3;
    p->dy = p->dz = 0; p->ux = 0.75f; p->uy = p->uz = 0; p->w = hs_f32("w",0,2);
    if (i<np) { kind[i] = k; left += k==2; }
    p->i = V(k==0 ? 1+i%4 : k==1 ? 2+i%2 : n[0],1+i%n[1],1+i/4%n[2]); p->dx = k==0 ? hs_f32("x",-1,-0.25) : hs_f32("x",0,0.9375);
  }
  particle_t *old = new particle_t[np+8]; memcpy(old,sp->p,sizeof(particle_t)*(np+8));
  accumulator_array_t *aa = new_accumulator_array(g); clear_accumulator_array(aa);
  advance_p(sp,aa,ia);
  hs_chk(sp->np==np,"particle count unchanged"); hs_chk(sp->nm>=0 && sp->nm<=room,"mover count within the storage");
  if (!max_nm) hs_chk(sp->nm==left,"one mover for every particle that left");
  for (int j=0; j<sp->nm; j++) hs_chk(sp->pm[j].i>=0 && sp->pm[j].i<np && kind[sp->pm[j].i]==2,"movers only for particles that left");
  double *cur = (double*)calloc(g->nv,sizeof(double));
  for (int i=0; i<np+8; i++) {
    particle_t *p = sp->p+i, *o = old+i; int m = -1, cnt = 0, v = p->i;
    for (int j=0; j<sp->nm; j++) if (sp->pm[j].i==i) { m = j; cnt++; }
    hs_near_at(p->w,o->w,0,"weight unchanged","w",i,0,0); hs_near_at(p->ux,o->ux,0,"momentum","x",i,0,0); hs_near_at(p->uy,0,0,"momentum","y",i,0,0); hs_near_at(p->uz,0,0,"momentum","z",i,0,0); hs_near_at(p->dy,0,0,"offset","y",i,0,0); hs_near_at(p->dz,0,0,"offset","z",i,0,0);
    if (i>=np) { hs_near_at(p->dx,o->dx,0,"beyond the list","x",i,0,0); hs_chk(v==o->i,"beyond the list"); continue; }
    hs_chk(cnt<=1,"at most one mover per particle");
    double X = o->dx; int k = kind[i];
    if (k!=2) { hs_chk(cnt==0,"no mover for a particle that did not leave"); hs_chk(v==o->i+(k==1),"cell after the push"); hs_near_at(p->dx,X+1.2-2*(k==1),1e-4,"offset after the push","x",i,0,0); }
    else {
      if (!max_nm) hs_chk(cnt==1,"a mover for the particle that left");
      hs_near_at(p->dx,1,0,"on the wall","x",i,0,0);
      hs_chk(v==(cnt ? 8*o->i+3 : o->i),"cell and face of a particle that left");
      if (cnt) { hs_near_at(sp->pm[m].dispx,0.6-(1-X)*0.5,1e-4,"unspent displacement","x",i,0,0); hs_near_at(sp->pm[m].dispy,0,0,"unspent displacement","y",i,0,0); hs_near_at(sp->pm[m].dispz,0,0,"unspent displacement","z",i,0,0); }
    }
    /* charge through the cells: offset travelled is half a cell per unit */
    if (k==0) cur[o->i] += -o->w*0.6; else { cur[o->i] += -o->w*(1-X)*0.5; if (k==1) cur[o->i+1] += -o->w*(1.2-(1-X))*0.5; }
  }
  reduce_accumulator_array(aa);
  for (int v=0; v<g->nv; v++) {
    const float *a = aa->a[v].jx; double s = (double)a[0]+a[1]+a[2]+a[3]; hs_near_at(s,4*cur[v],1e-3,"charge moved through the cell","jx",v,0,0);
    double t = 0; for (int j=0; j<4; j++) t += fabs(aa->a[v].jy[j])+fabs(aa->a[v].jz[j]); hs_near_at(t,0,0,"no transverse current","",v,0,0);
  }
}
void hs_main(void) {
  int op = hs_cfg(0), np = hs_cfg(1), lane = hs_cfg(2), fam = hs_cfg(5), ns = hs_cfg(6);
  vh_threads(hs_cfg(3),hs_cfg(4)); lem = op>=3 || !(fam&1);
  if (op==5) return movers(np,fam,ns);
  grid_t *g = vh_grid(n[0],n[1],n[2],0,0);
  g->dt = 0.5f; g->cvac = 4; g->rdx = g->rdy = g->rdz = 0;    /* nothing moves */
  float q = hs_f32("q",-2,2), m = 2; kick = (double)q*0.5/(2*2*4);
  species_t *sp = species("s",q,m,np+8,32+8*hs_cfg(3),0,0,g); sp->np = np;
  interpolator_array_t *ia = new_interpolator_array(g); memset(ia->i,0,sizeof(interpolator_t)*g->nv);
  for (int i=0; i<np+8; i++) {
    particle_t *p = sp->p+i; p->dx = 0.25f-(i%3)*0.5f; p->dy = -0.5f+(i%5)*0.25f; p->dz = 0.125f*(i%7)-0.25f;
    p->i = V(n[0],n[1],1+i%n[2]); p->ux = i%4; p->uy = i%3-1; p->uz = 1+i%5; p->w = 1+i%4;
  }
  part *S = new part[ns];
  for (int k=0; k<ns; k++) {
    part &P = S[k]; particle_t *p = sp->p+lane+k; P.v = p->i = V(1+k%3,1+k/3%4,1+k/12);
    p->dx = hs_f32("x",-1,1); p->dy = hs_f32("y",-1,1); p->dz = hs_f32("z",-1,1); p->ux = hs_f32("ux",-2,2); p->uy = hs_f32("uy",-2,2); p->uz = hs_f32("uz",-2,2); p->w = hs_f32("w",0,2);
    P.x[0] = p->dx; P.x[1] = p->dy; P.x[2] = p->dz; P.u[0] = p->ux; P.u[1] = p->uy; P.u[2] = p->uz; P.w = p->w;
    interpolator_t *f = ia->i+P.v; float *fe[3] = { &f->ex,&f->ey,&f->ez }, *fb[3] = { &f->cbx,&f->cby,&f->cbz };
    for (int a=0; a<3; a++) {
      if (fam&1) for (int j=0; j<4; j++) fe[a][j] = hs_f32("e",-2,2);
      if (fam>>(1+a)&1) { fb[a][0] = hs_f32("b",-2,2); if (fam&16) fb[a][1] = hs_f32("db",-2,2); }
      int b = (a+1)%3, c = (a+2)%3;
      P.E[a] = kick*(fe[a][0]+P.x[b]*fe[a][1]+P.x[c]*(fe[a][2]+P.x[b]*fe[a][3])); P.B[a] = fb[a][0]+P.x[a]*fb[a][1]; hs_name(P.E[a]); hs_name(P.B[a]);
    }
  }
  particle_t *old = new particle_t[np+8]; memcpy(old,sp->p,sizeof(particle_t)*(np+8));
  accumulator_array_t *aa = NULL;
  if (op==0) { aa = new_accumulator_array(g); clear_accumulator_array(aa); }
  for (int k=0; k<ns; k++) {                            /* oracle */
    part &P = S[k];
    double s0[3], s1[3];
    if (op==0) { half_kick(P,1); rotate(P,kick); half_kick(P,1); }
    if (op==1 || op==3) { half_kick(P,1); for (int a=0; a<3; a++) s0[a] = P.u[a]; rotate(P,kick/2); }
    if (op==3) { rotate(P,-kick/2,s0); half_kick(P,-1); }
    if (op==2 || op==4) { for (int a=0; a<3; a++) s0[a] = P.u[a]; rotate(P,-kick/2); for (int a=0; a<3; a++) s1[a] = P.u[a]; half_kick(P,-1); }
    if (op==4) { half_kick(P,1,s1); rotate(P,kick/2,s0); }
  }
  switch (op) {
  case 0: advance_p(sp,aa,ia); hs_chk(sp->nm==0,"nothing leaves its cell"); break;
  case 1: center_p(sp,ia); break;
  case 2: uncenter_p(sp,ia); break;
  case 3: center_p(sp,ia); uncenter_p(sp,ia); break;
  case 4: uncenter_p(sp,ia); center_p(sp,ia); break;
  }
  hs_chk(sp->np==np,"particle count unchanged");
  for (int i=0; i<np+8; i++) {
    particle_t *p = sp->p+i, *o = old+i; int k = i-lane;
    hs_chk(p->i==o->i,"cell unchanged");
    hs_near_at(p->dx,o->dx,0,"position unchanged","x",i,0,0); hs_near_at(p->dy,o->dy,0,"position unchanged","y",i,0,0); hs_near_at(p->dz,o->dz,0,"position unchanged","z",i,0,0); hs_near_at(p->w,o->w,0,"weight unchanged","w",i,0,0);
    if (k<0 || k>=ns) { hs_near_at(p->ux,o->ux,0,"momentum without field","x",i,0,0); hs_near_at(p->uy,o->uy,0,"momentum without field","y",i,0,0); hs_near_at(p->uz,o->uz,0,"momentum without field","z",i,0,0); continue; }
    part &P = S[k]; const float *u = &p->ux, *u0 = &o->ux;
    for (int a=0; a<3; a++) hs_near_at(u[a],P.u[a],1e-4,"momentum",a==0?"x":a==1?"y":"z",i,0,0);
    if (op>=3) for (int a=0; a<3; a++) hs_near_at(u[a],u0[a],1e-4,"back to the start",a==0?"x":a==1?"y":"z",i,0,0);
    if (op<3 && !(fam&1)) hs_near_at((double)u[0]*u[0]+(double)u[1]*u[1]+(double)u[2]*u[2],(double)u0[0]*u0[0]+(double)u0[1]*u0[1]+(double)u0[2]*u0[2],1e-4,"kinetic energy without electric field","u2",i,0,0);
    if (op==0 && !(fam&14)) for (int a=0; a<3; a++) { int b = (a+1)%3, c = (a+2)%3; const interpolator_t *f = ia->i+P.v; const float *e = a==0 ? &f->ex : a==1 ? &f->ey : &f->ez;
      hs_near_at(u[a]-(double)u0[a],(double)q*0.5/(2*4)*(e[0]+P.x[b]*e[1]+P.x[c]*e[2]+P.x[b]*P.x[c]*e[3]),1e-4,"gain without magnetic field",a==0?"x":a==1?"y":"z",i,0,0); }
  }
}
