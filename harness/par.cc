// One tracked particle (all values arbitrary) among np particles: charge conservation and trajectory of the push.
// cfg: op(0 advance_p,1 move_p) check(1 charge,2 trajectory,4 momentum) nx ny nz codes cx cy cz np lane n_pipeline mode signs zero fam
// fam (op 0): bit 0 E and its gradients arbitrary, bits 1..3 Bx,By,Bz arbitrary, bit 4 gradients of B arbitrary
// codes: faces -x,-y,-z,+x,+y,+z: 0 periodic (own domain) 1 reflecting 2 absorbing 3 handler 4 other domain
#include "vh.h"
static int kind[6];
static int n[3];
static int V(int x, int y, int z) { return VOXEL(x,y,z,n[0],n[1],n[2]); }
static int64_t REMOTE = 0;
struct pt { int v; double r[3], w; };
static void cell_of(int v, int *c) { c[0] = v%(n[0]+2); c[1] = v/(n[0]+2)%(n[1]+2); c[2] = v/(n[0]+2)/(n[1]+2); }
/* charge at the nodes of a cell, trilinear */
static void deposit(double *rho, const pt &P, double q) {
  int c[3]; cell_of(P.v,c);
  for (int k=0; k<8; k++) {
    double w = q*P.w*0.125; int x = c[0]+(k&1), y = c[1]+(k>>1&1), z = c[2]+(k>>2);
    w *= k&1 ? 1+P.r[0] : 1-P.r[0]; w *= k&2 ? 1+P.r[1] : 1-P.r[1]; w *= k&4 ? 1+P.r[2] : 1-P.r[2];
    rho[V(x,y,z)] += w;
  }
}
void hs_main(void) {
  int op = hs_cfg(0), what = hs_cfg(1); n[0] = hs_cfg(2); n[1] = hs_cfg(3); n[2] = hs_cfg(4);
  int codes = hs_cfg(5), np = hs_cfg(9), lane = hs_cfg(10), sgn = hs_cfg(13), zero = hs_cfg(14);
  vh_threads(hs_cfg(11), hs_cfg(12));
  vh_boot();
  grid_t *g = new_grid(); size_grid(g,n[0],n[1],n[2]);
  for (int b=5; b>=0; b--) { kind[b] = codes%10; codes /= 10; }
  float rd[3] = { 1,1,1 };
  g->dt = 0.5f; g->cvac = 2; g->eps0 = 1; g->rdx = rd[0]; g->rdy = rd[1]; g->rdz = rd[2]; g->dx = 1/rd[0]; g->dy = 1/rd[1]; g->dz = 1/rd[2];
  g->dV = g->dx*g->dy*g->dz; g->r8V = 0.125f*rd[0]*rd[1]*rd[2];
  for (int b=0; b<6; b++) {
    if (kind[b]==0) { join_grid(g,vh_bnd[b],world_rank); continue; }
    set_fbc(g,vh_bnd[b],absorb_fields);
    set_pbc(g,vh_bnd[b], kind[b]==1 ? reflect_particles : kind[b]==2 ? absorb_particles : -5);
    if (kind[b]==4) for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=n[0]; x++) {   /* cells of another domain */
      int64_t &q = g->neighbor[6*(int64_t)V(x,y,z)+b]; if (q==-5) q = g->rangeh+1+V(x,y,z);
    }
  }
  int nv = g->nv;
  float q = hs_f32("q",-2,2);
  species_t *sp = species("s", q, 0.5f, np+8, 32+8*hs_cfg(11), 0, 0, g);
  sp->np = np;
  int c0[3] = { hs_cfg(6),hs_cfg(7),hs_cfg(8) }, u[3];
  if (sgn>=8) sgn = hs_choose("signs",8);
  for (int i=0; i<np; i++) {                        /* bystanders at rest */
    particle_t *p = sp->p+i; p->dx = 0.25f-(i%3)*0.5f; p->dy = -0.5f+(i%5)*0.25f; p->dz = 0.125f*(i%7)-0.25f; int x = 1+i%n[0], y = 1+i/2%n[1], z = 1+i/3%n[2]; if (x==c0[0] && y==c0[1] && z==c0[2]) x = c0[0]>1 ? c0[0]-1 : c0[0]+1; p->i = V(x,y,z);  /* never in the cell of the tracked one (whose fields are arbitrary) */ p->ux = p->uy = p->uz = 0; p->w = 1+i%4;
  }
  particle_t *p = sp->p+lane; particle_mover_t pm[1];
  p->i = V(c0[0],c0[1],c0[2]); p->w = hs_f32("w",0,2);
  double d[3], tt[3], uw[3];                        /* displacement in cells, time of the first crossing, momentum after the push */
  for (int a=0; a<3; a++) u[a] = sgn>>a&1 ? -1 : 1;
  interpolator_array_t *ia = new_interpolator_array(g);
  memset(ia->i,0,sizeof(interpolator_t)*nv);
  /* displacement 1/P cells per axis, first face reached after the fraction t of it (equivalent to x and displacement arbitrary) */
  { static const char *nu[3] = { "ux","uy","uz" }; for (int a=0; a<3; a++) (&p->ux)[a] = hs_f32(nu[a],hs_sampled() && u[a]>0 ? 2 : -4,hs_sampled() && u[a]<0 ? -2 : 4); }
  float f[3], *xx[3] = { &p->dx,&p->dy,&p->dz }; double PP[3]; static const char *nP[3] = { "Px","Py","Pz" }, *nt[3] = { "tx","ty","tz" }, *nx[3] = { "x","y","z" };
  for (int a=0; a<3; a++) {
    if (zero>>a&1) { f[a] = 0; d[a] = 0; tt[a] = 2; *xx[a] = hs_f32(nx[a],-0.9990234375,0.9990234375); PP[a] = 1; continue; }
    double P = hs_f32(nP[a],1,hs_sampled()?2:1024), t = hs_f32(nt[a],0,hs_sampled()?1+a*0.25:1024);  hs_assume(t<=P);
    PP[a] = P; tt[a] = t; f[a] = u[a]/P; d[a] = u[a]/P; *xx[a] = u[a]*(1-2*t/P);
  }
  for (int a=0; a<3; a++) uw[a] = (&p->ux)[a];
  if (op==0) {
    int fam = hs_cfg(15); double kick = (double)q*0.5/(2*0.5*2), E[3] = { 0,0,0 }, B[3] = { 0,0,0 }, x[3] = { p->dx,p->dy,p->dz };
    interpolator_t *fi = ia->i+p->i; float *fe[3] = { &fi->ex,&fi->ey,&fi->ez }, *fb[3] = { &fi->cbx,&fi->cby,&fi->cbz };
    for (int a=0; a<3; a++) {
      int b = (a+1)%3, c = (a+2)%3;
      if (fam&1) for (int k=0; k<4; k++) fe[a][k] = hs_f32("e",-1,1);
      if (fam>>(1+a)&1) { fb[a][0] = hs_f32("b",-2,2); if (fam&16) fb[a][1] = hs_f32("db",-1,1); }
      E[a] = kick*(fe[a][0]+x[b]*fe[a][1]+x[c]*(fe[a][2]+x[b]*fe[a][3])); B[a] = fb[a][0]+x[a]*fb[a][1]; hs_name(E[a]); hs_name(B[a]);
    }
    for (int a=0; a<3; a++) { uw[a] += E[a]; hs_name(uw[a]); }
    double u2 = uw[0]*uw[0]+uw[1]*uw[1]+uw[2]*uw[2]; hs_name(u2); double g1 = 1+u2; hs_name(g1);
    double B2 = B[0]*B[0]+B[1]*B[1]+B[2]*B[2], t0 = kick/sqrt(g1); hs_name(B2);
    double t2 = t0*t0*B2, t = t0*(1+t2/3+t2*t2*2/15), r[3], uu[3]; hs_name(t2); hs_name(t); double h = 1+B2*t*t; hs_name(h); double s = 2*t/h; hs_name(s);
    for (int a=0; a<3; a++) { int b = (a+1)%3, c = (a+2)%3; r[a] = uw[a]+t*(uw[b]*B[c]-uw[c]*B[b]); hs_name(r[a]); }
    for (int a=0; a<3; a++) { int b = (a+1)%3, c = (a+2)%3; uu[a] = uw[a]+s*(r[b]*B[c]-r[c]*B[b]); hs_name(uu[a]); }
    for (int a=0; a<3; a++) { uw[a] = uu[a]+E[a]; hs_name(uw[a]); }
    double v2 = uw[0]*uw[0]+uw[1]*uw[1]+uw[2]*uw[2]; hs_name(v2); double g2 = 1+v2; hs_name(g2); double gam = sqrt(g2);
    /* cell sizes for which the particle moves 1/P cells */
    for (int a=0; a<3; a++) {
      if (zero>>a&1) { rd[a] = 0; continue; }
      hs_assume(u[a]*uw[a]>=0.0009765625); rd[a] = u[a]*gam/(uw[a]*PP[a]);
    }
    g->rdx = rd[0]; g->rdy = rd[1]; g->rdz = rd[2];
  } else { pm->dispx = f[0]; pm->dispy = f[1]; pm->dispz = f[2]; pm->i = lane; }
  for (int a=0; a<3; a++) if (tt[a]<1) hs_reach("crosses");
  pt A; A.v = p->i; A.r[0] = p->dx; A.r[1] = p->dy; A.r[2] = p->dz; A.w = p->w;
  double u0[3] = { uw[0],uw[1],uw[2] }, w0 = p->w;
  particle_t *old = (particle_t*)malloc(sizeof(particle_t)*np); memcpy(old,sp->p,sizeof(particle_t)*np);
  accumulator_array_t *aa = new_accumulator_array(g);
  clear_accumulator_array(aa);
  int r;
  if (op==0) { advance_p(sp,aa,ia); g->rdx = g->rdy = g->rdz = 1; r = sp->nm; if (r) pm[0] = sp->pm[0]; hs_chk(r==0 || r==1, "at most one mover"); }
  else { r = move_p(sp->p,pm,aa->a,g,q); hs_chk(r==0 || r==1, "mover status"); }
  hs_chk(sp->np==np, "particle count unchanged");
  for (int i=0; i<np; i++) if (i!=lane) {
    const particle_t *x = sp->p+i, *o = old+i;
    hs_chk(x->i==o->i, "other particles stay in their cell");
    hs_near(x->dx,o->dx,0,"other particle x"); hs_near(x->dy,o->dy,0,"other particle y"); hs_near(x->dz,o->dz,0,"other particle z");
    hs_near(x->ux,o->ux,0,"other particle ux"); hs_near(x->w,o->w,0,"other particle w");
  }
  int face = -1; pt B; B.v = p->i;
  if (r) { face = B.v&7; B.v >>= 3; hs_reach("stopped at a face"); } else hs_reach("finished");
  B.r[0] = p->dx; B.r[1] = p->dy; B.r[2] = p->dz; B.w = w0;
  int c[3]; cell_of(B.v,c);
  int inside = B.v>=0 && B.v<nv; for (int a=0; a<3; a++) inside = inside && c[a]>=1 && c[a]<=n[a];
  hs_chk(inside, "ends in a local cell"); if (!inside) return;
  if (what&2) {
    hs_near(p->w,w0,0,"weight unchanged");
    for (int a=0; a<3; a++) hs_chk(B.r[a]>=-1 && B.r[a]<=1, "position within the cell");
    double X[3], rem[3] = { 0,0,0 }; int fl[3] = { 0,0,0 };
    if (r) { rem[0] = pm->dispx; rem[1] = pm->dispy; rem[2] = pm->dispz; hs_chk(pm->i==lane, "mover names the particle"); }
    const float *uu[3] = { &p->ux,&p->uy,&p->uz };
    for (int a=0; a<3; a++) {
      /* unfolded coordinate: wall planes at 1 and 2n+1 (half cells), low corner of cell c at 2c-1 */
      double S = 2*c0[a]+A.r[a], T = S+2*d[a], E = 2*c[a]+B.r[a], lo = 1, hi = 2*n[a]+1, want = T-0.0;
      /* reflections met so far, decided by the momentum sign (bounces flip it) */
      int hitlo = kind[a]==1, hithi = kind[a+3]==1, per = kind[a]==0;
      double Z = E+2*rem[a];                       /* where the unspent displacement would take it */
      if (!r) {
        if (hithi && T>hi) { want = 2*hi-T; fl[a] = 1; } else if (hitlo && T<lo) { want = 2*lo-T; fl[a] = 1; }
        else if (per && T>hi) want = T-2*n[a]; else if (per && T<lo) want = T+2*n[a];
        hs_near_at(E,want,2e-5,"final position",a==0?"x":a==1?"y":"z",0,0,0);
        hs_near_at(*uu[a], fl[a] ? -u0[a] : u0[a], 1e-6, "final momentum",a==0?"x":a==1?"y":"z",0,0,0);
      } else {
        /* a bounce shows as a flipped remaining displacement */
        int flip = u[a]>0 ? (rem[a]<0) : (rem[a]>0);
        int stopped_here = face%3==a;
        if (zero>>a&1) { hs_near(rem[a],0,0,"no displacement appears"); flip = 0; }
        if (flip) { hs_chk(u[a]>0 ? hithi : hitlo, "bounce only at a reflecting wall"); want = u[a]>0 ? 2*hi-T : 2*lo-T; }
        else if (per) { double dz = Z-T; hs_chk(dz>-2*n[a]-0.001 && dz<2*n[a]+0.001, "periodic image"); want = dz>n[a] ? T+2*n[a] : dz<-n[a] ? T-2*n[a] : T; }
        hs_near_at(Z,want,2e-5,"position plus unspent displacement",a==0?"x":a==1?"y":"z",0,0,0);
        if (rem[a]!=0) hs_near_at(*uu[a], flip ? -u0[a] : u0[a], 1e-6, "momentum at the face",a==0?"x":a==1?"y":"z",0,0,0);
        if (stopped_here) {
          hs_chk(B.r[a]==(face<3 ? -1 : 1), "on the face"); hs_chk(face<3 ? rem[a]<=0 : rem[a]>=0, "unspent displacement points outwards");
          int64_t nb = g->neighbor[6*(int64_t)B.v+face]; hs_chk(nb!=reflect_particles && (nb<g->rangel || nb>g->rangeh), "stopped only at a face it cannot cross");
        }
        /* straight line: every axis has spent the same fraction */
        int b = (a+1)%3; double sa = flip ? -1 : 1, fb = (u[b]>0 ? rem[b]<0 : rem[b]>0) ? -1 : 1;
        if (!(zero>>a&1) && !(zero>>b&1)) hs_near_at(sa*rem[a]*d[b], fb*rem[b]*d[a], 2e-5, "same fraction of the displacement spent",a==0?"x":a==1?"y":"z",0,0,0);
      }
    }
    if (r) hs_chk(face>=0 && face<6, "face index");
  }
  if (what&4) for (int a=0; a<3; a++) { double v = (&p->ux)[a]; hs_near_at((u0[a]-v)*(u0[a]+v),0,1e-4,"momentum after the push",a==0?"x":a==1?"y":"z",0,0,0); }
  if (what&1) {
    field_array_t *fa = vh_fields(g,1,0);
    memset(fa->f,0,sizeof(field_t)*nv);
    reduce_accumulator_array(aa); unload_accumulator_array(fa,aa);
    double *rho = (double*)calloc(nv,sizeof(double)), *fold = (double*)calloc(nv,sizeof(double)); double tot = 0;
    deposit(rho,B,q); A.w = -A.w; deposit(rho,A,q);  /* change of nodal charge */
    for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) {
      double k = rho[V(x,y,z)];                      /* + dt * outgoing charge */
      double ax = (double)g->dt*g->dy*g->dz, ay = (double)g->dt*g->dz*g->dx, az = (double)g->dt*g->dx*g->dy;
      if (x<=n[0]) k += ax*fa->f[V(x,y,z)].jfx;  if (x>1) k -= ax*fa->f[V(x-1,y,z)].jfx;
      if (y<=n[1]) k += ay*fa->f[V(x,y,z)].jfy;  if (y>1) k -= ay*fa->f[V(x,y-1,z)].jfy;
      if (z<=n[2]) k += az*fa->f[V(x,y,z)].jfz;  if (z>1) k -= az*fa->f[V(x,y,z-1)].jfz;
      int X = kind[0]==0 && x>n[0] ? 1 : x, Y = kind[1]==0 && y>n[1] ? 1 : y, Z = kind[2]==0 && z>n[2] ? 1 : z;
      fold[V(X,Y,Z)] += k; tot += k;
    }
    for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++)
      hs_near_at(fold[V(x,y,z)],0,1e-4,"charge change plus outgoing current","node",x,y,z);
  }
}
