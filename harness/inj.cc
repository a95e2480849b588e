// Injection of a particle at an arbitrary global point of a decomposed box.
// cfg: op px py pz nx ny nz wrap ...   (nx ny nz: cells per domain; wrap: 0 periodic 1 absorbing 2 metal box)
// op 0: ownership and cell (exact IEEE, walls at awkward numbers)   op 1: cell, offset, momentum, weight, charge (cells cx cy cz of the box; walls: bit a: axis a on the low wall, bit 3+a: on the far wall of the cell) rhob
// op 2: ageing (cells, direction signs, room for movers)  op 3: refusals  op 4: raw injection
#include "vh.h"
#include <vector>
#include <cmath>
#include "vpic/vpic.h"
struct sim : public vpic_simulation {
  void set(grid_t *g, field_array_t *fa, interpolator_array_t *ia, accumulator_array_t *aa, species_t *sl) { grid = g; field_array = fa; interpolator_array = ia; accumulator_array = aa; species_list = sl; }
  void inject(species_t *sp, double x, double y, double z, double ux, double uy, double uz, double w, double age, int rb) { inject_particle(sp,x,y,z,ux,uy,uz,w,age,rb); }
  void raw(species_t *sp, particle_t p) { inject_particle_raw(sp,p.dx,p.dy,p.dz,p.i,p.ux,p.uy,p.uz,p.w); }
  void rawm(species_t *sp, particle_t p, float *d, int rb) { inject_particle_raw(sp,p.dx,p.dy,p.dz,p.i,p.ux,p.uy,p.uz,p.w,d[0],d[1],d[2],rb); }
};
static int D[3], n[3], pos[3]; static grid_t *g; static sim *S; static field_array_t *fa, *fb; static accumulator_array_t *aa, *ab; static species_t *sp, *sq; static float q;
static void box(const double *lo, const double *hi, int wrap) {
  g = new_grid(); g->dt = 0.5f; g->cvac = 2; g->eps0 = 1;
  int G[3]; for (int a=0; a<3; a++) G[a] = D[a]*n[a];
  if (wrap==0) partition_periodic_box(g,lo[0],lo[1],lo[2],hi[0],hi[1],hi[2],G[0],G[1],G[2],D[0],D[1],D[2]);
  else if (wrap==1) partition_absorbing_box(g,lo[0],lo[1],lo[2],hi[0],hi[1],hi[2],G[0],G[1],G[2],D[0],D[1],D[2],absorb_particles);
  else partition_metal_box(g,lo[0],lo[1],lo[2],hi[0],hi[1],hi[2],G[0],G[1],G[2],D[0],D[1],D[2]);
  int me = hs_rank(); pos[0] = me%D[0]; pos[1] = me/D[0]%D[1]; pos[2] = me/D[0]/D[1];
}
static void arrays(int np, int nm) {
  q = hs_f32("q",-2,2); species_t *sl = NULL, *l2 = NULL;
  sp = append_species(species("s",q,1,np,nm,0,0,g),&sl); sq = append_species(species("s",q,1,np,nm,0,0,g),&l2);
  fa = vh_fields(g,1,0); fb = vh_fields(g,1,0); memset(fa->f,0,sizeof(field_t)*g->nv); for (int v=0; v<g->nv; v++) for (int c=0; c<16; c++) if (c==RHOB) fa->f[v].rhob = hs_f32("rhob",-1,1);
  memcpy(fb->f,fa->f,sizeof(field_t)*g->nv); aa = new_accumulator_array(g); ab = new_accumulator_array(g); clear_accumulator_array(aa); clear_accumulator_array(ab);
  S = (sim*)calloc(1,sizeof(sim)); S->set(g,fa,new_interpolator_array(g),aa,sl);
}
static void same(const particle_t *a, const particle_t *b, const char *what) {
  hs_chk(a->i==b->i,what); hs_near_at(a->dx,b->dx,1e-6,what,"dx",0,0,0); hs_near_at(a->dy,b->dy,1e-6,what,"dy",0,0,0); hs_near_at(a->dz,b->dz,1e-6,what,"dz",0,0,0);
  hs_near_at(a->ux,b->ux,1e-6,what,"ux",0,0,0); hs_near_at(a->uy,b->uy,1e-6,what,"uy",0,0,0); hs_near_at(a->uz,b->uz,1e-6,what,"uz",0,0,0); hs_near_at(a->w,b->w,0,what,"w",0,0,0);
}
static void fields(void) { for (int v=0; v<g->nv; v++) for (int c=0; c<16; c++) hs_near_at(FC(fa->f+v,c),FC(fb->f+v,c),c==RHOB ? 1e-5 : 0,"fields after the injection",vh_cn[c],v,0,0); }
static void accs(void) { for (int v=0; v<g->nv; v++) { float *x = aa->a[v].jx, *y = ab->a[v].jx; for (int k=0; k<12; k++) hs_near_at(x[k],y[k],1e-5,"current of the ageing","j",v,k,0); } }
void hs_main(void) {
  int op = hs_cfg(0); for (int a=0; a<3; a++) { D[a] = hs_cfg(1+a); n[a] = hs_cfg(4+a); } int wrap = hs_cfg(7);
  vh_threads(1,0); vh_boot();
  if (op==0) {
    /* whatever the coordinates: the number of domains that take the particle */
    int ax = hs_cfg(8), kind = hs_cfg(9); double lo[3] = { -1,-1,-1 }, hi[3] = { 1,1,1 };
    static const double los[4] = { 0.1, -0.3, -7.7, 1000.1 }, his[4] = { 1.3, 0.4, 11.1, 1003.7 }; lo[ax] = los[kind&3]; hi[ax] = his[kind&3];
    box(lo,hi,wrap); arrays(64,4);
    double X[3], u = 0.5; static const char *nx[3] = { "X","Y","Z" };
    for (int a=0; a<3; a++) X[a] = a==ax ? hs_f64(nx[a],lo[a]-1,hi[a]+1) : lo[a]+(hi[a]-lo[a])*0.40625;
    float wl = ax==0 ? g->x0 : ax==1 ? g->y0 : g->z0, wh = ax==0 ? g->x1 : ax==1 ? g->y1 : g->z1; double L = (float)lo[ax], H = (float)hi[ax];
    int per = wrap==0 || D[ax]*n[ax]==1, in = X[ax]>=L && (per ? X[ax]<H : X[ax]<=H);
    S->inject(sp,X[0],X[1],X[2],u,u,u,1,0,0);
    double c = sp->np, tot = 0; mp_allsum_d(&c,&tot,1);
    hs_chk(tot==(in ? 1 : 0),"accepted by exactly one domain");
    if (sp->np) {
      particle_t *p = sp->p; int v = p->i, i[3] = { v%(n[0]+2),v/(n[0]+2)%(n[1]+2),v/(n[0]+2)/(n[1]+2) }; float r[3] = { p->dx,p->dy,p->dz };
      for (int a=0; a<3; a++) { hs_chk(i[a]>=1 && i[a]<=n[a],"in a cell of this domain"); hs_chk(r[a]>=-1 && r[a]<=1,"offset within the cell"); }
      hs_chk(X[ax]>=wl && X[ax]<=wh,"between the walls of this domain");
      if (kind>=4) { double h = ((double)wh-wl)/n[ax], a0 = wl+(i[ax]-1)*h; hs_chk(X[ax]>=a0-h*1e-6 && X[ax]<=a0+h*1.000001,"the cell contains the point"); }
    }
    fields(); return;
  }
  if (op<=2) {
    int c[3] = { hs_cfg(8),hs_cfg(9),hs_cfg(10) }, walls = hs_cfg(11), rb = hs_cfg(12), sg = hs_cfg(13), room = hs_cfg(14), pre = hs_cfg(15);
    double lo[3] = { -0.5,1,-4 }, hi[3], h[3] = { 0.5,0.25,2 }, X[3], t[3]; static const char *nt[3] = { "tx","ty","tz" };
    for (int a=0; a<3; a++) hi[a] = lo[a]+h[a]*D[a]*n[a];
    box(lo,hi,wrap); arrays(64,room==0 ? pre+4 : pre); sq->max_nm = 64; sq->pm = (particle_mover_t*)malloc(64*sizeof(particle_mover_t));
    /* point t of the way through cell c of the box (cells counted from 0; D*n and -1 lie outside) */
    double P[3] = { 1,1,1 };
    for (int a=0; a<3; a++) if (op==2) {                              /* displacement 1/P cells, first face reached after the fraction t of it */
      double s = sg>>a&1 ? -1 : 1, tc = hs_f32("t",0,hs_sampled() ? 1+a*0.25 : 1024); P[a] = hs_f32("P",1,hs_sampled() ? 2 : 1024); hs_assume(tc<=P[a]-0.0009765625); hs_assume(tc>=0.0009765625); t[a] = 0.5*(1+s*(1-2*tc/P[a])); X[a] = lo[a]+h[a]*(c[a]+t[a]);
    } else { t[a] = walls>>a&1 ? 0 : walls>>(3+a)&1 ? 1 : hs_f64(nt[a],0.0009765625,0.9990234375); X[a] = lo[a]+h[a]*(c[a]+t[a]); }
    double u[3] = { hs_f32("ux",-2,2),hs_f32("uy",-2,2),hs_f32("uz",-2,2) }; double w = hs_f32("w",0,2), age = 0;
    for (int i=0; i<3; i++) { sp->p[i].i = -7; sp->p[i].w = i; } sp->np = 3; sp->nm = pre;
    /* which cell of which domain takes it */
    int own = 1, v[3]; double r[3];
    for (int a=0; a<3; a++) {
      int G = D[a]*n[a], k = c[a]; r[a] = 2*t[a]-1; int per = wrap==0 || G==1;
      if (r[a]==1 && (k<G-1 || per)) { k++; r[a] = -1; }            /* a shared wall belongs to the cell above it */
      if (r[a]==-1 && k==G && !per) { k--; r[a] = 1; }
      if (k<0 || k>=G) own = 0; else { own = own && k/n[a]==pos[a]; v[a] = 1+k%n[a]; }
    }
    particle_t e; memset(&e,0,sizeof(e)); particle_mover_t pm[1]; int em = 0;
    float rd[3] = { g->rdx,g->rdy,g->rdz };
    if (op==2) {
      age = hs_f64("age",0.125,2); double g2 = u[0]*u[0]+u[1]*u[1]+u[2]*u[2]+1, d[3]; hs_name(g2); double gam = sqrt(g2);
      for (int a=0; a<3; a++) { int s = sg>>a&1 ? -1 : 1; d[a] = s/P[a]; hs_assume(s*u[a]>=0.0009765625); rd[a] = d[a]*gam/(u[a]*age*g->cvac*g->dt); }
      g->rdx = rd[0]; g->rdy = rd[1]; g->rdz = rd[2]; pm->dispx = d[0]; pm->dispy = d[1]; pm->dispz = d[2]; pm->i = 3;
    }
    S->inject(sp,X[0],X[1],X[2],u[0],u[1],u[2],w,age,rb);
    hs_chk(sp->np==3+own,"taken by the domain that contains the point only");
    for (int i=0; i<3; i++) hs_chk(sp->p[i].i==-7 && sp->p[i].w==i,"other particles untouched");
    if (own) {
      e.i = VOXEL(v[0],v[1],v[2],n[0],n[1],n[2]); e.dx = r[0]; e.dy = r[1]; e.dz = r[2]; e.ux = u[0]; e.uy = u[1]; e.uz = u[2]; e.w = w;
      if (rb) accumulate_rhob(fb->f,&e,g,-q);
      sq->p[3] = e; if (op==2 && room==0) em = move_p(sq->p,pm,ab->a,g,q);
      same(sp->p+3,sq->p+3,op==2 ? "particle after ageing" : "injected particle");
    }
    hs_chk(sp->nm==pre+em,"movers"); if (em) { particle_mover_t *m = sp->pm+pre; hs_chk(m->i==3,"mover names the particle"); hs_near(m->dispx,pm->dispx,1e-6,"unspent displacement"); hs_near(m->dispy,pm->dispy,1e-6,"unspent displacement"); hs_near(m->dispz,pm->dispz,1e-6,"unspent displacement"); hs_reach("stopped at a face"); }
    fields(); accs(); return;
  }
  if (op==3) {
    int what = hs_cfg(8); double lo[3] = { 0,0,0 }, hi[3] = { 1,1,1 }; box(lo,hi,wrap); arrays(4,4);
    double w = hs_f32("w",0,2), ux = hs_f32("ux",-1,1); int full = 0; double x = 0.3;
    if (what==0) { S->set(g,fa,NULL,NULL,sp); full = 1; } else if (what==1) full = 1; else if (what==2) { w = hs_f64("neg",-2,-0.0009765625); full = 1; } else if (what==3) { sp->np = sp->max_np; full = 1; } else if (what==4) { sp->np = sp->max_np; x = 1.5; } else sp->np = sp->max_np-1;
    int np = sp->np; if (full) hs_expect_exit(1);
    S->inject(what==1 ? NULL : sp,x,0.4,0.6,ux,0,0,w,0,1);
    if (full) { hs_chk(0,"refused"); return; }
    hs_chk(sp->np==np+(what==5),"room for one more"); return;
  }
  int movers = hs_cfg(8), rb = hs_cfg(9), c[3] = { hs_cfg(10),hs_cfg(11),hs_cfg(12) }, sg = hs_cfg(13); double lo[3] = { 0,0,0 }, hi[3]; for (int a=0; a<3; a++) hi[a] = D[a]*n[a];
  box(lo,hi,wrap); arrays(8,8); sp->np = 2; sp->nm = 1; particle_t e; e.dx = hs_f32("x",-1,1); e.dy = hs_f32("y",-1,1); e.dz = hs_f32("z",-1,1); e.i = VOXEL(c[0],c[1],c[2],n[0],n[1],n[2]); e.ux = hs_f32("ux",-2,2); e.uy = hs_f32("uy",-2,2); e.uz = hs_f32("uz",-2,2); e.w = hs_f32("w",0,2);
  particle_mover_t pm[1]; float d[3]; pm->i = 2;
  for (int a=0; a<3; a++) { double s = sg>>a&1 ? -1 : 1, P = hs_f32("P",1,hs_sampled() ? 2 : 1024), t = hs_f32("t",0,hs_sampled() ? 1+a*0.25 : 1024); hs_assume(t<=P); d[a] = s/P; if (movers) (&e.dx)[a] = s*(1-2*t/P); }
  pm->dispx = d[0]; pm->dispy = d[1]; pm->dispz = d[2];
  if (movers) S->rawm(sp,e,d,rb); else S->raw(sp,e);
  int em = 0; sq->p[2] = e; if (movers && rb) accumulate_rhob(fb->f,&e,g,-q); if (movers) em = move_p(sq->p,pm,ab->a,g,q);
  hs_chk(sp->np==3,"one more particle"); hs_chk(sp->nm==1+em,"movers"); same(sp->p+2,sq->p+2,"raw injected particle");
  if (em) { particle_mover_t *m = sp->pm+1; hs_chk(m->i==2,"mover names the particle"); hs_near(m->dispx,pm->dispx,1e-6,"unspent displacement"); hs_near(m->dispy,pm->dispy,1e-6,"unspent displacement"); hs_near(m->dispz,pm->dispz,1e-6,"unspent displacement"); }
  fields(); accs();
}
