// Collision operators with every random draw arbitrary within its range.
// EXCLUDE: src/util/rng/rng.cc src/util/rng/rng_pool.cc
// cfg: op ...
//  0 one pair: model(0 hard sphere 1 large angle Coulomb) weights(0 equal 1 i lighter 2 i heavier) order(of the components of the relative momentum) redraw(1 one rejection allowed)
//  1 pairing of the binary operator: like nk nl(cell A) mk ml(cell B) sample4 n_pipeline mode rate(0 zero, 1 certain, 2 arbitrary) redraw stale(bits: list i, j not sorted)
//  2 unary operator: np n_pipeline mode rate
//  3 one particle against a fluid: model cold order redraw
//  4 Langevin: np n_pipeline mode nu
//  5 one Takizuka-Abe pair: like weights order redraw
//  6 pairing of Takizuka-Abe: like nk nl mk n_pipeline mode redraw(2: no shuffle) stale
//  9 angle of Takizuka-Abe: like nk nl
//  8 rate of a fluid: model cold
//  7 interval and list: interval step
#include "vh.h"
#include "collision/collision.h"
#include "util/rng/rng.h"
/* ---- random draws */
static rng_t *ids[8]; static char idm[8][16]; static rng_pool_t pool[1];
static double rate2 = -1, rtol = 1; static int n_pre = 0, n_c0, n_n, n_ui, max_c0 = 1000, max_ui = 1000, probe = -2, fixed = 0, redraw = 0; static float c0v[64], nv_[256]; static int nwho[256];
static int who(rng_t *r) { for (int i=0; i<8; i++) if (r==ids[i]) return i; hs_chk(0,"draw from a generator of the pool"); return 0; }
float frand_c0(rng_t *r) { who(r); if (rate2>=0 && n_c0==1) { hs_chk(c0v[0]*c0v[0]<=rate2*rtol,"collides only when the draw is below the rate"); hs_assume(0); } if (n_c0>=max_c0) hs_assume(0); if (fixed) return 0; float x = hs_f32("c0",0,0.99999994); if (n_c0<64) c0v[n_c0] = x; n_c0++; return x; }
float frandn(rng_t *r) { int w = who(r); if (probe>-2) return n_n++==probe ? 1 : 0; float x = n_n<n_pre ? nv_[n_n] : hs_f32("n",-8,8); if (n_n<256) { nv_[n_n] = x; nwho[n_n] = w; } n_n++; return x; }
static unsigned keep_ui[64]; static int replay_ui = 0;
unsigned int uirand(rng_t *r) { who(r); if (n_ui>=max_ui) { if (!redraw) hs_chk(0,"no more draws than the pairs need"); hs_assume(0); } if (redraw==2) { n_ui++; return 0; } unsigned u = replay_ui ? keep_ui[n_ui] : (unsigned)hs_bits("u",32); if (!redraw && !hs_sampled()) hs_assume(u<0xfffffff0u); if (n_ui<64) keep_ui[n_ui] = u; n_ui++; return u; }
static void reset_draws(void) { n_c0 = n_n = n_ui = 0; }
static grid_t *g;
static species_t *S(const char *nm, float q, float m, int np) { species_t *s = species(nm,q,m,np+4,4,0,0,g); s->np = np; s->last_sorted = -1; for (int i=0; i<np+4; i++) memset(s->p+i,0,sizeof(particle_t)); return s; }
static void keep_order(int op, double a, double b) { hs_assume(a*a<=b*b); }
static const char *ax[3] = { "x","y","z" };
static int vox(int c) { return VOXEL(1+c%g->nx,1+c/g->nx%g->ny,1+c/g->nx/g->ny,g->nx,g->ny,g->nz); }
static double sq(double x, double y, double z) { return x*x+y*y+z*z; }

/* ---- recorded binary collisions */
struct ev { int k, l, type, hit; double rate, wk, wl; }; static ev E[64]; static int ne, rmode, bad; static species_t *si, *sj; static void *PAR;
static float my_rate(void *params, const species_t *spi, const species_t *spj, const particle_t *pi, const particle_t *pj) {
  if (params!=PAR || spi!=si || spj!=sj) bad |= 1;
  if (ne>=64) { bad |= 2; return 0; }
  ev *e = E+ne++; e->k = (int)(pi-si->p); e->l = (int)(pj-sj->p); e->hit = 0; e->type = 0; e->wk = pi->w; e->wl = pj->w;
  e->rate = rmode==0 ? 0 : rmode==1 ? 4096 : hs_f32("rate",0,4); return e->rate;
}
static void my_collide(void *params, const species_t *spi, const species_t *spj, particle_t *pi, particle_t *pj, rng_t *rng, const int type) {
  who(rng); if (params!=PAR || spi!=si || spj!=sj || !ne) { bad |= 1; return; }
  ev *e = E+ne-1; if (e->k!=pi-si->p || e->l!=pj-sj->p || e->hit) bad |= 4; e->hit++; e->type = type;
}
static int ucnt[128], uhit[128]; static double urate[128]; static int uorder[128], un;
static float my_urate(void *params, const species_t *sp, const particle_t *p) { int i = (int)(p-si->p); if (params!=PAR || sp!=si || i<0 || i>=128) { bad |= 1; return 0; } ucnt[i]++; if (un<128) uorder[un++] = i; urate[i] = rmode==0 ? 0 : rmode==1 ? 2 : hs_f32("rate",0,4); return urate[i]; }
static void my_ucollide(void *params, const species_t *sp, particle_t *p, rng_t *rng) { int i = (int)(p-si->p); who(rng); if (params!=PAR || sp!=si || i<0 || i>=128) { bad |= 1; return; } uhit[i]++; }

static void same(const particle_t *a, const particle_t *b, int i) {
  hs_chk(a->i==b->i,"cell unchanged"); hs_near_at(a->dx,b->dx,0,"position unchanged","x",i,0,0); hs_near_at(a->dy,b->dy,0,"position unchanged","y",i,0,0); hs_near_at(a->dz,b->dz,0,"position unchanged","z",i,0,0); hs_near_at(a->w,b->w,0,"weight unchanged","w",i,0,0);
}
static void same_u(const particle_t *a, const particle_t *b, int i) { hs_near_at(a->ux,b->ux,0,"momentum unchanged","x",i,0,0); hs_near_at(a->uy,b->uy,0,"momentum unchanged","y",i,0,0); hs_near_at(a->uz,b->uz,0,"momentum unchanged","z",i,0,0); }

/* relative momentum r with one of the orders of its magnitudes (their union is everything); not all but parallel to one axis */
static double relative(const double *r, int o) {
  static const int perm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
  for (int k=0; k<3; k++) hs_name(r[k]);
  if (!hs_sampled()) { hs_assume(r[perm[o][0]]*r[perm[o][0]]<=r[perm[o][1]]*r[perm[o][1]]); hs_assume(r[perm[o][1]]*r[perm[o][1]]<=r[perm[o][2]]*r[perm[o][2]]); }
  double r2 = r[0]*r[0]+r[1]*r[1]+r[2]*r[2]; hs_name(r2); hs_assume(r2>=0.0009765625); int kc = perm[o][0], ka = (kc+1)%3, kb = (kc+2)%3; double D = r[ka]*r[ka]+r[kb]*r[kb]; hs_name(D); hs_assume(D>=0.000244140625);
  return r2;
}
/* arbitrary pair; order: which component of the relative momentum is smallest and largest */
static void pair(particle_t *a, particle_t *b, int wk, int order) {
  a->i = b->i = vox(1); a->dx = hs_f32("x",-1,1); a->dy = 0.5f; a->dz = -0.25f; b->dx = hs_f32("x",-1,1); b->dy = -0.5f; b->dz = 0.125f;
  a->ux = hs_f32("ui",-2,2); a->uy = hs_f32("ui",-2,2); a->uz = hs_f32("ui",-2,2); b->ux = hs_f32("uj",-2,2); b->uy = hs_f32("uj",-2,2); b->uz = hs_f32("uj",-2,2);
  a->w = hs_f32("w",0.25,2); b->w = a->w; if (wk==1) b->w = hs_f32("w2",hs_sampled()?2.125:0.25,4); if (wk==2) b->w = hs_f32("w2",0.03125,hs_sampled()?0.125:2);
  if (wk==1) hs_assume(a->w<b->w); if (wk==2) hs_assume(b->w<a->w);
}
static void check_pair(particle_t *a, particle_t *b, const particle_t *oa, const particle_t *ob, double mi, double mj, int upd) {
  same(a,oa,0); same(b,ob,1);
  double da[3], db[3], r2 = 0, n2 = 0, ur[3]; const float *u1 = &a->ux, *u2 = &b->ux, *o1 = &oa->ux, *o2 = &ob->ux;
  for (int k=0; k<3; k++) { ur[k] = (double)o1[k]-(double)o2[k]; da[k] = ((double)u1[k]-(double)o1[k])*(mi+mj)/mj; db[k] = ((double)o2[k]-(double)u2[k])*(mi+mj)/mi; }
  if (!(upd&1)) for (int k=0; k<3; k++) hs_near_at(u1[k],o1[k],0,"particle i not updated",ax[k],0,0,0);
  if (!(upd&2)) for (int k=0; k<3; k++) hs_near_at(u2[k],o2[k],0,"particle j not updated",ax[k],0,0,0);
  if (upd==3) for (int k=0; k<3; k++) hs_near_at(mi*u1[k]+mj*u2[k],mi*o1[k]+mj*o2[k],1e-4,"total momentum",ax[k],0,0,0);
  if (upd&1) hs_near_at(sq(ur[0]+da[0],ur[1]+da[1],ur[2]+da[2]),sq(ur[0],ur[1],ur[2]),1e-3,"magnitude of the relative momentum","i",0,0,0);
  if (upd&2) hs_near_at(sq(ur[0]+db[0],ur[1]+db[1],ur[2]+db[2]),sq(ur[0],ur[1],ur[2]),1e-3,"magnitude of the relative momentum","j",0,0,0);
}
static void mix(species_t *s) { for (int i=0; i<s->np/2; i++) { particle_t t = s->p[i]; s->p[i] = s->p[s->np-1-i]; s->p[s->np-1-i] = t; } s->last_sorted = g->step-1; for (int i=0; i<=g->nv; i++) s->partition[i] = 0; }
static void bystanders(species_t *s, int from, int n, int cell0) { for (int i=from; i<n; i++) { particle_t *p = s->p+i; p->i = vox(cell0+i%2); p->dx = 0.25f*i-0.5f; p->ux = i+1; p->uy = 0.5f*i-1; p->uz = 2-i; p->w = 1+i; } }

void hs_main(void) {
  int op = hs_cfg(0);
  g = NULL;
  int npl = op==1 ? hs_cfg(7) : op==2 || op==4 ? hs_cfg(2) : op==6 ? hs_cfg(5) : 2, md = op==1 ? hs_cfg(8) : op==2 || op==4 ? hs_cfg(3) : op==6 ? hs_cfg(6) : 1;
  vh_threads(npl,md);
  g = vh_grid(3,2,2,0,0); g->dt = 0.5f; g->cvac = 2; g->eps0 = 1; g->dx = 1; g->dy = 0.5f; g->dz = 2; g->dV = 1; g->step = 12;
  for (int i=0; i<8; i++) ids[i] = (rng_t*)idm[i];
  pool->rng = ids; pool->n_rng = 8;
  if (op==0 || op==5) {
    int model = hs_cfg(1), wk = hs_cfg(2), like = op==5 && hs_cfg(1);
    float mi = 1, mj = like ? 1 : 3;
    si = S("a",-1,mi,like ? 4 : 3); sj = like ? si : S("b",2,mj,3);
    particle_t *a = si->p, *b = like ? si->p+1 : sj->p; pair(a,b,wk,0);
    bystanders(si,like ? 2 : 1,si->np,2); if (like) si->p[3].i = vox(5); else bystanders(sj,1,3,5);
    double r[3] = { (double)a->ux-b->ux,(double)a->uy-b->uy,(double)a->uz-b->uz };
    double r2 = relative(r,hs_cfg(3));
    collision_op_t *c; float bm = hs_f32("b",0.0625,1);
    if (op==5) c = takizuka_abe("t",si,sj,pool,hs_f32("cvar",0,4),1);
    else c = model ? large_angle_coulomb("l",si,sj,bm,pool,1,1) : hard_sphere("h",si,bm,sj,0.25f,pool,1,1);
    particle_t oi[8], oj[8]; 
    sort_p(si); if (!like) sort_p(sj); si->last_sorted = sj->last_sorted = g->step;
    int ia = -1, ib = -1; for (int i=0; i<si->np; i++) { oi[i] = si->p[i]; if (si->p[i].i==vox(1)) { if (like && ia>=0) ib = i; else ia = i; } } for (int i=0; i<sj->np; i++) { oj[i] = sj->p[i]; if (!like && sj->p[i].i==vox(1)) ib = i; }
    redraw = hs_cfg(4); max_c0 = op==0 ? 3+(wk>0)+2*redraw : 4; max_ui = 2+redraw;
    apply_collision_op_list(c);
    int t = 0, upd = 0;                                      /* what the draws stand for, as documented */
    if (op==5) {
      hs_chk(n_n==1,"one scattering for the pair");
      if (like) { /* the shuffle may exchange the two (equal cells): identify by weight and position is not possible; accept both orders */
        int sw = n_ui>0 && keep_ui[n_ui-1]/(0xffffffffu/2)==1; if (sw) { particle_t x = oi[ia]; oi[ia] = oi[ib]; oi[ib] = x; } }
      float wi = oi[ia].w, wj = like ? oi[ib].w : oj[ib].w; upd = 3;
      if (wj<wi && wi*c0v[n_c0-1]>wj) upd = 2; if (wi<wj && wj*c0v[n_c0-1]>wi) upd = 1;
      if (like) memcpy(oj,oi,sizeof oj);
    } else {
      double w0 = oi[ia].w, w1 = oj[ib].w, wm = w0>w1 ? w0 : w1, wn = w0>w1 ? w1 : w0, R = model ? bm : bm+0.25, Kc = 2*M_PI*R*R, pr = wm*0.5*Kc*sqrt(r2);
      hs_chk(n_c0>=1,"the pair is tested once");
      hs_chk(n_c0==1 ? c0v[0]>=pr*0.9999 : c0v[0]<=pr*1.0001,"collides when the draw is below the probability");
      if (n_c0>1) { if (wk==0) upd = 3; else { upd = wk==1 ? 1 : 2; if (wm*c0v[1]<wn) upd = 3; } }
      if (n_c0>1) hs_reach("collided");
    }
    check_pair(si->p+ia,sj->p+ib,oi+ia,oj+ib,mi,mj,upd);
    for (int i=0; i<si->np; i++) if (i!=ia && !(like && i==ib)) { same(si->p+i,oi+i,10+i); same_u(si->p+i,oi+i,10+i); }
    if (!like) for (int i=0; i<sj->np; i++) if (i!=ib) { same(sj->p+i,oj+i,20+i); same_u(sj->p+i,oj+i,20+i); }
  }
  if (op==3) {
    int model = hs_cfg(1), cold = hs_cfg(2); float m = 1, m0 = 3;
    si = S("a",-1,m,1); particle_t *p = si->p; p->i = vox(1); p->dx = hs_f32("x",-1,1); p->w = hs_f32("w",0.25,2); p->ux = hs_f32("u",-2,2); p->uy = hs_f32("u",-2,2); p->uz = hs_f32("u",-2,2);
    float vd[3] = { 0.5f,-0.25f,0.75f }; if (cold) for (int k=0; k<3; k++) vd[k] = hs_f32("vd",-1,1);
    float kT = cold ? 0 : 3, bm = hs_f32("b",0.0625,1);
    collision_op_t *c = model ? large_angle_coulomb_fluid("l",hs_f32("n0",0.5,2),vd[0],vd[1],vd[2],kT,2,m0,si,bm,pool,1) : hard_sphere_fluid("h",hs_f32("n0",0.5,2),vd[0],vd[1],vd[2],kT,m0,bm,si,0.25f,pool,1);
    particle_t o = *p; int redraw = hs_cfg(4); max_c0 = 3+2*redraw;
    double ur[3], d[3]; if (!cold) { n_pre = 3; for (int k=0; k<3; k++) nv_[k] = hs_f32("n",-8,8); } for (int k=0; k<3; k++) ur[k] = (&p->ux)[k]-vd[k]*0.5-(cold ? 0 : 0.5*nv_[k]);
    relative(ur,hs_cfg(3));
    apply_collision_op_list(c);
    same(p,&o,0);
    hs_chk(n_n==0 || (n_n==3 && !cold),"three normal draws for a warm fluid");
    if (n_c0==1) { same_u(p,&o,0); return; }
    hs_reach("collided");
    /* the partner: drift plus thermal speed sqrt(kT/m0)/c = 1/2 times the draws */
    hs_chk(cold || n_n==3,"a warm fluid scatters with a thermal partner");
    for (int k=0; k<3; k++) { d[k] = ((double)(&p->ux)[k]-(&o.ux)[k])*(m+m0)/m0; }
    hs_near(sq(ur[0]+d[0],ur[1]+d[1],ur[2]+d[2]),sq(ur[0],ur[1],ur[2]),1e-3,"magnitude of the relative momentum");
  }
  if (op==8) {
    int model = hs_cfg(1), cold = hs_cfg(2); float m = 1, m0 = 3, n0 = cold ? hs_f32("n0",0.5,2) : 0.25f, bm = cold ? hs_f32("b",0.0625,1) : 0.125f, R = model ? bm : bm+0.25f, vd[3] = { hs_f32("vd",-1,1),0.5f,hs_f32("vd",-1,1) }, kT = cold ? 0 : 3;
    si = S("a",-1,m,1); particle_t *p = si->p; p->i = vox(1); p->w = hs_f32("w",0.25,2); p->ux = 0.5f; p->uy = hs_f32("u",-2,2); p->uz = hs_f32("u",-2,2);
    collision_op_t *c = model ? large_angle_coulomb_fluid("l",n0,vd[0],vd[1],vd[2],kT,2,m0,si,bm,pool,3) : hard_sphere_fluid("h",n0,vd[0],vd[1],vd[2],kT,m0,bm,si,0.25f,pool,3);
    double u2 = 0; for (int k=0; k<3; k++) { double d = (double)(&p->ux)[k]-vd[k]*0.5; u2 += d*d; } hs_name(u2); hs_assume(u2>=0.0009765625);
    /* rate of the documented fit, which follows n pi R^2 c sqrt(8/pi ut^2+u^2) to 3 percent */
    double K = M_PI*R*R*2*n0*3*0.5; rate2 = K*K*((cold ? 0 : 8/M_PI*0.25)+u2); rtol = cold ? 1.001 : 1.08;
    particle_t o = *p; apply_collision_op_list(c);
    hs_chk(n_c0==1,"one test"); hs_chk(c0v[0]*c0v[0]*rtol>=rate2,"no collision only when the draw is above the rate"); same_u(p,&o,0); same(p,&o,0);
  }
  if (op==1) {
    int like = hs_cfg(1), nk = hs_cfg(2), nl = hs_cfg(3), mk = hs_cfg(4), ml = hs_cfg(5); double sample = hs_cfg(6)*0.25; rmode = hs_cfg(9);
    si = S("a",1,1,nk+mk+1); sj = like ? si : S("b",1,2,nl+ml+1);
    for (int i=0; i<si->np; i++) { particle_t *p = si->p+i; p->i = vox(i<nk ? 3 : i<nk+mk ? 4 : 0); p->w = 1+(like ? i%3 : 0); p->ux = i; p->dx = hs_f32("x",-1,1); }
    if (!like) for (int i=0; i<sj->np; i++) { particle_t *p = sj->p+i; p->i = vox(i<nl ? 3 : i<nl+ml ? 4 : 7); p->w = i%3 ? i%3*1.5f-1 : 1; p->ux = 10+i; p->dx = hs_f32("x",-1,1); }
    int params; PAR = &params; REGISTER_OBJECT(&params,NULL,NULL,NULL);
    collision_op_t *c = binary_collision_model("x",my_rate,my_collide,&params,si,sj,pool,sample,1);
    particle_t oi[16], oj[16]; int stale = hs_cfg(11); sort_p(si); if (!like) sort_p(sj); si->last_sorted = sj->last_sorted = g->step;
    if (stale&1) mix(si); if (stale&2) mix(sj);
    memcpy(oi,si->p,sizeof(particle_t)*si->np); memcpy(oj,sj->p,sizeof(particle_t)*sj->np);
    int want[2], n1[2] = { nk,mk }, n2[2] = { like ? nk : nl,like ? mk : ml }, tot = 0;
    for (int q=0; q<2; q++) { want[q] = n1[q] && n2[q] ? (int)(0.5+sample*(like ? 0.5*n1[q] : n1[q]>n2[q] ? n1[q] : n2[q])) : 0; tot += want[q]; }
    int one = like ? (int)(0.5+sample*0.5) : 0;                /* the single particle of its own cell meets only itself */
    redraw = hs_cfg(10); max_ui = 2*(tot+one)+redraw;
    apply_collision_op_list(c);
    hs_chk(bad==0,"callbacks get the registered parameters and matching particles");
    int got[2] = { 0,0 }, self = 0, hits = 0;
    for (int x=0; x<ne; x++) {
      ev *e = E+x; hs_chk(e->k>=0 && e->k<si->np && e->l>=0 && e->l<sj->np,"pair within the lists"); int v = si->p[e->k].i;
      hs_chk(v==sj->p[e->l].i,"pair from one cell"); if (v==vox(3)) got[0]++; else if (v==vox(4)) got[1]++; else self++;
      hs_chk(e->hit<=1,"a pair collides at most once"); hits += e->hit;
      if (rmode==0) hs_chk(!e->hit,"zero rate never collides");
      if (rmode==1) hs_chk(e->hit==1,"a certain collision happens");
      if (e->hit) { if (e->wk==e->wl) hs_chk(e->type==3,"equal weights: both updated"); else if (e->wk<e->wl) hs_chk(e->type==1 || e->type==3,"the lighter particle is always updated"); else hs_chk(e->type==2 || e->type==3,"the lighter particle is always updated"); }
    }
    hs_chk(got[0]==want[0] && got[1]==want[1] && self==one,"number of candidate pairs of every cell");
    if (rmode==2 && tot+one==1) {                              /* a single candidate: the draws in order */
      ev *e = E; double wm = e->wk>e->wl ? e->wk : e->wl, wn = e->wk>e->wl ? e->wl : e->wk; int np = like ? n1[0]*(n1[0]+1)/2 : n1[0]*n2[0]; double pr = wm*0.5*np*e->rate;
      hs_chk(e->hit ? c0v[0]<=pr*1.0001+1e-6 : c0v[0]>=pr*0.9999-1e-6,"collides when the draw is below the probability");
      if (e->hit && e->wk!=e->wl) hs_chk(e->type==3 ? wm*c0v[1]<=wn*1.0001 : wm*c0v[1]>=wn*0.9999,"the heavier particle is updated in proportion of the weights");
    }
    if (rmode==1 || !redraw) { int at = 0, n = si->np, m = sj->np; /* the draws name the pairs: the high part of one picks the particle of i, of the next the particle of j */
      for (int x=0; x<ne; x++) { ev *e = E+x; int v = si->p[e->k].i, a0 = 0, b0 = 0, na = 0, nb = 0; for (int i=0; i<n; i++) { a0 += si->p[i].i<v; na += si->p[i].i==v; } for (int i=0; i<m; i++) { b0 += sj->p[i].i<v; nb += sj->p[i].i==v; }
        unsigned k, l; do k = keep_ui[at++]/(0xffffffffu/(unsigned)na); while (k==(unsigned)na && at<n_ui); do l = keep_ui[at++]/(0xffffffffu/(unsigned)nb); while (l==(unsigned)nb && at<n_ui);
        hs_chk(e->k==a0+(int)k && e->l==b0+(int)l,"every pair of a cell equally likely: the pair the draws stand for"); }
      hs_chk(at==n_ui,"two draws per pair and rejection"); }
    if (!(stale&1)) for (int i=0; i<si->np; i++) { same(si->p+i,oi+i,i); same_u(si->p+i,oi+i,i); }
    else for (int i=0; i<si->np; i++) { hs_chk(si->p[i].ux>=0 && si->p[i].ux<16,"particle kept"); }
    if (!like && !(stale&2)) for (int i=0; i<sj->np; i++) { same(sj->p+i,oj+i,i); same_u(sj->p+i,oj+i,i); }
    hs_chk(si->last_sorted==g->step && sj->last_sorted==g->step,"lists sorted for this step");
  }
  if (op==2) {
    int np = hs_cfg(1); rmode = hs_cfg(4);
    si = S("a",1,1,np); for (int i=0; i<np; i++) { si->p[i].i = vox(i%5); si->p[i].w = 1+i; si->p[i].ux = hs_f32("u",-1,1); }
    int params; PAR = &params; REGISTER_OBJECT(&params,NULL,NULL,NULL);
    collision_op_t *c = unary_collision_model("u",my_urate,my_ucollide,&params,si,pool,2);
    particle_t *o = new particle_t[np+4]; memcpy(o,si->p,sizeof(particle_t)*(np+4));
    apply_collision_op_list(c);
    hs_chk(bad==0,"callbacks get the registered parameters and particles"); hs_chk(un==np && n_c0==np,"one test per particle");
    for (int i=0; i<np; i++) {
      hs_chk(ucnt[i]==1,"every particle is tested once"); hs_chk(uhit[i]<=1,"at most one collision per particle");
      if (rmode==0) hs_chk(uhit[i]==0,"zero rate never collides"); if (rmode==1) hs_chk(uhit[i]==1,"a certain collision happens");
    }
    if (rmode==2) for (int k=0; k<np; k++) { int i = uorder[k]; hs_chk(uhit[i] ? c0v[k]<=urate[i]*1.0001+1e-6 : c0v[k]>=urate[i]*0.9999-1e-6,"collides when the draw is below rate times dt times interval"); }
    for (int i=0; i<np+4; i++) { same(si->p+i,o+i,i); same_u(si->p+i,o+i,i); }
  }
  if (op==4) {
    int np = hs_cfg(1), k0 = hs_cfg(4); double kT = 8, nu = k0 ? hs_f32("nu",0.0625,4) : 0;
    si = S("a",1,2,np); for (int i=0; i<np+4; i++) { particle_t *p = si->p+i; p->i = vox(i%5); p->w = 1+i; p->ux = hs_f32("u",-1,1); p->uy = hs_f32("u",-1,1); p->uz = hs_f32("u",-1,1); p->dx = hs_f32("x",-1,1); }
    collision_op_t *c = langevin(k0==2 ? 0 : kT,nu,si,pool,3);
    particle_t *o = new particle_t[np+4]; memcpy(o,si->p,sizeof(particle_t)*(np+4));
    apply_collision_op_list(c);
    hs_chk(n_n==3*np,"three draws per particle");
    float nudt = (float)nu*3.f*0.5f; double decay = exp(-(double)nudt), drive = sqrt(-expm1((double)(-2*nudt))*(k0==2 ? 0 : kT)/(2*2));
    /* draws in the order of the schedule: pipeline by pipeline, particle by particle */
    int at = 0;
    for (int s=0; s<npl; s++) {
      int w = nwho[at<3*np ? at : 0]; int i = (int)(0.5+(double)np/npl*w), i1 = (int)(0.5+(double)np/npl*(w+1));
      if (i==i1) { int lo = -1; for (int q=0; q<npl; q++) { } }
      for (; i<i1 && at+2<3*np; i++, at += 3) for (int d=0; d<3; d++) { hs_chk(nwho[at+d]==w,"draws of a particle from one generator"); hs_near_at((&si->p[i].ux)[d],decay*(&o[i].ux)[d]+drive*nv_[at+d],1e-4,"damped and driven momentum",ax[d],i,0,0); }
    }
    hs_chk(at==3*np,"every particle once");
    for (int i=0; i<np+4; i++) { same(si->p+i,o+i,i); if (i>=np) same_u(si->p+i,o+i,i); }
  }
  if (op==6) {
    int like = hs_cfg(1), nk = hs_cfg(2), nl = hs_cfg(3), mk = hs_cfg(4);
    si = S("a",1,1,nk+mk+1); sj = like ? si : S("b",1,2,nl+2);
    for (int i=0; i<si->np; i++) { particle_t *p = si->p+i; p->i = vox(i<nk ? 3 : i<nk+mk ? 4 : 0); p->w = 1; p->ux = 1+i*i; p->uy = 3*i-2; p->uz = 0.25f*i; p->dx = hs_f32("x",-1,1); }
    if (!like) for (int i=0; i<sj->np; i++) { particle_t *p = sj->p+i; p->i = vox(i<nl ? 3 : i<nl+1 ? 4 : 7); p->w = 1; p->ux = -7-i*i; p->uy = 5*i; p->uz = 1+i; p->dx = hs_f32("x",-1,1); }
    collision_op_t *c = takizuka_abe("t",si,sj,pool,1,1);
    sort_p(si); if (!like) sort_p(sj); si->last_sorted = sj->last_sorted = g->step; int stale = hs_cfg(8);
    particle_t oi[16], oj[16]; memcpy(oi,si->p,sizeof(particle_t)*si->np); memcpy(oj,sj->p,sizeof(particle_t)*sj->np);
    fixed = 1; redraw = hs_cfg(7); max_ui = 20;
    int part[32], k2 = like ? nk : nl, nci[2], tot = 0; for (int i=0; i<32; i++) part[i] = 0;
    /* documented: everyone takes part, the members of the larger group once */
    if (like) { for (int q=0; q<2; q++) { int n = q ? mk : nk; nci[q] = n<2 ? 0 : n%2 ? 3+(n-3)/2 : n/2; tot += nci[q]; } } else { nci[0] = nk && nl ? (nk>nl ? nk : nl) : 0; nci[1] = mk ? mk : 0; tot = nci[0]+nci[1]; }
    for (int pr=-1; pr<tot; pr++) {                            /* only collision pr scatters, the others do nothing */
      memcpy(si->p,oi,sizeof(particle_t)*si->np); memcpy(sj->p,oj,sizeof(particle_t)*sj->np); if (stale&1) mix(si); if (stale&2) mix(sj);
      reset_draws(); probe = pr; replay_ui = pr>=0;
      apply_collision_op_list(c);
      hs_chk(n_n==tot,"number of collisions of every cell");
      /* the shuffle permutes the particles of a cell: find each by its momentum before; the colliding ones changed */
      int nc = 0, cells[4], who_[4], nun = 0;
      for (int s=0; s<(like ? 1 : 2); s++) { species_t *sp = s ? sj : si; const particle_t *o = s ? oj : oi;
        int used[16]; for (int i=0; i<16; i++) used[i] = 0;
        for (int i=0; i<sp->np; i++) { int hit = -1; for (int j=0; j<sp->np; j++) if (!used[j] && sp->p[i].i==o[j].i && sp->p[i].ux==o[j].ux && sp->p[i].uy==o[j].uy && sp->p[i].uz==o[j].uz) { hit = j; break; }
          if (hit>=0) { used[hit] = 1; hs_near(sp->p[i].dx,o[hit].dx,0,"position unchanged"); hs_near(sp->p[i].w,o[hit].w,0,"weight unchanged"); }
          else if (nc<4) cells[nc++] = sp->p[i].i; else nc++; }
        for (int j=0; j<sp->np; j++) if (!used[j]) { nun++; part[16*s+j]++; }
        int per[24]; memset(per,0,sizeof per); }
      hs_chk(nc==nun,"particles of a cell are only permuted");
      if (pr<0) hs_chk(nc==0,"no scattering, no change");
      else { hs_chk(nc==2,"a collision changes two particles"); hs_chk(cells[0]==cells[1],"pair from one cell"); }
    }
    for (int i=0; i<si->np; i++) { int q = oi[i].i==vox(3) ? 0 : oi[i].i==vox(4) ? 1 : 2, n = q==0 ? nk : q==1 ? mk : 1, m = q==0 ? nl : q==1 ? 1 : 0;
      if (like) { if (n<2) hs_chk(part[i]==0,"a single particle does not collide"); else if (n%2==0) hs_chk(part[i]==1,"everyone takes part once"); else hs_chk(part[i]==1 || part[i]==2,"everyone takes part"); }
      else if (!m) hs_chk(part[i]==0,"no partner, no collision"); else if (n>=m) hs_chk(part[i]==1,"the larger group takes part once"); else hs_chk(part[i]==m/n || part[i]==m/n+1,"the smaller group shares the others evenly"); }
    if (like && nk%2 && nk>=3) { int two = 0; for (int i=0; i<si->np; i++) if (oi[i].i==vox(3)) two += part[i]==2; hs_chk(two==3,"three of an odd number scatter twice"); }
    if (!like) for (int i=0; i<sj->np; i++) { int q = oj[i].i==vox(3) ? 0 : oj[i].i==vox(4) ? 1 : 2, n = q==0 ? nk : q==1 ? mk : 0, m = q==0 ? nl : 1;
      if (!n || q==2) hs_chk(part[16+i]==0,"no partner, no collision"); else if (m>=n) hs_chk(part[16+i]==1,"the larger group takes part once"); else hs_chk(part[16+i]==n/m || part[16+i]==n/m+1,"the smaller group shares the others evenly"); }
  }
  if (op==9) {
    /* tan(theta/2) of a pair is normal with the variance cvar0 (qi qj)^2/mu^2 n dt/(c-free |u|^3 dV), n the density of the rarer species, cut at 1 */
    int like = hs_cfg(1), nk = hs_cfg(2), nl = like ? 0 : hs_cfg(3), pick = hs_cfg(4), iv = 1+hs_cfg(5); float mi = 1, mj = like ? 1 : 3, qi = -1, qj = like ? -1 : 2, cv = hs_f32("cvar",0,hs_cfg(6) ? 64 : 0.125);
    si = S("a",qi,mi,nk); sj = like ? si : S("b",qj,mj,nl); double na = 0, nb = 0; if (hs_cfg(7)) { g->dV = 4; g->dt = 0.25f; }
    for (int i=0; i<nk; i++) { particle_t *p = si->p+i; p->i = vox(3); p->w = hs_f32("w",0.5,2); if (nk==1 && !hs_sampled()) p->w = p->w; p->ux = like && i%2 ? -1 : 1; p->uy = 0; p->uz = i; na += p->w; }
    if (!like) for (int i=0; i<nl; i++) { particle_t *p = sj->p+i; p->i = vox(3); p->w = hs_f32("w",0.5,2); p->ux = -3; p->uy = 0; p->uz = i; nb += p->w; }
    collision_op_t *c = takizuka_abe("t",si,sj,pool,cv,iv); g->step = 12; si->last_sorted = sj->last_sorted = -1; sort_p(si); if (!like) sort_p(sj); si->last_sorted = sj->last_sorted = 12;
    particle_t oi[8], oj[8]; memcpy(oi,si->p,sizeof(particle_t)*nk); memcpy(oj,sj->p,sizeof(particle_t)*sj->np);
    fixed = 1; redraw = 2; max_ui = 20; probe = pick; apply_collision_op_list(c); hs_chk(n_n>pick,"collision took place");
    int ia = -1, ib = -1; for (int i=0; i<nk; i++) { int ch = 0; for (int k=0; k<3; k++) ch |= (&si->p[i].ux)[k]!=(&oi[i].ux)[k]; if (ch) { if (ia<0) ia = i; else ib = i; } }
    if (!like) for (int i=0; i<nl; i++) { int ch = 0; for (int k=0; k<3; k++) ch |= (&sj->p[i].ux)[k]!=(&oj[i].ux)[k]; if (ch) ib = i; }
    if (ia<0 || ib<0) { hs_chk(cv==0,"a pair scatters unless the variance is zero"); return; }
    double ur[3], r2 = 0, ud = 0; for (int k=0; k<3; k++) { ur[k] = (double)(&oi[ia].ux)[k]-(double)(like ? &oi[ib].ux : &oj[ib].ux)[k]; r2 += ur[k]*ur[k]; } for (int k=0; k<3; k++) ud += ur[k]*((double)(&si->p[ia].ux)[k]-(double)(&oi[ia].ux)[k])*(mi+mj)/mj;
    double q = -ud/r2, dens = like ? (nk%2 && pick<3 ? 0.5*na : na) : na<nb ? na : nb, mu = mi*mj/(mi+mj), var = cv*(double)(qi*qi*qj*qj)/(mu*mu)*dens*g->dt*iv/g->dV, d2 = var/(r2*sqrt(r2)); if (d2>1) d2 = 1;
    hs_near(q*(1+d2),2*d2,1e-4,"one minus the cosine of the angle");
  }
  if (op==7) {
    int interval = hs_cfg(1); g->step = hs_cfg(2); int on = interval>=1 && g->step%interval==0;
    si = S("a",1,1,2); for (int i=0; i<2; i++) { si->p[i].i = vox(1); si->p[i].w = 1; si->p[i].ux = 1+i; } sj = si;
    int params; PAR = &params; REGISTER_OBJECT(&params,NULL,NULL,NULL); rmode = 1; max_ui = 3;
    collision_op_t *list = NULL; int kinds = hs_cfg(3);
    if (kinds&1) append_collision_op(unary_collision_model("u",my_urate,my_ucollide,&params,si,pool,interval),&list);
    if (kinds&2) append_collision_op(langevin(1,1,si,pool,interval),&list);
    if (kinds&4) append_collision_op(binary_collision_model("b",my_rate,my_collide,&params,si,si,pool,1,interval),&list);
    if (kinds&8) append_collision_op(takizuka_abe("t",si,si,pool,1,interval),&list);
    hs_chk(num_collision_op(list)==(kinds&1)+(kinds>>1&1)+(kinds>>2&1)+(kinds>>3&1),"length of the list");
    apply_collision_op_list(list);
    hs_chk(un==(kinds&1 && on ? 2 : 0),"unary operator at its interval"); hs_chk(n_n==(kinds&2 && on ? 6 : 0)+(kinds&8 && on ? 1 : 0),"normal draws only at the interval"); hs_chk(ne==(kinds&4 && on ? 1 : 0),"binary operator at its interval");
    hs_chk(bad==0,"callbacks");
    if (on) hs_reach("applied");
  }
}
