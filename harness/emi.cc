// Thermal reflux and Child-Langmuir emission with every random draw arbitrary within its range.
// EXCLUDE: src/util/rng/rng.cc src/util/rng/rng_pool.cc
// cfg: op ...
//  0 reflux: face species(of 3) zero(bit a: the particle had no momentum along axis a)
//  1 one particle emitted and aged: face nx ny nz codes cx cy cz signs
//  2 several faces, several particles each, no ageing: list n_emit room_p room_m q_sign
//  3 lists and refusals: what
#define IN_boundary
#define IN_emitter
#include "vh.h"
#include "boundary/boundary_private.h"
#include "emitter/emitter_private.h"
#include "util/rng/rng.h"
static rng_t *ids[4]; static char idm[4][16]; static rng_pool_t pool[1];
static float De[64], Dn[128], Dc[256]; static int ne, nn, nc, pre;
static void who(rng_t *r) { hs_chk(r==ids[0],"draws from the pool's generator"); }
float frande(rng_t *r) { who(r); if (ne>=64) hs_assume(0); return De[ne++]; }
float frandn(rng_t *r) { who(r); if (nn>=128) hs_assume(0); return Dn[nn++]; }
float frand_c0(rng_t *r) { who(r); if (nc>=256) hs_assume(0); return Dc[nc++]; }
#ifdef OWN_MOVE                       /* records the ageing; every other particle is left with a mover */
static struct { particle_t p; particle_mover_t m; int i, r; } MV[64]; static int nmv = 0; static float mq; static grid_t *mg; static void *ma;
int move_p(particle_t *p0, particle_mover_t *pm, accumulator_t *a0, const grid_t *g, const float q) {
  if (nmv>=64) hs_assume(0);
  hs_chk(g==mg && a0==(accumulator_t*)ma,"ageing on the right grid and currents"); hs_near(q,mq,0,"ageing with the charge of the species");
  MV[nmv].p = p0[pm->i]; MV[nmv].m = *pm; MV[nmv].i = pm->i; MV[nmv].r = nmv%2; pm->dispx *= 0.5f; pm->dispy *= 0.25f; pm->dispz *= 0.125f; return nmv++%2;
}
#endif
static const char *ax[3] = { "x","y","z" };
static void fields(field_array_t *fa, field_array_t *fb) { for (int v=0; v<fa->g->nv; v++) for (int c=0; c<16; c++) hs_near_at(FC(fa->f+v,c),FC(fb->f+v,c),c==RHOB ? 1e-5 : 0,"bound charge, nothing else",vh_cn[c],v,0,0); }
void hs_main(void) {
  int op = hs_cfg(0); for (int i=0; i<4; i++) ids[i] = (rng_t*)idm[i]; pool->rng = ids; pool->n_rng = 4;
  vh_threads(1,0); vh_boot();
  grid_t *g;
  if (op==0) {
    int face = hs_cfg(1), which = hs_cfg(2), zero = hs_cfg(3), a = face%3;
    g = vh_grid(2,2,2,222222,0); g->dx = 0.5f; g->dy = 2; g->dz = 1; g->rdx = 2; g->rdy = 0.5f; g->rdz = 1; g->dt = 0.25f; g->cvac = hs_f32("cvac",0.5,2);
    species_t *sl = NULL, *sp[3]; for (int i=0; i<3; i++) { char nm[3] = { 's',(char)('0'+i),0 }; sp[i] = append_species(species(nm,1,1,8,8,0,0,g),&sl); }
    particle_bc_t *pl = NULL, *pb = append_particle_bc(maxwellian_reflux(sl,pool),&pl); float para[3], perp[3];
    for (int i=0; i<3; i++) { para[i] = hs_f32("ut_para",0.0625,2); perp[i] = hs_f32("ut_perp",0,2); set_reflux_temp(pb,sp[i],para[i],perp[i]); }
    De[0] = hs_f32("e",0.0009765625,64); Dn[0] = hs_f32("n0",-8,8); Dn[1] = hs_f32("n1",-8,8);
    particle_t p, o; particle_mover_t pm, om; particle_injector_t pi; p.dx = hs_f32("x",-1,1); p.dy = hs_f32("y",-1,1); p.dz = hs_f32("z",-1,1); (&p.dx)[a] = face<3 ? -1 : 1; p.i = 17; p.w = hs_f32("w",0,2);
    double u[3], f = hs_f32("f",0,1), rd[3] = { g->rdx,g->rdy,g->rdz };                  /* fraction of the step that is left */
    static const char *nu[3] = { "ux","uy","uz" };
    for (int k=0; k<3; k++) u[k] = (&p.ux)[k] = zero>>k&1 && k!=a ? 0 : k==a ? (face<3 ? -1 : 1)*hs_f32(nu[k],0.0625,2) : hs_f32(nu[k],-2,2);
    double u2 = u[0]*u[0]+u[1]*u[1]+u[2]*u[2]; hs_name(u2); double g2 = 1+u2; hs_name(g2); double gam = sqrt(g2), T = f*(double)g->cvac*g->dt;
    for (int k=0; k<3; k++) (&pm.dispx)[k] = T*u[k]/gam*rd[k]; pm.i = 3; o = p; om = pm; memset(&pi,0,sizeof(pi));
    int r = pb->interact(pb->params,sp[which],&p,&pm,&pi,1,face);
    hs_chk(r==1,"one particle comes back");
    hs_chk(pi.sp_id==sp[which]->id,"species kept"); hs_near(pi.w,p.w,0,"weight kept"); hs_near(o.w,p.w,0,"weight kept"); hs_chk(pi.i==17,"cell kept");
    for (int k=0; k<3; k++) hs_near_at((&pi.dx)[k],(&o.dx)[k],0,"position kept",ax[k],0,0,0);
    double v[3] = { pi.ux,pi.uy,pi.uz }; int b = (a+1)%3, c = (a+2)%3;
    hs_chk(face<3 ? v[a]>=0 : v[a]<=0,"normal momentum directed inwards");
    hs_near(v[a]*v[a],2.0*para[which]*para[which]*De[0],1e-3,"normal momentum of the flux distribution");
    hs_near(v[b]+v[c],perp[which]*((double)Dn[0]+Dn[1]),1e-4,"tangential momenta"); hs_near(v[b]*v[c],(double)perp[which]*perp[which]*Dn[0]*Dn[1],1e-3,"tangential momenta");
    double v2 = v[0]*v[0]+v[1]*v[1]+v[2]*v[2]; 
    for (int k=0; k<3; k++) { double d = (&pi.dispx)[k]; hs_near_at(d*d*(1+v2),T*T*v[k]*v[k]*rd[k]*rd[k],1e-3,"displacement for the time left",ax[k],0,0,0); hs_chk(k!=a ? 1 : face<3 ? d>=0 : d<=0,"displacement directed inwards"); 
      for (int l=0; l<k; l++) { double dl = (&pi.dispx)[l]; hs_near_at(d*v[l]*rd[l],dl*v[k]*rd[k],1e-3,"displacement along the velocity",ax[k],0,0,0); } }
    return;
  }
  if (op==1) {
    int face = hs_cfg(1), n[3] = { hs_cfg(2),hs_cfg(3),hs_cfg(4) }, codes = hs_cfg(5), cl[3] = { hs_cfg(6),hs_cfg(7),hs_cfg(8) }, sg = hs_cfg(9), a = face%3, b = (a+1)%3, c = (a+2)%3, in = face<3 ? 1 : -1;
    g = vh_grid(n[0],n[1],n[2],codes,0); g->dt = 0.5f; g->cvac = 2; g->eps0 = 2; g->dx = 0.5f; g->dy = 2; g->dz = 1; 
    float q = hs_f32("q",0.125,2)*(sg>>3&1 ? -1 : 1); species_t *sl = NULL, *l2 = NULL, *sp = append_species(species("s",q,0.5f,8,8,0,0,g),&sl), *sq = append_species(species("s",q,0.5f,8,8,0,0,g),&l2);
    field_array_t *fa = vh_fields(g,1,0), *fb = vh_fields(g,1,0); memset(fa->f,0,sizeof(field_t)*g->nv); memcpy(fb->f,fa->f,sizeof(field_t)*g->nv);
    accumulator_array_t *aa = new_accumulator_array(g), *ab = new_accumulator_array(g); clear_accumulator_array(aa); clear_accumulator_array(ab);
    interpolator_array_t *ia = new_interpolator_array(g); memset(ia->i,0,sizeof(interpolator_t)*g->nv);
    int v = VOXEL(cl[0],cl[1],cl[2],n[0],n[1],n[2]); interpolator_t *fi = ia->i+v; float *ec[3] = { &fi->ex,&fi->ey,&fi->ez }; *ec[a] = hs_f32("E",0.0625,4)*(in*(q>0 ? 1 : -1)); fi->dexdy = hs_f32("dE",-1,1); fi->deydz = fi->dezdx = fi->dexdy;
    double para = hs_f32("ut_para",0.0625,2), perp = hs_f32("ut_perp",0.0625,2), nrm = hs_f32("norm",0.125,2);
    /* momenta after the draws, displacement 1/P cells, first face reached after the fraction t of it */
    De[0] = hs_f32("e",0.0009765625,64); double u[3], P[3], s[3], r[3];
    int sb = sg&1 ? -1 : 1, sc = sg>>1&1 ? -1 : 1; Dn[0] = sb*hs_f32("n0",0.0625,8); Dn[1] = sc*hs_f32("n1",0.0625,8);
    u[a] = in*para*sqrtf(2*De[0]); u[b] = perp*Dn[0]; u[c] = perp*Dn[1]; s[a] = in; s[b] = sb; s[c] = sc;
    for (int k=0; k<3; k++) P[k] = hs_f32("P",1,hs_sampled() ? 2 : 1024);
    double t1 = hs_f32("t",0,hs_sampled() ? 1.25 : 1024), t2 = hs_f32("t",0,hs_sampled() ? 1.5 : 1024); hs_assume(t1<=P[b]-0.0009765625); hs_assume(t2<=P[c]-0.0009765625);
    r[a] = -in; r[b] = s[b]*(1-2*t1/P[b]); r[c] = s[c]*(1-2*t2/P[c]); Dc[0] = 0.5*(r[b]+1); Dc[1] = 0.5*(r[c]+1); Dc[2] = hs_f32("age",0.0009765625,0.99999994);
    double g2 = u[0]*u[0]+u[1]*u[1]+u[2]*u[2]+1; hs_name(g2); double gam = sqrt(g2), rd[3]; for (int k=0; k<3; k++) rd[k] = s[k]*gam/(u[k]*Dc[2]*P[k]);
    g->rdx = rd[0]; g->rdy = rd[1]; g->rdz = rd[2];
    emitter_t *el = NULL, *em = append_emitter(child_langmuir(sp,ia,fa,aa,pool,1,para,perp,hs_sampled() ? 0 : hs_f32("thresh",0,0.03125),nrm),&el); size_emitter(em,1)[0] = COMPONENT_ID(v,vh_bnd[face]);
    sp->np = 2; sp->nm = 1; sp->p[0].w = 7; sp->p[1].i = -3;
    apply_emitter_list(el);
    hs_chk(sp->np==3,"one particle emitted"); hs_chk(sp->p[0].w==7 && sp->p[1].i==-3,"other particles untouched");
    particle_t e, *p = sp->p+2; e.i = v; e.dx = r[0]; e.dy = r[1]; e.dz = r[2]; e.ux = u[0]; e.uy = u[1]; e.uz = u[2]; e.w = p->w;
    accumulate_rhob(fb->f,&e,g,-q); sq->p[2] = e; particle_mover_t pm[1]; pm->dispx = s[0]/P[0]; pm->dispy = s[1]/P[1]; pm->dispz = s[2]/P[2]; pm->i = 2; int m = move_p(sq->p,pm,ab->a,g,q);
    particle_t *o = sq->p+2; hs_chk(p->i==o->i,"cell after ageing");
    for (int k=0; k<3; k++) { hs_near_at((&p->dx)[k],(&o->dx)[k],1e-5,"position after ageing",ax[k],0,0,0); hs_near_at((&p->ux)[k],(&o->ux)[k],1e-5,"momentum",ax[k],0,0,0); }
    hs_chk(sp->nm==1+m,"movers"); if (m) { particle_mover_t *x = sp->pm+1; hs_chk(x->i==2,"mover names the particle"); hs_near(x->dispx,pm->dispx,1e-5,"unspent displacement"); hs_near(x->dispy,pm->dispy,1e-5,"unspent displacement"); hs_near(x->dispz,pm->dispz,1e-5,"unspent displacement"); }
    for (int k=0; k<g->nv; k++) for (int j=0; j<12; j++) hs_near_at(aa->a[k].jx[j],ab->a[k].jx[j],1e-4,"current of the ageing","j",k,j,0);
    fields(fa,fb); return;
  }
  if (op==2) {
    int list = hs_cfg(1), nem = hs_cfg(2), roomp = hs_cfg(3), roomm = hs_cfg(4), qs = hs_cfg(5);
    g = vh_grid(3,2,2,222222,0); g->dt = 0.25f; g->cvac = 1; g->eps0 = 2; g->dx = 0.25f; g->rdx = 4; g->dy = 1; g->rdy = 1; g->dz = 4; g->rdz = 0.25f; g->dV = 1; g->r8V = 0.125f;
    float q = qs*hs_f32("q",0.125,2), m = hs_f32("m",0.25,2); species_t *sl = NULL, *sp = append_species(species("s",q,m,roomp,roomm+1,0,0,g),&sl); sp->max_nm = roomm; roomp = sp->max_np = roomp ? sp->max_np : 0; double tp = 1e-6;
    field_array_t *fa = vh_fields(g,1,0), *fb = vh_fields(g,1,0); memset(fa->f,0,sizeof(field_t)*g->nv); for (int v=0; v<g->nv; v++) fa->f[v].rhob = hs_f32("rhob",-1,1); memcpy(fb->f,fa->f,sizeof(field_t)*g->nv);
    accumulator_array_t *aa = new_accumulator_array(g); clear_accumulator_array(aa); interpolator_array_t *ia = new_interpolator_array(g); memset(ia->i,0,sizeof(interpolator_t)*g->nv);
#ifdef OWN_MOVE
    mq = q; mg = g; ma = aa->a;
#endif
    /* component lists: cell, face (6..: not a face) */
    static const int L[6][4][4] = { {{1,1,1,0},{1,1,1,4},{3,2,2,3},{0}}, {{2,1,2,1},{2,1,2,5},{1,2,1,2},{0}}, {{3,1,1,3},{3,1,1,6},{1,1,1,0},{0}}, {{1,1,2,2},{2,2,1,4},{2,2,1,7},{0}}, {{1,2,2,5},{1,2,2,5},{1,1,2,1},{0}}, {{0}} };
    int comp[4], face[4], vox[4], k = 0, want = 0; while (k<4 && L[list][k][0]) { vox[k] = VOXEL(L[list][k][0],L[list][k][1],L[list][k][2],3,2,2); face[k] = L[list][k][3]; comp[k] = COMPONENT_ID(vox[k],face[k]<6 ? vh_bnd[face[k]] : face[k]==6 ? 13 : 26); k++; }
    for (int v=0; v<g->nv; v++) { float *f = (float*)(ia->i+v); f[0] = hs_f32("ex",-4,4); f[4] = hs_f32("ey",-4,4); f[8] = hs_f32("ez",-4,4); for (int j=0; j<12; j++) if (j&3) f[j] = hs_f32("de",-1,1); }
    double para = hs_f32("ut_para",0.0625,2), perp = hs_f32("ut_perp",0,2), nrm = hs_f32("norm",0.125,2), th = hs_f32("thresh",0.0625,2);
    for (int i=0; i<64; i++) De[i] = hs_f32("e",0.0009765625,64); for (int i=0; i<128; i++) Dn[i] = hs_f32("n",-8,8); for (int i=0; i<256; i++) Dc[i] = hs_f32("c",0.0009765625,0.9990234375);
    for (int i=0; i<85; i++) {}
    emitter_t *el = NULL, *em = append_emitter(child_langmuir(sp,ia,fa,aa,pool,nem,para,perp,th,nrm),&el); int32_t *cm = size_emitter(em,k); for (int i=0; i<k; i++) cm[i] = comp[i];
    int agec[64], nag = 0, mvs = 0; int ei = 0, ni = 0, ci = 0, np = 0, aged = roomm>0, left = 0; 
    apply_emitter_list(el);
    for (int i=0; i<k; i++) {
      if (face[i]>=6) continue;
      int a = face[i]%3, in = face[i]<3 ? 1 : -1, b = (a+1)%3, c = (a+2)%3; double E = ((float*)(ia->i+vox[i]))[4*a]; if (!(in*qs*E>th)) { hs_reach("below the threshold"); continue; }
      hs_reach("emits");
      for (int j=0; j<nem; j++) {
        if (np>=roomp) { left++; continue; }
        particle_t *p = sp->p+np++; static const double area[3] = { 4,1,0.25 }, rd[3] = { 4,1,0.25 }; float *x = &p->dx, *u = &p->ux;
        if (np>sp->np) break;
        hs_chk(p->i==vox[i],"cell of the face"); hs_near_at(x[a],-in,tp,"on the face",ax[a],i,j,0);
        hs_near_at(x[b],2.0*Dc[ci]-1,tp,"anywhere on the face",ax[b],i,j,0); hs_near_at(x[c],2.0*Dc[ci+1]-1,tp,"anywhere on the face",ax[c],i,j,0); int c0 = ci; ci += 2; if (mvs<roomm) { if (nag<64) agec[nag] = ci; ci++; if (nag&1) mvs++; nag++; }
        hs_chk(in*u[a]>=0,"moving inwards"); hs_near_at((double)u[a]*u[a],2*para*para*De[ei],1e-3,"normal momentum",ax[a],i,j,0); ei++;
        hs_near_at(u[b],perp*Dn[ni],1e-4,"tangential momentum",ax[b],i,j,0); hs_near_at(u[c],perp*Dn[ni+1],1e-4,"tangential momentum",ax[c],i,j,0); ni += 2;
        double W = (double)p->w; hs_chk(W>=0,"weight is not negative"); hs_near_at(W*W*(qs*q)*m*nem*nem, nrm*nrm*4*0.0625*rd[a]*area[a]*area[a]*(in*qs*E)*(in*qs*E)*(in*qs*E),1e-3,"Child law weight",ax[a],i,j,0);
        particle_t e = *p; (&e.dx)[a] = -in; (&e.dx)[b] = 2*Dc[c0]-1; (&e.dx)[c] = 2*Dc[c0+1]-1; accumulate_rhob(fb->f,&e,g,-q);
      }
    }
    hs_chk(sp->np==np,"number of emitted particles"); hs_chk(sp->np<=roomp,"within the storage"); 
#ifdef OWN_MOVE
    int M = 0; hs_chk(nmv==nag,"every particle aged while there is room"); 
    for (int i=0; i<nmv; i++) {
      hs_chk(MV[i].i==i,"every emitted particle in turn"); particle_t *p = sp->p+i; double g2 = (double)p->ux*p->ux+(double)p->uy*p->uy+(double)p->uz*p->uz+1, T = Dc[agec[i]]*0.25; const float *d = &MV[i].m.dispx, *u = &p->ux; static const double rd[3] = { 4,1,0.25 };
      for (int k=0; k<3; k++) { hs_near_at((double)d[k]*d[k]*g2,T*T*u[k]*u[k]*rd[k]*rd[k],1e-3,"displacement of the random age",ax[k],i,0,0); for (int l=0; l<k; l++) hs_near_at((double)d[k]*u[l]*rd[l],(double)d[l]*u[k]*rd[k],1e-3,"along the momentum",ax[k],i,0,0); hs_chk(1,"-"); }
      if (MV[i].r) { hs_chk(sp->nm>M && sp->pm[M].i==i,"mover kept"); if (sp->nm>M) hs_near(sp->pm[M].dispx,MV[i].m.dispx*0.5,1e-6,"mover as left by move_p"); M++; }
    }
    hs_chk(sp->nm==M && M<=roomm,"movers within their storage");
    for (int i=0; i<nmv; i++) { hs_near((double)MV[i].p.dx+MV[i].p.dy+MV[i].p.dz,(double)sp->p[i].dx+sp->p[i].dy+sp->p[i].dz,1e-6,"aged from where it was emitted"); }
#else
    hs_chk(sp->nm==0,"no movers");
#endif

    if (!aged) for (int v=0; v<g->nv; v++) for (int j=0; j<12; j++) hs_near(aa->a[v].jx[j],0,0,"no current without ageing");
    fields(fa,fb); return;
  }
  int what = hs_cfg(1); g = vh_grid(2,2,2,222222,0); grid_t *h = vh_grid(2,2,2,222222,0);
  species_t *sl = NULL, *sp = append_species(species("s",1,1,8,8,0,0,g),&sl), *l2 = NULL, *sq = append_species(species("s",1,1,8,8,0,0,h),&l2); field_array_t *fa = vh_fields(g,1,0); accumulator_array_t *aa = new_accumulator_array(g); interpolator_array_t *ia = new_interpolator_array(g);
  emitter_t *el = NULL; int ok = what>=12; hs_chk(num_emitter(el)==0,"empty list"); if (!ok) hs_expect_exit(1); float pa = hs_f32("ut_para",0,2), pe = hs_f32("ut_perp",0,2), t = hs_f32("t",0,1), neg = hs_f32("neg",-2,-0.0009765625);
  if (what==0) child_langmuir(NULL,ia,fa,aa,pool,1,pa,pe,t,1);
  if (what==1) child_langmuir(sp,ia,fa,aa,NULL,1,pa,pe,t,1);
  if (what==2) child_langmuir(sq,ia,fa,aa,pool,1,pa,pe,t,1);
  if (what==3) child_langmuir(sp,ia,fa,aa,pool,(int)-hs_choose("n",2),pa,pe,t,1);
  if (what==4) child_langmuir(sp,ia,fa,aa,pool,1,neg,pe,t,1);
  if (what==5) child_langmuir(sp,ia,fa,aa,pool,1,pa,neg,t,1);
  if (what==6) child_langmuir(sp,ia,fa,aa,pool,1,pa,pe,neg,1);
  emitter_t *e = child_langmuir(sp,ia,fa,aa,pool,1,pa,pe,t,1);
  if (what==7) size_emitter(e,-1);
  if (what==8) { size_emitter(e,2); size_emitter(e,3); }
  if (what==9) maxwellian_reflux(NULL,pool);
  if (what==10) set_reflux_temp(maxwellian_reflux(sl,pool),sp,neg,pe);
  if (what==11) set_reflux_temp(maxwellian_reflux(sl,pool),sp,pa,neg);
  if (!ok) { hs_chk(0,"refused"); return; }
  append_emitter(e,&el); append_emitter(e,&el); emitter_t *e2 = append_emitter(child_langmuir(sp,ia,fa,aa,pool,2,pa,pe,t,1),&el); hs_chk(num_emitter(el)==2,"each emitter once"); int32_t *c = size_emitter(e,5); hs_chk(((size_t)c&127)==0 && hs_obj_size(c)>=5*4,"component list"); hs_chk(size_emitter(e2,0)==NULL || e2->n_component==0,"empty list");
  apply_emitter_list(NULL); hs_chk(sp->np==0,"nothing emitted"); delete_emitter_list(el); hs_chk(hs_is_freed(e) && hs_is_freed(e2) && hs_is_freed(c),"released");
}
