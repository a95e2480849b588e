// Field kernels through the public kernel table, on an arbitrary field state, any walls, any domain layout.
// cfg: op nx ny nz px py pz codes nmat damp(0/1) n_pipeline mode sym nonuni mask
#include "vw.h"
enum { ADV_E, DIV_E, RHOB_, DIV_B, RMS_E, RMS_B, CLEAN_E, CLEAN_B, EN_F, CURL_B, SYNC_EB, SYNC_JF, SYNC_RHO, ADV_B, CLR_JF, CLR_RHOF, RHOB_DIV };
static double CO(vh_world &W, int k, int c, int a) {            /* coefficient: c 0 drive, 1 decay, 2 eps (edge a), 3 rmu (face a) */
  const material_coefficient_t *m = ((sfa_params_t*)W.fa->params)->mc + W.id[8*k+(c==3 ? 4 : 0)+a];
  if (c==0) return a==0 ? m->drivex : a==1 ? m->drivey : m->drivez;
  if (c==1) return a==0 ? m->decayx : a==1 ? m->decayy : m->decayz;
  if (c==2) return a==0 ? m->epsx : a==1 ? m->epsy : m->epsz;
  return a==0 ? m->rmux : a==1 ? m->rmuy : m->rmuz;
}
static double NC(vh_world &W, int k) { return ((sfa_params_t*)W.fa->params)->mc[W.id[8*k+3]].nonconductive; }
#define NB(q,a,s) int q[3] = { p[0],p[1],p[2] }; q[a] += (s);
static double curl(vh_world &W, const double *o, const double *P, int a, const int *p) {
  int Y = (a+1)%3, Z = (a+2)%3; NB(qy,Y,-1) NB(qz,Z,-1)
  int k = W.V(p), ky = W.V(qy), kz = W.V(qz);
  return P[Y]*(o[16*k+CBX+Z]*CO(W,k,3,Z)-o[16*ky+CBX+Z]*CO(W,ky,3,Z)) - P[Z]*(o[16*k+CBX+Y]*CO(W,k,3,Y)-o[16*kz+CBX+Y]*CO(W,kz,3,Y));
}
void hs_main(void) {
  int op = hs_cfg(0), nmat = hs_cfg(8);
  vh_threads(hs_cfg(10), hs_cfg(11));
  vh_world W; W.init(hs_cfg(1),hs_cfg(2),hs_cfg(3), hs_cfg(4),hs_cfg(5),hs_cfg(6), hs_cfg(7), hs_cfg(12), hs_cfg(13));
  grid_t *g = W.g; int mask = hs_cfg(14); if (mask<=0) mask = 0xffff;
  W.fields(nmat, 0.f, mask, 1);
  vh_coef(W.fa);
  sfa_params_t *sp = (sfa_params_t*)W.fa->params;
  if (hs_cfg(9)) sp->damp = hs_f32("damp",0,0.5);
  float frac = op==ADV_B ? hs_f32("frac",0.25,1) : 1;
  double dm = sp->damp, P[3], Q[3], rd[3] = { g->rdx, g->rdy, g->rdz }, cj = (double)g->dt/g->eps0, sum = 0, en[6], want[6] = {0,0,0,0,0,0};
  const field_advance_kernels_t *K = W.fa->kernel;
  for (int a=0; a<3; a++) { P[a] = W.n[a]>1 ? (op==CURL_B ? 1 : op==ADV_B ? (double)frac : 1+dm)*W.cdt[a] : 0; Q[a] = W.n[a]>1 ? rd[a] : 0; }
  double alpha = 0.3888889/(Q[0]*Q[0]+Q[1]*Q[1]+Q[2]*Q[2]);
  double dV[VW_MAX], vol = 0;
  for (int r=0; r<W.nr; r++) { dV[r] = W.nr==1 ? (double)g->dV : (double)W.h[r][0]*W.h[r][1]*W.h[r][2]; vol += W.n[0]*W.n[1]*W.n[2]*dV[r]; }
  switch (op) {
  case ADV_E: case CURL_B:
    vw_ghost_tang_b(W);
    for (int r=0; r<W.nr; r++) {
      double *o = W.snap(r);
      for (int a=0; a<3; a++) VW_ALL(W,EX+a) {
        int k = W.V(p);
        double tca = curl(W,o,P,a,p);
        if (op==ADV_E) { tca -= dm*o[16*k+TCAX+a]; W.put(r,EX+a,p, CO(W,k,1,a)*o[16*k+EX+a] + CO(W,k,0,a)*(tca-cj*o[16*k+JFX+a])); }
        W.put(r,TCAX+a,p,tca);
      }
      free(o);
    }
    vw_wall_tang(W,EX,1<<PEC,0); vw_wall_tang(W,TCAX,1<<PEC,0);
    if (op==ADV_E) K->advance_e(W.fa,1); else K->compute_curl_b(W.fa);
    break;
  case DIV_E: case RHOB_: case RHOB_DIV:
    vw_ghost_norm_e(W);
    for (int r=0; r<W.nr; r++) VW_ALL(W,RHOB) {
      int k = W.V(p); double d = 0;
      for (int a=0; a<3; a++) { NB(q,a,-1) int kq = W.V(q); d += Q[a]*(CO(W,k,2,a)*W.at(r,EX+a,p)-CO(W,kq,2,a)*W.at(r,EX+a,q)); }
      if (op==DIV_E) W.put(r,DIVE,p, NC(W,k)*(d-(W.at(r,RHOF,p)+W.at(r,RHOB,p))/g->eps0));
      else W.put(r,RHOB,p, NC(W,k)*(g->eps0*d-W.at(r,RHOF,p)));
    }
    if (op==DIV_E) { vw_wall_node(W,DIVE,(1<<PEC)|(1<<ABSORB),0); K->compute_div_e_err(W.fa); }
    else { vw_wall_node(W,RHOB,1<<PEC,0); K->compute_rhob(W.fa); }
    if (op==RHOB_DIV) {
      /* the bound charge just computed makes the error vanish in nonconductors away from absorbing walls */
      W.check("after compute_rhob");
      K->compute_div_e_err(W.fa);
      VW_ALL(W,DIVE) {
        int k = W.V(p), out = 0; for (int b=0; b<6; b++) if (W.nb[W.me][b]<0 && W.code[W.me][b]==PEC && p[b%3]==(b<3 ? 1 : W.n[b%3]+1)) out = 1;
        if (!out) { double nc = NC(W,k); hs_near_at(nc*FC(W.fa->f+k,DIVE), 0, nc==1 || nc==0 ? 1e-4 : 1e-4, "div E error after compute_rhob", "", p[0],p[1],p[2]); }
      }
      return;
    }
    break;
  case DIV_B:
    for (int r=0; r<W.nr; r++) VW_ALL(W,DIVB) {
      double d = 0; for (int a=0; a<3; a++) { NB(q,a,1) d += Q[a]*(W.at(r,CBX+a,q)-W.at(r,CBX+a,p)); }
      W.put(r,DIVB,p,d);
    }
    K->compute_div_b_err(W.fa);
    break;
  case RMS_E: case RMS_B: {
    for (int r=0; r<W.nr; r++) {
      int c = op==RMS_E ? DIVE : DIVB;
      VW_ALL(W,c) { double w = 1; if (op==RMS_E) for (int a=0; a<3; a++) if (p[a]==1 || p[a]==W.n[a]+1) w *= 0.5; double e = W.at(r,c,p); sum += dV[r]*w*e*e; }
    }
    double want1 = g->eps0*sqrt(sum/vol);
    double got = op==RMS_E ? K->compute_rms_div_e_err(W.fa) : K->compute_rms_div_b_err(W.fa);
    hs_near(got, want1, 1e-5, "rms error");
    break; }
  case CLEAN_E:
    for (int r=0; r<W.nr; r++) for (int a=0; a<3; a++) VW_ALL(W,EX+a) { NB(q,a,1) W.put(r,EX+a,p, W.at(r,EX+a,p) + CO(W,W.V(p),0,a)*alpha*Q[a]*(W.at(r,DIVE,q)-W.at(r,DIVE,p))); }
    vw_wall_tang(W,EX,1<<PEC,0); vw_wall_tang(W,TCAX,1<<PEC,0);
    K->clean_div_e(W.fa);
    break;
  case CLEAN_B:
    vw_ghost_div_b(W);
    for (int r=0; r<W.nr; r++) for (int a=0; a<3; a++) VW_ALL(W,CBX+a) { NB(q,a,-1) W.put(r,CBX+a,p, W.at(r,CBX+a,p) + alpha*Q[a]*(W.at(r,DIVB,p)-W.at(r,DIVB,q))); }
    vw_wall_norm(W,CBX,1<<SYM);
    K->clean_div_b(W.fa);
    break;
  case EN_F:
    for (int r=0; r<W.nr; r++) for (int z=1; z<=W.n[2]; z++) for (int y=1; y<=W.n[1]; y++) for (int x=1; x<=W.n[0]; x++) for (int a=0; a<3; a++) {
      int p[3] = { x,y,z };
      for (int i=0; i<2; i++) for (int j=0; j<2; j++) {
        NB(q,(a+1)%3,i) q[(a+2)%3] += j;
        double e = W.at(r,EX+a,q); want[a] += 0.25*dV[r]*CO(W,W.V(q),2,a)*e*e;
      }
      for (int i=0; i<2; i++) { NB(q,a,i) double b = W.at(r,CBX+a,q); want[3+a] += 0.5*dV[r]*CO(W,W.V(q),3,a)*b*b; }
    }
    K->energy_f(en,W.fa);
    for (int i=0; i<6; i++) hs_near_at(en[i], 0.5*(double)g->eps0*want[i], 1e-4, "field energy", "component", i,0,0);
    break;
  case SYNC_EB: {
    double e2 = 0;
    vw_wall_tang(W,EX,1<<PEC,0); vw_wall_tang(W,TCAX,1<<PEC,0); vw_wall_norm(W,CBX,1<<SYM);
    for (int a=0; a<3; a++) {
      e2 += vw_share(W,a,CBX+a,0);
      for (int t=1; t<=2; t++) { e2 += vw_share(W,a,EX+(a+t)%3,0); vw_share(W,a,TCAX+(a+t)%3,0); }
    }
    double err = K->synchronize_tang_e_norm_b(W.fa);
    hs_near(err, e2, 1e-4, "desynchronisation error");
    break; }
  case SYNC_JF:
    vw_wall_tang(W,JFX,1<<PEC,0); vw_wall_tang(W,JFX,(1<<SYM)|(1<<PMC)|(1<<ABSORB),2);
    for (int a=0; a<3; a++) for (int t=1; t<=2; t++) vw_share(W,a,JFX+(a+t)%3,1);
    K->synchronize_jf(W.fa);
    break;
  case SYNC_RHO:
    vw_wall_node(W,RHOF,1<<PEC,0); vw_wall_node(W,RHOF,(1<<SYM)|(1<<PMC)|(1<<ABSORB),2); vw_wall_node(W,RHOB,1<<PEC,0);
    for (int a=0; a<3; a++) { vw_share(W,a,RHOF,1); vw_share(W,a,RHOB,2); }
    K->synchronize_rho(W.fa);
    break;
  case ADV_B:
    for (int r=0; r<W.nr; r++) for (int a=0; a<3; a++) VW_ALL(W,CBX+a) {
      int Y = (a+1)%3, Z = (a+2)%3; NB(qy,Y,1) NB(qz,Z,1)
      W.put(r,CBX+a,p, W.at(r,CBX+a,p) - (P[Y]*(W.at(r,EX+Z,qy)-W.at(r,EX+Z,p)) - P[Z]*(W.at(r,EX+Y,qz)-W.at(r,EX+Y,p))));
    }
    vw_wall_norm(W,CBX,1<<SYM);
    K->advance_b(W.fa,frac);
    break;
  case CLR_JF: for (int k=0; k<W.nv; k++) for (int a=0; a<3; a++) W.v[W.me][16*k+JFX+a] = 0; K->clear_jf(W.fa); break;
  case CLR_RHOF: for (int k=0; k<W.nv; k++) W.v[W.me][16*k+RHOF] = 0; K->clear_rhof(W.fa); break;
  }
  W.check("fields after the call");
  hs_chk(!hs_mpi_pending(), "no message left in flight");
}
