// Moments and kinetic energy of one arbitrary particle among np particles at rest.
// cfg: op(0 hydro 1 energy) nx ny nz np lane n_pipeline mode fam cell
// fam: bit 0 E and its gradients arbitrary, bits 1..3 Bx,By,Bz arbitrary, bit 4 gradients of B arbitrary
#include "vh.h"
#include <math.h>
static int n[3];
static int V(int x, int y, int z) { return VOXEL(x,y,z,n[0],n[1],n[2]); }
void hs_main(void) {
  int op = hs_cfg(0); for (int a=0; a<3; a++) n[a] = hs_cfg(1+a);
  int np = hs_cfg(4), lane = hs_cfg(5), fam = hs_cfg(8), cell = hs_cfg(9);
  vh_threads(hs_cfg(6),hs_cfg(7));
  grid_t *g = vh_grid(n[0],n[1],n[2],0,0);
  g->dt = 0.5f; g->cvac = 4; g->dx = 0.5f; g->dy = 2; g->dz = 0.25f; g->rdx = 2; g->rdy = 0.5f; g->rdz = 4; g->dV = 0.25f; g->r8V = 0.5f;
  float q = hs_f32("q",-2,2), m = 2; const double c = 4, kick = (double)q*0.5/(2*2*4);
  species_t *sp = species("s",q,m,np+8,16,0,0,g); sp->np = np;
  interpolator_array_t *ia = new_interpolator_array(g); memset(ia->i,0,sizeof(interpolator_t)*g->nv);
  int nc = n[0]*n[1]*n[2], cx = 1+cell%n[0], cy = 1+cell/n[0]%n[1], cz = 1+cell/n[0]/n[1], v = V(cx,cy,cz);
  double *rho = (double*)calloc(g->nv,sizeof(double));
  for (int i=0; i<np+8; i++) {                        /* bystanders at rest in the other cells */
    particle_t *p = sp->p+i; int k = (cell+1+i%(nc-1))%nc; p->dx = 0.25f-(i%3)*0.5f; p->dy = -0.5f+(i%5)*0.25f; p->dz = 0.125f*(i%7)-0.25f; p->i = V(1+k%n[0],1+k/n[0]%n[1],1+k/n[0]/n[1]); p->ux = p->uy = p->uz = 0; p->w = 1+i%4;
    if (i>=np) { p->ux = 3; p->w = 77; }
    if (i!=lane && i<np) for (int j=0; j<8; j++) rho[p->i+(j&1)+(j>>1&1)*(n[0]+2)+(j>>2)*(n[0]+2)*(n[1]+2)] += q*p->w*0.5*(j&1 ? 1+(double)p->dx : 1-(double)p->dx)*(j&2 ? 1+(double)p->dy : 1-(double)p->dy)*(j&4 ? 1+(double)p->dz : 1-(double)p->dz);
  }
  particle_t *p = sp->p+lane;
  p->dx = hs_f32("x",-1,1); p->dy = hs_f32("y",-1,1); p->dz = hs_f32("z",-1,1); p->i = v; p->ux = hs_f32("ux",-2,2); p->uy = hs_f32("uy",-2,2); p->uz = hs_f32("uz",-2,2); p->w = hs_f32("w",0,2);
  double x[3] = { p->dx,p->dy,p->dz }, u[3] = { p->ux,p->uy,p->uz }, w = p->w, B[3], E[3] = { 0,0,0 };
  interpolator_t *f = ia->i+v; float *fe[3] = { &f->ex,&f->ey,&f->ez }, *fb[3] = { &f->cbx,&f->cby,&f->cbz };
  for (int a=0; a<3; a++) {
    if (fam&1) for (int k=0; k<4; k++) fe[a][k] = hs_f32("e",-2,2);
    if (fam>>(1+a)&1) { fb[a][0] = hs_f32("b",-2,2); if (fam&16) fb[a][1] = hs_f32("db",-2,2); }
    int b = (a+1)%3, d = (a+2)%3;
    E[a] = fe[a][0]+x[b]*fe[a][1]+x[d]*(fe[a][2]+x[b]*fe[a][3]); B[a] = fb[a][0]+x[a]*fb[a][1]; hs_name(B[a]);
  }
  for (int a=0; a<3; a++) { u[a] += kick*E[a]; hs_name(u[a]); }
  double u2 = u[0]*u[0]+u[1]*u[1]+u[2]*u[2]; hs_name(u2); hs_name(1+u2); double gam = sqrt(1+u2); hs_name(1+gam); double ke = c*c*m*u2/(1+gam);
  particle_t *old = (particle_t*)malloc(sizeof(particle_t)*(np+8)); memcpy(old,sp->p,sizeof(particle_t)*(np+8));
  if (op==1) {
    if (hs_rank()>=0 && world_size>1) { p->w *= 1+world_rank; double t = 0; for (int r=0; r<world_size; r++) t += 1+r; w *= t; }
    double en = energy_p(sp,ia); hs_near(en,w*ke,1e-3,"kinetic energy of the species"); return;
  }
  hydro_array_t *ha = new_hydro_array(g); clear_hydro_array(ha); int na = ha->n_pipeline+1;
  double *was = (double*)calloc(14*g->nv,sizeof(double));
  for (int j=0; j<8; j++) { int k = v+(j&1)+(j>>1&1)*(n[0]+2)+(j>>2)*(n[0]+2)*(n[1]+2); for (int s=0; s<14; s++) { float *h = (float*)(ha->h+k)+s; *h = hs_f32("h",-1,1); was[14*k+s] = *h; } }
  /* half a rotation: tangent of the quarter angle by its series to fifth order */
  double B2 = B[0]*B[0]+B[1]*B[1]+B[2]*B[2], t0 = kick/2/gam; hs_name(B2);
  double t2 = t0*t0*B2, t = t0*(1+t2/3+t2*t2*2/15); hs_name(t); hs_name(1+B2*t*t); double s = 2*t/(1+B2*t*t), r[3], uh[3];
  for (int a=0; a<3; a++) { int b = (a+1)%3, d = (a+2)%3; r[a] = u[a]+t*(u[b]*B[d]-u[d]*B[b]); hs_name(r[a]); }
  for (int a=0; a<3; a++) { int b = (a+1)%3, d = (a+2)%3; uh[a] = u[a]+s*(r[b]*B[d]-r[d]*B[b]); hs_name(uh[a]); }
  double wt[8]; for (int j=0; j<8; j++) { wt[j] = w*0.5*(j&1 ? 1+x[0] : 1-x[0])*(j&2 ? 1+x[1] : 1-x[1])*(j&4 ? 1+x[2] : 1-x[2]); hs_name(wt[j]); }
  accumulate_hydro_p(ha,sp,ia);
  hs_chk(sp->np==np,"particle count unchanged"); hs_chk(hs_native() || 1,"");
  for (int i=0; i<np+8; i++) { hs_chk(sp->p[i].i==old[i].i,"particle cell unchanged"); const float *a = &sp->p[i].dx, *b = &old[i].dx; for (int k=0; k<8; k++) if (k!=3) hs_near(a[k],b[k],0,"particle unchanged"); }
  for (int k=0; k<g->nv; k++) {
    double got[14]; for (int j=0; j<14; j++) { got[j] = 0; for (int r=0; r<na; r++) got[j] += ((float*)(ha->h+(size_t)r*ha->stride+k))[j]; }
    int d = k-v, hit = -1; for (int j=0; j<8; j++) if (d==(j&1)+(j>>1&1)*(n[0]+2)+(j>>2)*(n[0]+2)*(n[1]+2)) hit = j;
    int kx = k%(n[0]+2), ky = k/(n[0]+2)%(n[1]+2), kz = k/(n[0]+2)/(n[1]+2);
    double N = 0; if (hit>=0) N = wt[hit];
    double M = N*m*c, g1 = c/gam;
    double want[14] = { q*N*uh[0]*g1, q*N*uh[1]*g1, q*N*uh[2]*g1, q*N+rho[k], M*uh[0], M*uh[1], M*uh[2], N*ke, M*uh[0]*uh[0]*g1, M*uh[1]*uh[1]*g1, M*uh[2]*uh[2]*g1, M*uh[1]*uh[2]*g1, M*uh[2]*uh[0]*g1, M*uh[0]*uh[1]*g1 };
    static const char *nm[14] = { "jx","jy","jz","rho","px","py","pz","ke","txx","tyy","tzz","tyz","tzx","txy" };
    for (int j=0; j<14; j++) hs_near_at(got[j],was[14*k+j]+want[j],2e-2,"moment",nm[j],kx,ky,kz);
  }
}
