/* A set of domains ("world") described by plain arrays: reference model of the ghost, wall and exchange rules.
   Every process computes the reference for all domains; the real code of process r is compared with domain r. */
#ifndef vw_h
#define vw_h
#include "vh.h"
#define VW_MAX 8
enum { K_E = 0, K_B = 1, K_NODE = 2, K_CELL = 3 };
static inline int vw_kind(int c) { return c<=EZ || (c>=TCAX && c<=TCAZ) || (c>=JFX && c<=JFZ) ? K_E : c>=CBX && c<=CBZ ? K_B : c==DIVB ? K_CELL : K_NODE; }
static inline int vw_axis(int c) { return c&3; }
struct vh_world {
  int nr, n[3], me, nv; int code[VW_MAX][6], nb[VW_MAX][6]; float h[VW_MAX][3];
  double *v[VW_MAX]; double *tol; double T; grid_t *g; field_array_t *fa; material_id *id;
  double cdt[3];
  int V(const int *p) const { return VOXEL(p[0],p[1],p[2],n[0],n[1],n[2]); }
  double &at(int r, int c, const int *p) { return v[r][16*V(p)+c]; }
  void put(int r, int c, const int *p, double x) { int i = 16*V(p)+c; v[r][i] = x; if (r==me) tol[i] = T; }
  int ext(int c, int a) const { int k = vw_kind(c); return k==K_NODE ? n[a]+1 : k==K_CELL ? n[a] : (k==K_E) == (vw_axis(c)==a) ? n[a] : n[a]+1; }
  /* layout px*py*pz of domains; codes as vh_grid (0: periodic in that direction); nonuni: cell sizes differ between domains */
  void init(int nx, int ny, int nz, int px, int py, int pz, int codes, int sym, int nonuni) {
    n[0] = nx; n[1] = ny; n[2] = nz; nr = px*py*pz; T = 2e-5; nv = (nx+2)*(ny+2)*(nz+2);
    int P[3] = { px, py, pz }, cd[6];
    for (int b=5; b>=0; b--) { cd[b] = codes%10; codes /= 10; }
    vh_boot(); me = hs_rank();
    for (int r=0; r<nr; r++) {
      int i[3] = { r%px, (r/px)%py, r/(px*py) };
      for (int b=0; b<6; b++) {
        int a = b%3, hi = b>=3, j[3] = { i[0], i[1], i[2] };
        j[a] += hi ? 1 : -1;
        int edge = j[a]<0 || j[a]>=P[a];
        if (edge && cd[b]) { code[r][b] = cd[b]; nb[r][b] = -1; continue; }
        j[a] = (j[a]+P[a])%P[a]; code[r][b] = 0; nb[r][b] = j[0]+px*(j[1]+py*j[2]);
      }
      for (int a=0; a<3; a++) h[r][a] = nonuni && (i[a]&1) ? 2 : 1;
    }
    g = new_grid(); size_grid(g,nx,ny,nz);
    vh_metric(g,sym);
    if (!sym) { g->dx = h[me][0]; g->dy = h[me][1]; g->dz = h[me][2]; g->rdx = 1/g->dx; g->rdy = 1/g->dy; g->rdz = 1/g->dz; g->dV = g->dx*g->dy*g->dz; g->r8V = 0.125f*g->rdx*g->rdy*g->rdz; }
    cdt[0] = (double)g->cvac*g->dt*g->rdx; cdt[1] = (double)g->cvac*g->dt*g->rdy; cdt[2] = (double)g->cvac*g->dt*g->rdz;
    for (int b=0; b<6; b++)
      if (nb[me][b]>=0) join_grid(g, vh_bnd[b], nb[me][b]); else { set_fbc(g, vh_bnd[b], vh_fbc(code[me][b])); set_pbc(g, vh_bnd[b], reflect_particles); }
  }
  void fields(int nmat, float damp, int mask, int pat) {
    fa = vh_fields(g,nmat,damp);
    tol = (double*)malloc(sizeof(double)*16*nv); id = (material_id*)malloc(sizeof(material_id)*8*nv);
    for (int r=0; r<nr; r++) {
      v[r] = (double*)malloc(sizeof(double)*16*nv);
      for (int k=0; k<nv; k++) for (int c=0; c<16; c++) {
        float x = (mask>>c)&1 ? hs_f32(vh_cn[c],-1,1) : 0.f;
        v[r][16*k+c] = x; if (r==me) { FC(fa->f+k,c) = x; tol[16*k+c] = 0; }
      }
    }
    for (int k=0; k<nv; k++) { material_id *m = &fa->f[k].ematx; for (int c=0; c<8; c++) id[8*k+c] = m[c] = nmat>1 ? (k*(pat+3)+c*(pat+1)+k/7)%nmat : 0; }
  }
  double *snap(int r) { double *s = (double*)malloc(sizeof(double)*16*nv); memcpy(s,v[r],sizeof(double)*16*nv); return s; }
  void skip(int c, const int *p) { tol[16*V(p)+c] = -1; }
  void check(const char *what) {
    for (int z=0; z<=n[2]+1; z++) for (int y=0; y<=n[1]+1; y++) for (int x=0; x<=n[0]+1; x++) {
      int p[3] = { x,y,z }, k = V(p);
      for (int c=0; c<16; c++) if (tol[16*k+c]>=0) hs_near_at(FC(fa->f+k,c), v[me][16*k+c], tol[16*k+c], what, vh_cn[c], x,y,z);
      int same = 1; for (int c=0; c<8; c++) same &= (&fa->f[k].ematx)[c]==id[8*k+c];
      hs_chk(same, "material ids unchanged");
    }
  }
  /* continue from the real values (sequence of calls under test) */
  void resync(void) { for (int k=0; k<nv; k++) for (int c=0; c<16; c++) { v[me][16*k+c] = FC(fa->f+k,c); tol[16*k+c] = 0; } }
};
/* loop over plane p[a]==s of component c */
#define VW_PLANE(W,a,s,c) for (int p[3] = {1,1,1}, a1_=((a)+1)%3, a2_=((a)+2)%3, e1_=(W).ext(c,a1_), e2_=(W).ext(c,a2_), q_=(p[a]=(s),0); q_==0; q_=1) for (p[a2_]=1; p[a2_]<=e2_; p[a2_]++) for (p[a1_]=1; p[a1_]<=e1_; p[a1_]++)
/* loop over all points of component c */
#define VW_ALL(W,c) for (int p[3] = {1,1,1}, q_=0; q_==0; q_=1) for (p[2]=1; p[2]<=(W).ext(c,2); p[2]++) for (p[1]=1; p[1]<=(W).ext(c,1); p[1]++) for (p[0]=1; p[0]<=(W).ext(c,0); p[0]++)

/* value a ghost takes from the neighbouring domain's plane, for cell sizes hr (remote), hl (own) */
static double vw_remote(vh_world &W, int r, int b, int c, const int *p) {
  int a = b%3, hi = b>=3, q[3] = { p[0],p[1],p[2] }, o = W.nb[r][b];
  q[a] = hi ? 1 : W.n[a];
  double rem = W.at(o,c,q); double hr = W.h[o][a], hl = W.h[r][a];
  q[a] = hi ? W.n[a] : 1;
  double own = W.at(r,c,q);
  if (hr==hl) return rem;
  return (2*hl*rem + (hr-hl)*own)/(hr+hl);
}
static void vw_ghost_tang_b(vh_world &W) {
  for (int r=0; r<W.nr; r++) for (int b=0; b<6; b++) {
    int a = b%3, hi = b>=3, Y = (a+1)%3, Z = (a+2)%3, gh = hi ? W.n[a]+1 : 0, in = hi ? W.n[a] : 1;
    for (int t=1; t<=2; t++) {
      int d = (a+t)%3, c = CBX+d, ot = t==1 ? Z : Y;
      VW_PLANE(W,a,gh,c) {
        int q[3] = { p[0],p[1],p[2] }; q[a] = in;
        double x;
        if (W.nb[r][b]>=0) x = vw_remote(W,r,b,c,p);
        else switch (W.code[r][b]) {
          case PEC: x = W.at(r,c,q); break;
          case SYM: case PMC: x = -W.at(r,c,q); break;
          default: {                                      /* absorbing wall: one-way wave equation */
            double k = W.n[0]>1 || W.n[1]>1 || W.n[2]>1 ? (double)1.03527618f : 1, dr = W.cdt[a]*k;
            int f1[3] = { p[0],p[1],p[2] }, f2[3] = { p[0],p[1],p[2] }, u[3] = { q[0],q[1],q[2] };
            f1[a] = hi ? W.n[a] : 1; f2[a] = f1[a]+1; u[ot]++;
            double dn = W.cdt[a]*(W.at(r,EX+ot,f2)-W.at(r,EX+ot,f1)), tr = W.cdt[ot]*(W.at(r,EX+a,u)-W.at(r,EX+a,q));
            x = (1-dr)/(1+dr)*W.at(r,c,p) + 2*dr/(1+dr)*W.at(r,c,q) + (t==1 ? tr-dn : dn-tr);
          }
        }
        W.put(r,c,p,x);
      }
    }
  }
}
static void vw_ghost_norm_e(vh_world &W) {
  for (int r=0; r<W.nr; r++) for (int b=0; b<6; b++) {
    int a = b%3, hi = b>=3, gh = hi ? W.n[a]+1 : 0, in = hi ? W.n[a] : 1;
    for (int k=0; k<2; k++) {
      int c = k ? TCAX+a : EX+a;
      VW_PLANE(W,a,gh,c) {
        int q[3] = { p[0],p[1],p[2] }, u[3] = { p[0],p[1],p[2] }; q[a] = in; u[a] = hi ? in-1 : in+1;
        if (W.nb[r][b]>=0) { if (!k) W.put(r,c,p, vw_remote(W,r,b,c,p)); continue; }
        switch (W.code[r][b]) {
          case PEC: W.put(r,c,p, W.at(r,c,q)); break;
          case SYM: case PMC: W.put(r,c,p, -W.at(r,c,q)); break;
          default: W.put(r,c,p, 2*W.at(r,c,q)-W.at(r,c,u));
        }
      }
    }
  }
}
static void vw_ghost_div_b(vh_world &W) {
  for (int r=0; r<W.nr; r++) for (int b=0; b<6; b++) {
    int a = b%3, hi = b>=3, gh = hi ? W.n[a]+1 : 0, in = hi ? W.n[a] : 1;
    VW_PLANE(W,a,gh,DIVB) {
      int q[3] = { p[0],p[1],p[2] }; q[a] = in;
      if (W.nb[r][b]>=0) W.put(r,DIVB,p, vw_remote(W,r,b,DIVB,p));
      else W.put(r,DIVB,p, W.code[r][b]==PEC ? W.at(r,DIVB,q) : W.code[r][b]==ABSORB ? 0 : -W.at(r,DIVB,q));
    }
  }
}
/* component c (tangential ones of base vector c0, or the scalar c0) on every wall of the kinds in mask becomes scale*value */
static void vw_wall_tang(vh_world &W, int c0, int mask, double scale) {
  for (int r=0; r<W.nr; r++) for (int b=0; b<6; b++) if (W.nb[r][b]<0 && (mask>>W.code[r][b])&1) {
    int a = b%3, s = b>=3 ? W.n[a]+1 : 1;
    for (int t=1; t<=2; t++) { int c = c0+(a+t)%3; VW_PLANE(W,a,s,c) W.put(r,c,p, scale ? scale*W.at(r,c,p) : 0); }
  }
}
static void vw_wall_norm(vh_world &W, int c0, int mask) {
  for (int r=0; r<W.nr; r++) for (int b=0; b<6; b++) if (W.nb[r][b]<0 && (mask>>W.code[r][b])&1) {
    int a = b%3, s = b>=3 ? W.n[a]+1 : 1; VW_PLANE(W,a,s,c0+a) W.put(r,c0+a,p, 0);
  }
}
static void vw_wall_node(vh_world &W, int c, int mask, double scale) {
  for (int r=0; r<W.nr; r++) for (int b=0; b<6; b++) if (W.nb[r][b]<0 && (mask>>W.code[r][b])&1) {
    int a = b%3, s = b>=3 ? W.n[a]+1 : 1; VW_PLANE(W,a,s,c) W.put(r,c,p, scale ? scale*W.at(r,c,p) : 0);
  }
}
/* one exchange pass along axis a: component c on both shared faces becomes wl*own + wr*neighbour's */
static double vw_share(vh_world &W, int a, int c, int kind) {          /* kind 0 average, 1 twice weighted sum, 2 weighted average */
  double err = 0;
  double *old[VW_MAX]; for (int r=0; r<W.nr; r++) old[r] = W.snap(r);
  for (int r=0; r<W.nr; r++) for (int s=0; s<2; s++) {
    int b = a+3*s, o = W.nb[r][b]; if (o<0) continue;
    double hl = W.h[r][a], hr = W.h[o][a], wl = kind==0 ? 0.5 : hl/(hl+hr), wr = kind==0 ? 0.5 : hr/(hl+hr);
    if (kind==1) { wl *= 2; wr *= 2; }
    VW_PLANE(W,a,(s ? W.n[a]+1 : 1),c) {
      int q[3] = { p[0],p[1],p[2] }; q[a] = s ? 1 : W.n[a]+1;
      double w1 = old[o][16*W.V(q)+c], w2 = old[r][16*W.V(p)+c];
      W.put(r,c,p, wl*w2+wr*w1); err += (w1-w2)*(w1-w2);
    }
  }
  for (int r=0; r<W.nr; r++) free(old[r]);
  return err;
}
#endif
