// C01: one call of advance_b on an arbitrary field state.
// cfg: nx ny nz boundary-codes n_pipeline mode
#include "vh.h"
void hs_main(void) {
  int nx = hs_cfg(0), ny = hs_cfg(1), nz = hs_cfg(2), codes = hs_cfg(3);
  vh_threads(hs_cfg(4), hs_cfg(5));
  grid_t *g = vh_grid(nx,ny,nz,codes,1);
  field_array_t *fa = vh_fields(g,1,0);
  vh_fill(fa,0xffff,1,0);
  float frac = hs_f32("frac",0.25,1);
  vh_exp X; X.init(fa);
  double px = nx>1 ? (double)frac*g->cvac*g->dt*g->rdx : 0, py = ny>1 ? (double)frac*g->cvac*g->dt*g->rdy : 0, pz = nz>1 ? (double)frac*g->cvac*g->dt*g->rdz : 0;
  double T = 2e-5;
  for (int z=1; z<=nz+1; z++) for (int y=1; y<=ny+1; y++) for (int x=1; x<=nx+1; x++) {
    if (y<=ny && z<=nz) X.set(CBX,x,y,z, X.o(CBX,x,y,z) - (py*(X.o(EZ,x,y+1,z)-X.o(EZ,x,y,z)) - pz*(X.o(EY,x,y,z+1)-X.o(EY,x,y,z))), T);
    if (z<=nz && x<=nx) X.set(CBY,x,y,z, X.o(CBY,x,y,z) - (pz*(X.o(EX,x,y,z+1)-X.o(EX,x,y,z)) - px*(X.o(EZ,x+1,y,z)-X.o(EZ,x,y,z))), T);
    if (x<=nx && y<=ny) X.set(CBZ,x,y,z, X.o(CBZ,x,y,z) - (px*(X.o(EY,x+1,y,z)-X.o(EY,x,y,z)) - py*(X.o(EX,x,y+1,z)-X.o(EX,x,y,z))), T);
  }
  /* symmetric boundaries: normal B vanishes on the wall */
  for (int b=0; b<6; b++) if (vh_code[b]==SYM)
    for (int z=1; z<=nz; z++) for (int y=1; y<=ny; y++) for (int x=1; x<=nx; x++) {
      if (b==0 && x==1) X.set(CBX,1,y,z,0,0);
      if (b==3 && x==1) X.set(CBX,nx+1,y,z,0,0);
      if (b==1 && y==1) X.set(CBY,x,1,z,0,0);
      if (b==4 && y==1) X.set(CBY,x,ny+1,z,0,0);
      if (b==2 && z==1) X.set(CBZ,x,y,1,0,0);
      if (b==5 && z==1) X.set(CBZ,x,y,nz+1,0,0);
    }
  fa->kernel->advance_b(fa, frac);
  X.check(fa,"after advance_b");
  /* in every interior cell the divergence of B is what it was, away from walls that force B */
  if (codes==0) {
    for (int z=1; z<=nz; z++) for (int y=1; y<=ny; y++) for (int x=1; x<=nx; x++) {
      #define DIVBX(A) (ddx*(A(CBX,x+1,y,z)-A(CBX,x,y,z)) + ddy*(A(CBY,x,y+1,z)-A(CBY,x,y,z)) + ddz*(A(CBZ,x,y,z+1)-A(CBZ,x,y,z)))
      #define NEW(c,x,y,z) ((double)FC(fa->f+X.V(x,y,z),c))
      double ddx = nx>1 ? g->rdx : 0, ddy = ny>1 ? g->rdy : 0, ddz = nz>1 ? g->rdz : 0;
      hs_near_at(DIVBX(NEW), DIVBX(X.o), 1e-4, "div B preserved by advance_b", "", x,y,z);
    }
  }
}
