// Particle sort. cfg: nx ny nz np n_pipeline mode out_of_place nsym history
// the first nsym particles have an arbitrary local cell, the others a fixed pattern; all payload bits arbitrary
#include "vh.h"
static int n[3];
static void fill(species_t *sp, int np, int nsym, int pat) {
  sp->np = np;
  for (int i=0; i<np; i++) {
    particle_t *p = sp->p+i; float *f[6] = { &p->dx,&p->dy,&p->dz,&p->ux,&p->uy,&p->uz };
    for (int k=0; k<6; k++) *f[k] = hs_f32("payload",-4,4);
    p->w = i+1;
    int x, y, z;
    if (i<nsym) { x = 1+hs_choose("x",n[0]); y = 1+hs_choose("y",n[1]); z = 1+hs_choose("z",n[2]); }
    else { unsigned h = (i*pat+pat/3)*2654435761u>>12; if (pat==1) h = 0; x = 1+h%n[0]; y = 1+h/7%n[1]; z = 1+h/49%n[2]; }
    p->i = VOXEL(x,y,z,n[0],n[1],n[2]);
  }
}
static void go(species_t *sp, grid_t *g, int step) {
  int np = sp->np, nv = g->nv;
  for (int i=0; i<np; i++) sp->p[i].w = i+1;
  particle_t *o = (particle_t*)malloc(sizeof(particle_t)*(np+1)); memcpy(o,sp->p,sizeof(particle_t)*np);
  char *seen = (char*)calloc(np+1,1);
  g->step = step;
  sort_p(sp);
  hs_chk(sp->np==np, "particle count unchanged"); hs_chk(sp->last_sorted==step, "sort time recorded");
  int last = -1;
  for (int i=0; i<np; i++) {
    const particle_t *p = sp->p+i; int t = (int)p->w-1;
    hs_chk(t>=0 && t<np && p->w==(float)(t+1), "entry is one of the particles"); if (t<0 || t>=np) return;
    hs_chk(!seen[t], "no particle duplicated"); seen[t] = 1;
    const particle_t *q = o+t;
    hs_chk(p->i==q->i, "cell unchanged"); hs_chk(p->i>=last, "nondecreasing cell order"); last = p->i;
    hs_chk(p->dx==q->dx && p->dy==q->dy && p->dz==q->dz && p->ux==q->ux && p->uy==q->uy && p->uz==q->uz, "particle unchanged");
  }
  int k = 0;
  for (int v=0; v<nv; v++) {
    hs_chk(sp->partition[v]==k, "partition start of the cell");
    while (k<np && sp->p[k].i==v) k++;
    if (v+1<nv) hs_chk(sp->partition[v+1]==k, "partition end of the cell");
  }
  free(o); free(seen);
}
void hs_main(void) {
  n[0] = hs_cfg(0); n[1] = hs_cfg(1); n[2] = hs_cfg(2);
  int np = hs_cfg(3), oop = hs_cfg(6), nsym = hs_cfg(7), his = hs_cfg(8);
  vh_threads(hs_cfg(4), hs_cfg(5));
  grid_t *g = vh_grid(n[0],n[1],n[2],0,0);
  species_t *sp = species("s",1,1,np+3,8,10,oop,g);
  if (his==3) { g->step = 5; hs_chk(sp->np==0, "a new species is empty"); go(sp,g,5); }
  fill(sp,np,nsym,his==2 ? 1 : 77); go(sp,g,7);
  if (his==1) {                                     /* again, other sizes and another species, then empty */
    species_t *s2 = species("t",1,1,2*np+5,8,10,oop,g); fill(s2,2*np+1,0,31); go(s2,g,8);
    fill(sp,np>1 ? np-1 : 0,0,5); go(sp,g,9);
    grid_t *h = new_grid(); int m[3] = { n[0],n[1],n[2] }; n[0] = m[1]+1; n[1] = m[2]; n[2] = m[0]+2; size_grid(h,n[0],n[1],n[2]);
    species_t *s3 = species("u",1,1,np+9,8,10,1-oop,h); fill(s3,np+2,0,9); go(s3,h,3);
    n[0] = m[0]; n[1] = m[1]; n[2] = m[2];
    fill(sp,0,0,5); go(sp,g,10);
    go(s2,g,11);
  }
}
