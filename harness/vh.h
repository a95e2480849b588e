/* Shared set-up code of the harnesses: grids, field arrays, dispatchers with chosen schedules, expectations. */
#ifndef vh_h
#define vh_h
#define IN_sfa
#include "field_advance/standard/sfa_private.h"
#include "sf_interface/sf_interface.h"
#include "species_advance/species_advance.h"
#include "util/pipelines/pipelines.h"
#include "hs.h"
#include <math.h>
#include <string.h>

extern "C" void hs_task(int id);      /* engine: accesses from here belong to task id (-1: host, -2: no concurrent section) */

/* ---- dispatch: n pipelines, run at dispatch in order (mode 0), at wait in reverse order (mode 1) or interleaved
   halves (mode 2: odd ones at dispatch, even ones at wait) */
static int vh_mode = 0, vh_np = 1;
#if defined(VPIC_USE_PTHREADS)
static pipeline_func_t vh_fn; static char *vh_args; static int vh_sz, vh_str, vh_busy = 0;
static void vh_one(int p) { hs_task(p); vh_fn(vh_args + (size_t)p*vh_sz*vh_str, p, vh_np); hs_task(-1); }
static void vh_dispatch(pipeline_func_t fn, void *args, int sz, int str) {
  hs_chk(!vh_busy, "dispatch while pipelines are busy");
  vh_fn = fn; vh_args = (char*)args; vh_sz = sz; vh_str = str; vh_busy = 1;
  hs_task(-3); hs_task(-1);
  for (int p=0; p<vh_np; p++) if (vh_mode==0 || (vh_mode==2 && (p&1))) vh_one(p);
}
static void vh_wait(void) {
  if (!vh_busy) return;
  for (int p=vh_np-1; p>=0; p--) if (vh_mode==1 || (vh_mode==2 && !(p&1))) vh_one(p);
  vh_busy = 0; hs_task(-2);
}
static void vh_threads(int np, int mode) {
  vh_np = np; vh_mode = mode; thread.n_pipeline = np; thread.dispatch = vh_dispatch; thread.wait = vh_wait;
  serial.n_pipeline = 1;
}
#else
static void vh_threads(int np, int mode) { vh_np = np; vh_mode = mode; omp_helper.n_pipeline = np; omp_helper.dispatch_to_host = 1; }
#endif

static void vh_boot(void) {
  static int done = 0; static char nm[] = "vpic"; static char *av[2] = { nm, NULL };
  if (done) return;
  done = 1; int ac = 1; char **a = av;
  boot_checkpt(&ac, &a); boot_mp(&ac, &a);
}
/* ---- grids */
enum { PERIODIC = 0, PEC = 1, SYM = 2, PMC = 3, ABSORB = 4 };
static int vh_fbc(int c) { return c==PEC ? pec_fields : c==SYM ? symmetric_fields : c==PMC ? pmc_fields : absorb_fields; }
static const int vh_bnd[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1), BOUNDARY(1,0,0), BOUNDARY(0,1,0), BOUNDARY(0,0,1) };
/* metrics: free positive reals in [0.5,2] (dyadic choice of constants when sym==0) */
static void vh_metric(grid_t *g, int sym) {
  float rx=1, ry=2, rz=0.5, dt=0.25, c=1, e=1;
  if (sym) { rx = hs_f32("rdx",0.5,2); ry = hs_f32("rdy",0.5,2); rz = hs_f32("rdz",0.5,2); dt = hs_f32("dt",0.0625,0.25); c = hs_f32("cvac",0.5,2); e = hs_f32("eps0",0.5,2); }
  g->rdx = rx; g->rdy = ry; g->rdz = rz; g->dt = dt; g->cvac = c; g->eps0 = e;
  g->dx = 1/rx; g->dy = 1/ry; g->dz = 1/rz; g->dV = g->dx*g->dy*g->dz; g->r8V = 0.125f*rx*ry*rz;
  g->x0 = g->y0 = g->z0 = 0; g->x1 = g->nx*g->dx; g->y1 = g->ny*g->dy; g->z1 = g->nz*g->dz;
}
static int vh_code[6];
/* codes: decimal digits, faces -x,-y,-z,+x,+y,+z from the most significant digit */
static grid_t *vh_grid(int nx, int ny, int nz, int codes, int sym) {
  vh_boot();
  grid_t *g = new_grid();
  size_grid(g, nx, ny, nz);
  for (int b=5; b>=0; b--) {
    int c = codes%10; codes /= 10; vh_code[b] = c;
    if (c==PERIODIC) join_grid(g, vh_bnd[b], world_rank); else { set_fbc(g, vh_bnd[b], vh_fbc(c)); set_pbc(g, vh_bnd[b], reflect_particles); }
  }
  vh_metric(g, sym);
  return g;
}

/* ---- fields */
static const char *const vh_cn[16] = { "ex","ey","ez","div_e_err","cbx","cby","cbz","div_b_err","tcax","tcay","tcaz","rhob","jfx","jfy","jfz","rhof" };
enum { EX,EY,EZ,DIVE,CBX,CBY,CBZ,DIVB,TCAX,TCAY,TCAZ,RHOB,JFX,JFY,JFZ,RHOF };
#define FC(fp,c) (((float*)(fp))[c])
static material_t *vh_mlist;
static field_array_t *vh_fields(grid_t *g, int nmat, float damp) {
  vh_mlist = NULL;
  for (int i=0; i<nmat; i++) { char nm[4] = { 'm', (char)('0'+i), 0, 0 };
    append_material(material(nm, 1,1,1, 1,1,1, 0,0,0, 0,0,0), &vh_mlist); }
  return new_standard_field_array(g, vh_mlist, damp);
}
/* every float of every voxel (ghosts included) arbitrary in [-1,1]; mask selects components, others 0 */
static void vh_fill(field_array_t *fa, int mask, int nmat, int pat) {
  for (int v=0; v<fa->g->nv; v++) {
    field_t *f = fa->f+v;
    for (int c=0; c<16; c++) FC(f,c) = (mask>>c)&1 ? hs_f32(vh_cn[c],-1,1) : 0.f;
    material_id *m = &f->ematx;
    for (int c=0; c<8; c++) m[c] = nmat>1 ? (v*(pat+3)+c*(pat+1)+v/7)%nmat : 0;
  }
}
/* arbitrary material coefficients */
static void vh_coef(field_array_t *fa) {
  sfa_params_t *p = (sfa_params_t*)fa->params;
  for (int i=0; i<p->n_mc; i++) {
    material_coefficient_t *m = p->mc+i;
    m->decayx = hs_f32("decayx",0,1); m->drivex = hs_f32("drivex",0,2);
    m->decayy = hs_f32("decayy",0,1); m->drivey = hs_f32("drivey",0,2);
    m->decayz = hs_f32("decayz",0,1); m->drivez = hs_f32("drivez",0,2);
    m->rmux = hs_f32("rmux",0.5,2); m->rmuy = hs_f32("rmuy",0.5,2); m->rmuz = hs_f32("rmuz",0.5,2);
    m->nonconductive = (i&1) ? 0 : 1;
    m->epsx = hs_f32("epsx",0.5,2); m->epsy = hs_f32("epsy",0.5,2); m->epsz = hs_f32("epsz",0.5,2);
  }
}
/* ---- expectations: starts as a copy of the fields; only what the specification changes is overwritten */
struct vh_exp {
  int nv, nx, ny, nz; double *e; double *tol; material_id *id; field_t *old;
  void init(field_array_t *fa) {
    grid_t *g = fa->g; nv = g->nv; nx = g->nx; ny = g->ny; nz = g->nz;
    e = (double*)malloc(sizeof(double)*16*nv); tol = (double*)malloc(sizeof(double)*16*nv); id = (material_id*)malloc(sizeof(material_id)*8*nv);
    old = (field_t*)malloc(sizeof(field_t)*nv); memcpy(old, fa->f, sizeof(field_t)*nv);
    for (int v=0; v<nv; v++) { for (int c=0; c<16; c++) { e[16*v+c] = FC(fa->f+v,c); tol[16*v+c] = 0; } for (int c=0; c<8; c++) id[8*v+c] = (&fa->f[v].ematx)[c]; }
  }
  int V(int x, int y, int z) const { return VOXEL(x,y,z,nx,ny,nz); }
  double o(int c, int x, int y, int z) const { return FC(old+V(x,y,z),c); }           /* value before */
  double get(int c, int x, int y, int z) const { return e[16*V(x,y,z)+c]; }
  void set(int c, int x, int y, int z, double v, double t) { int i = 16*V(x,y,z)+c; e[i] = v; tol[i] = t; }
  void skip(int c, int x, int y, int z) { tol[16*V(x,y,z)+c] = -1; }
  void skip_ghosts(int c) { for (int z=0; z<=nz+1; z++) for (int y=0; y<=ny+1; y++) for (int x=0; x<=nx+1; x++) if (x==0||y==0||z==0||x==nx+1||y==ny+1||z==nz+1) skip(c,x,y,z); }
  void check(field_array_t *fa, const char *what) {
    for (int z=0; z<=nz+1; z++) for (int y=0; y<=ny+1; y++) for (int x=0; x<=nx+1; x++) {
      int v = V(x,y,z);
      for (int c=0; c<16; c++) if (tol[16*v+c]>=0) hs_near_at(FC(fa->f+v,c), e[16*v+c], tol[16*v+c], what, vh_cn[c], x,y,z);
      int same = 1; for (int c=0; c<8; c++) same &= (&fa->f[v].ematx)[c]==id[8*v+c];
      hs_chk(same, "material ids unchanged");
    }
  }
};
#endif
