#ifndef d_h
#define d_h
#define IN_sfa
#include "field_advance/standard/sfa_private.h"
#include "sf_interface/sf_interface.h"
#include "species_advance/species_advance.h"
#include "boundary/boundary.h"
#include "collision/collision.h"
#include "emitter/emitter.h"
#include "util/pipelines/pipelines.h"
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <mpi.h>
static const int d_bnd[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1), BOUNDARY(1,0,0), BOUNDARY(0,1,0), BOUNDARY(0,0,1) };
/* one-process grid; fbc/pbc NULL: periodic */
static grid_t *d_grid(int nx, int ny, int nz, double dx, double dy, double dz, double dt, const int *fbc, const int *pbc) {
  grid_t *g = new_grid(); size_grid(g,nx,ny,nz);
  for (int b=0; b<6; b++) if (!fbc || fbc[b]==0) join_grid(g,d_bnd[b],world_rank); else { set_fbc(g,d_bnd[b],fbc[b]); set_pbc(g,d_bnd[b],pbc?pbc[b]:reflect_particles); }
  g->dx=dx; g->dy=dy; g->dz=dz; g->rdx=1/dx; g->rdy=1/dy; g->rdz=1/dz; g->dt=dt; g->cvac=1; g->eps0=1; g->dV=dx*dy*dz; g->r8V=0.125/(dx*dy*dz);
  g->x0=g->y0=g->z0=0; g->x1=nx*dx; g->y1=ny*dy; g->z1=nz*dz;
  return g;
}
static material_t *d_mats;
static field_array_t *d_fields(grid_t *g, float damp=0) { d_mats=NULL; append_material(material((char*)"vacuum",1,1,1,1,1,1,0,0,0,0,0,0),&d_mats); return new_standard_field_array(g,d_mats,damp); }
static double d_rnd(void) { static unsigned long long s=12345; s=s*6364136223846793005ull+1442695040888963407ull; return ((s>>33)&0xfffff)/(double)0x100000*2-1; }
static void d_boot(int &ac, char **&av) { boot_services(&ac,&av); }
static int d_fail;
#define EXPECT(c,...) do { if (!(c)) { if (d_fail++<5) { printf("FAIL: " __VA_ARGS__); printf("\n"); } } } while(0)
static int d_end(void) { printf(d_fail?"DEMO FAILED\n":"DEMO OK\n"); fflush(stdout); int r = d_fail!=0; MPI_Finalize(); _exit(r); }
#endif
