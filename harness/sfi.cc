// Exchange arrays between particles and fields: charge deposits, interpolators, accumulators, moment arrays.
// cfg: op nx ny nz codes n_pipeline mode a b px py pz
// op 0 accumulate_rho_p (a particles, cells from pattern b)  1 accumulate_rhob (cell index a)  2 load_interpolator
//    3 accumulators: clear, arbitrary contents, reduce, unload   4 moment arrays: clear, reduce  5 synchronize_hydro
//    6 accumulate_rhob then synchronize_rho: total charge (codes may be remote/walls)
#include "vw.h"
static int n[3];
static int V(int x, int y, int z) { return VOXEL(x,y,z,n[0],n[1],n[2]); }
static void corner(double *w, const particle_t *p) {
  for (int k=0; k<8; k++) w[k] = 0.125*(k&1 ? 1+(double)p->dx : 1-(double)p->dx)*(k&2 ? 1+(double)p->dy : 1-(double)p->dy)*(k&4 ? 1+(double)p->dz : 1-(double)p->dz);
}
static int cellv(int k) { k %= n[0]*n[1]*n[2]; return V(1+k%n[0], 1+k/n[0]%n[1], 1+k/n[0]/n[1]); }
static void anyp(particle_t *p, int v) {
  p->dx = hs_f32("x",-1,1); p->dy = hs_f32("y",-1,1); p->dz = hs_f32("z",-1,1); p->i = v;
  p->ux = hs_f32("ux",-4,4); p->uy = hs_f32("uy",-4,4); p->uz = hs_f32("uz",-4,4); p->w = hs_f32("w",0,2);
}
void hs_main(void) {
  int op = hs_cfg(0); for (int a=0; a<3; a++) n[a] = hs_cfg(1+a);
  int codes = hs_cfg(4), A = hs_cfg(7), B = hs_cfg(8);
  vh_threads(hs_cfg(5), hs_cfg(6));
  if (op==0) {
    grid_t *g = vh_grid(n[0],n[1],n[2],codes,1);
    field_array_t *fa = vh_fields(g,1,0); vh_fill(fa,0xffff,1,0);
    float q = hs_f32("q",-2,2);
    species_t *sp = species("s",q,1,A+4,16,0,0,g); sp->np = A;
    for (int i=0; i<A+4; i++) anyp(sp->p+i, cellv((i*B+i/2)));
    particle_t *old = (particle_t*)malloc(sizeof(particle_t)*(A+4)); memcpy(old,sp->p,sizeof(particle_t)*(A+4));
    vh_exp X; X.init(fa);
    double *add = (double*)calloc(g->nv,sizeof(double)); double tot = 0, dep = 0; char *hit = (char*)calloc(g->nv,1);
    double q8 = 8*(double)q*g->r8V;
    for (int i=0; i<A; i++) { double w[8]; corner(w,old+i); for (int k=0; k<8; k++) { int j = old[i].i+(k&1)+(k>>1&1)*(n[0]+2)+(k>>2)*(n[0]+2)*(n[1]+2); add[j] += q8*old[i].w*w[k]; hit[j] = 1; } tot += old[i].w; }
    for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) if (hit[V(x,y,z)]) X.set(RHOF,x,y,z,X.o(RHOF,x,y,z)+add[V(x,y,z)],1e-4);
    accumulate_rho_p(fa,sp);
    X.check(fa,"after accumulate_rho_p");
    for (int v=0; v<g->nv; v++) dep += (double)fa->f[v].rhof-X.old[v].rhof;
    hs_near(dep, q8*tot, 1e-3, "deposited charge is the total charge");
    hs_chk(sp->np==A, "particle count unchanged");
    for (int i=0; i<A+4; i++) { particle_t *p=sp->p+i,*o=old+i; hs_chk(p->i==o->i,"cell unchanged"); hs_near(p->dx,o->dx,0,"x unchanged"); hs_near(p->dy,o->dy,0,"y unchanged"); hs_near(p->dz,o->dz,0,"z unchanged"); hs_near(p->ux,o->ux,0,"ux unchanged"); hs_near(p->uy,o->uy,0,"uy unchanged"); hs_near(p->uz,o->uz,0,"uz unchanged"); hs_near(p->w,o->w,0,"w unchanged"); }
  } else if (op==1) {
    grid_t *g = vh_grid(n[0],n[1],n[2],codes,1);
    field_array_t *fa = vh_fields(g,1,0); vh_fill(fa,0xffff,1,0);
    particle_t p[1]; float q = hs_f32("q",-2,2); int v = cellv(A); anyp(p,v);
    vh_exp X; X.init(fa);
    double w[8], q8 = 8*(double)q*g->r8V*p->w; corner(w,p);
    int c[3] = { 1+A%n[0], 1+A/n[0]%n[1], 1+A/n[0]/n[1] };
    for (int k=0; k<8; k++) { int h[3] = { k&1,k>>1&1,k>>2 }, x[3]; double f = 1; for (int a=0; a<3; a++) { x[a] = c[a]+h[a]; if (x[a]==1 || x[a]==n[a]+1) f *= 2; }
      X.set(RHOB,x[0],x[1],x[2],X.o(RHOB,x[0],x[1],x[2])+f*q8*w[k],1e-4); }
    accumulate_rhob(fa->f,p,g,q);
    X.check(fa,"after accumulate_rhob");
  } else if (op==2) {
    grid_t *g = vh_grid(n[0],n[1],n[2],codes,1);
    field_array_t *fa = vh_fields(g,1,0); vh_fill(fa,0xffff,1,0);
    vh_exp X; X.init(fa);
    interpolator_array_t *ia = new_interpolator_array(g);
    load_interpolator_array(ia,fa);
    X.check(fa,"fields unchanged");
    double r[3] = { hs_f32("x",-1,1), hs_f32("y",-1,1), hs_f32("z",-1,1) };
    for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=n[0]; x++) {
      const interpolator_t *i = ia->i+V(x,y,z); int c[3] = { x,y,z };
      const float *e[3] = { &i->ex, &i->ey, &i->ez }, *b[3] = { &i->cbx, &i->cby, &i->cbz };
      for (int a=0; a<3; a++) {
        int p = (a+1)%3, q = (a+2)%3;
        double want = 0; for (int k=0; k<4; k++) { int d[3] = { c[0],c[1],c[2] }; d[p] += k&1; d[q] += k>>1; want += 0.25*(k&1 ? 1+r[p] : 1-r[p])*(k&2 ? 1+r[q] : 1-r[q])*X.o(EX+a,d[0],d[1],d[2]); }
        hs_near_at(e[a][0]+r[p]*e[a][1]+r[q]*(e[a][2]+r[p]*e[a][3]), want, 1e-5, "interpolated E", vh_cn[EX+a], x,y,z);
        int d[3] = { c[0],c[1],c[2] }; d[a]++;
        hs_near_at(b[a][0]+r[a]*b[a][1], 0.5*(1-r[a])*X.o(CBX+a,x,y,z)+0.5*(1+r[a])*X.o(CBX+a,d[0],d[1],d[2]), 1e-5, "interpolated B", vh_cn[CBX+a], x,y,z);
      }
    }
  } else if (op==3) {
    grid_t *g = vh_grid(n[0],n[1],n[2],codes,1);
    field_array_t *fa = vh_fields(g,1,0); vh_fill(fa,0xffff,1,0);
    vh_exp X; X.init(fa);
    accumulator_array_t *aa = new_accumulator_array(g);
    hs_chk(aa->n_pipeline>=hs_cfg(5), "one accumulator per pipeline");
    hs_chk(aa->stride>=g->nv, "accumulator stride");
    int na = aa->n_pipeline+1;
    for (int k=0; k<na; k++) for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=n[0]; x++) { float *f = (float*)(aa->a+(size_t)k*aa->stride+V(x,y,z)); for (int c=0; c<12; c++) f[c] = hs_f32("stale",-1,1); }
    if (A) clear_accumulator_array(aa);
    double *s = (double*)calloc(12*g->nv,sizeof(double));
    for (int k=0; k<na; k++) for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=n[0]; x++) {
      int v = V(x,y,z); float *f = (float*)(aa->a+(size_t)k*aa->stride+v);
      for (int c=0; c<12; c++) { if (A) hs_near_at(f[c],0,0,"cleared","acc",x,y,z); if (B) f[c] = hs_f32("a",-1,1); s[12*v+c] += f[c]; }
    }
    reduce_accumulator_array(aa);
    for (int z=1; z<=n[2]; z++) for (int y=1; y<=n[1]; y++) for (int x=1; x<=n[0]; x++) { int v = V(x,y,z); for (int c=0; c<12; c++) hs_near_at(((float*)(aa->a+v))[c], s[12*v+c], 1e-4, "reduced","acc",x,y,z); }
    double cf[3] = { 0.25*g->rdy*g->rdz/g->dt, 0.25*g->rdz*g->rdx/g->dt, 0.25*g->rdx*g->rdy/g->dt };
    for (int c=0; c<3; c++) { int p=(c+1)%3, q=(c+2)%3;
      for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) {
        int e[3] = { x,y,z }; if (e[c]>n[c]) continue;
        double t = 0; for (int k=0; k<4; k++) { int d[3] = { x,y,z }; d[p] -= k&1; d[q] -= k>>1; if (d[p]<1||d[p]>n[p]||d[q]<1||d[q]>n[q]) continue; t += s[12*V(d[0],d[1],d[2])+4*c+k]; }
        X.set(JFX+c,x,y,z,X.o(JFX+c,x,y,z)+cf[c]*t,2e-4);
      } }
    unload_accumulator_array(fa,aa);
    X.check(fa,"after unload");
  } else if (op==4) {
    grid_t *g = vh_grid(n[0],n[1],n[2],codes,1);
    hydro_array_t *ha = new_hydro_array(g); int na = ha->n_pipeline+1;
    hs_chk(ha->n_pipeline>=hs_cfg(5), "one moment array per pipeline"); hs_chk(ha->stride>=g->nv, "moment stride");
    for (int k=0; k<na; k++) for (int v=0; v<g->nv; v++) for (int c=0; c<14; c++) ((float*)(ha->h+(size_t)k*ha->stride+v))[c] = hs_f32("stale",-1,1);
    clear_hydro_array(ha);
    double *s = (double*)calloc(14*g->nv,sizeof(double));
    for (int k=0; k<na; k++) for (int v=0; v<g->nv; v++) for (int c=0; c<14; c++) { float *f = (float*)(ha->h+(size_t)k*ha->stride+v)+c; hs_near_at(*f,0,0,"cleared moment","h",v,c,k); *f = hs_f32("h",-1,1); s[14*v+c] += *f; }
    reduce_hydro_array(ha);
    for (int v=0; v<g->nv; v++) for (int c=0; c<14; c++) hs_near_at(((float*)(ha->h+v))[c],s[14*v+c],1e-4,"reduced moment","h",v,c,0);
  } else if (op==5) {                        /* moments over several domains */
    vh_world W; W.init(n[0],n[1],n[2],hs_cfg(9),hs_cfg(10),hs_cfg(11),codes,0,B);
    W.fields(1,0,0,0);
    hydro_array_t *ha = new_hydro_array(W.g); int na = ha->n_pipeline+1;
    /* 14 components in two rounds of the 16 slots of the reference world; contributions of each pipeline arbitrary */
    double *s = (double*)calloc(14*W.nv,sizeof(double));
    for (int r=0; r<W.nr; r++) for (int v=0; v<W.nv; v++) for (int c=0; c<16; c++) {
      double t = 0;
      if (c<14) for (int k=0; k<na; k++) { float f = hs_f32("h",-1,1); t += f; if (r==W.me) ((float*)(ha->h+(size_t)k*ha->stride+v))[c] = f; }
      W.v[r][16*v+c] = t;
    }
    for (int c=0; c<14; c++) {
      /* every moment lives on the nodes: borrow the node component RHOF for the walk */
      double *keep[VW_MAX]; for (int r=0; r<W.nr; r++) { keep[r] = W.snap(r); for (int v=0; v<W.nv; v++) W.v[r][16*v+RHOF] = keep[r][16*v+c]; }
      vw_wall_node(W,RHOF,(1<<PEC)|(1<<SYM)|(1<<PMC)|(1<<ABSORB),2);
      for (int a=0; a<3; a++) vw_share(W,a,RHOF,1);
      for (int v=0; v<W.nv; v++) s[14*v+c] = W.v[W.me][16*v+RHOF];
      for (int r=0; r<W.nr; r++) { memcpy(W.v[r],keep[r],sizeof(double)*16*W.nv); free(keep[r]); }
    }
    synchronize_hydro_array(ha);
    for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) for (int c=0; c<14; c++) hs_near_at(((float*)(ha->h+V(x,y,z)))[c], s[14*V(x,y,z)+c], 2e-4, "synchronised moment", c<10 ? vh_cn[c] : "t", x,y,z);
  } else if (op==6) {                        /* bound charge of one particle, seen by all processes */
    vh_world W; W.init(n[0],n[1],n[2],hs_cfg(9),hs_cfg(10),hs_cfg(11),codes,0,0);
    W.fields(1,0,0,0);
    particle_t p[1]; float q = 2; anyp(p, cellv(A));
    if (W.me==B) accumulate_rhob(W.fa->f,p,W.g,q);
    W.fa->kernel->synchronize_rho(W.fa);
    /* local share of the total: nodes on shared planes belong half to each side, nodes on walls stand for half a cell */
    double dep = 0;
    for (int z=1; z<=n[2]+1; z++) for (int y=1; y<=n[1]+1; y++) for (int x=1; x<=n[0]+1; x++) { double f = W.g->dV; if (x==1||x==n[0]+1) f*=0.5; if (y==1||y==n[1]+1) f*=0.5; if (z==1||z==n[2]+1) f*=0.5; dep += f*W.fa->f[V(x,y,z)].rhob; }
    double loc = dep, all = 0; mp_allsum_d(&loc,&all,1);
    hs_near(all, (double)q*p->w, 1e-4, "total bound charge over all processes");
  }
}
