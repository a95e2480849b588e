// Registries of materials, species, particle conditions, emitters; material coefficients.
// cfg: op ...
#define IN_sfa
#define IN_emitter
#define IN_boundary
#include "field_advance/standard/sfa_private.h"
#include "species_advance/species_advance.h"
#include "boundary/boundary_private.h"
#include "emitter/emitter_private.h"
#include "util/pipelines/pipelines.h"
#include "hs.h"
static void boot(void) { static char nm[] = "vpic"; static char *av[2] = { nm, NULL }; int ac = 1; char **a = av; boot_checkpt(&ac,&a); boot_mp(&ac,&a); }
static grid_t *mkgrid(int n) { grid_t *g = new_grid(); size_grid(g,n,n,n); g->dx = g->dy = g->dz = 1; g->rdx = g->rdy = g->rdz = 1; g->dt = 0.25; g->cvac = 1; g->eps0 = 1; g->dV = 1; return g; }
static const char *NM[6] = { "a", "ab", "b", "", "A", "a " };
static int same(const char *a, const char *b) { return strcmp(a,b)==0; }
// ------------------------------------------------------------------ materials
static void materials(int n) {
  material_t *list = NULL, *ptr[4]; float par[4][12]; int nm[4];
  hs_chk(num_material(list)==0 && find_material_name("a",list)==NULL && find_material_id(0,list)==NULL,"an empty list has no materials");
  for (int k=0; k<n; k++) {
    nm[k] = hs_choose("name",5); float *q = par[k]; for (int i=0; i<12; i++) q[i] = hs_f32("par",-2,2);
    int dup = 0; for (int i=0; i<k; i++) dup |= nm[i]==nm[k];
    char text[4]; strcpy(text,NM[nm[k]]);
    if (nm[k]==3) { hs_expect_exit(1); material(text,1,1,1,1,1,1,0,0,0,0,0,0); hs_chk(0,"a nameless material is refused"); hs_expect_exit(0); return; }
    material_t *m = material(text,q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8],q[9],q[10],q[11]);
    if (dup) { hs_expect_exit(1); append_material(m,&list); hs_chk(0,"a duplicate name is refused"); hs_expect_exit(0); return; }
    ptr[k] = append_material(m,&list); hs_chk(ptr[k]==m,"append returns the material"); text[0] = 'z';
    hs_chk(num_material(list)==k+1,"number of materials");
    for (int i=0; i<=k; i++) {
      material_t *x = ptr[i]; hs_chk(x->id==i && get_material_id(x)==i,"materials are numbered in order of definition");
      hs_chk(find_material_id(i,list)==x && find_material_name(NM[nm[i]],list)==x,"a material is found by id and by name"); hs_chk(same(x->name,NM[nm[i]]),"a material keeps its name");
      hs_chk(x->epsx==par[i][0]&&x->epsy==par[i][1]&&x->epsz==par[i][2]&&x->mux==par[i][3]&&x->muy==par[i][4]&&x->muz==par[i][5]&&x->sigmax==par[i][6]&&x->sigmay==par[i][7]&&x->sigmaz==par[i][8]&&x->zetax==par[i][9]&&x->zetay==par[i][10]&&x->zetaz==par[i][11],"a material keeps its parameters");
    }
    for (int c=0; c<6; c++) { int in = 0; for (int i=0; i<=k; i++) in |= nm[i]==c; if (!in) hs_chk(find_material_name(NM[c],list)==NULL,"an unknown name is not found"); }
    material_id id = (material_id)hs_int("id",-32768,32767); material_t *f = find_material_id(id,list); hs_chk((f==NULL)==(id<0 || id>k),"an unknown id is not found"); if (f) hs_chk(f->id==id,"the found material has that id");
  }
  hs_chk(find_material_name(NULL,list)==NULL && get_material_id(NULL)==-1,"nothing is not found");
  if (n>1 && hs_cfg(2)==1) { hs_expect_exit(1); append_material(ptr[hs_choose("again",n)],&list); hs_chk(0,"a material of the list is refused"); hs_expect_exit(0); return; }
  if (hs_cfg(2)==2) { hs_expect_exit(1); if (hs_choose("null",2)) append_material(NULL,&list); else append_material(material("q",1,1,1,1,1,1,0,0,0,0,0,0),NULL); hs_chk(0,"missing arguments are refused"); hs_expect_exit(0); return; }
  delete_material_list(list);
}
static void manymaterials(void) {            /* a list whose last material has any number */
  material_t *list = NULL; material_t *m = append_material(material("a",1,1,1,1,1,1,0,0,0,0,0,0),&list); int last = (int)hs_int("last",0,32767); m->id = (material_id)last;
  hs_chk(num_material(list)==last+1,"number of materials");
  material_t *k = material("b",1,1,1,1,1,1,0,0,0,0,0,0);
  if (last+1>=max_material) { hs_expect_exit(1); append_material(k,&list); hs_chk(0,"an over-full list is refused"); hs_expect_exit(0); return; }
  append_material(k,&list); hs_chk(k->id==last+1 && find_material_id((material_id)(last+1),list)==k && find_material_id((material_id)last,list)==m,"the next material gets the next number");
}
// ------------------------------------------------------------------ species
static void species_(int n) {
  species_t *list = NULL, *ptr[4]; int nm[4]; float q[4], ms[4]; int np[4], mm[4], si[4], oop[4]; grid_t *g = mkgrid(1), *g2 = mkgrid(1);
  hs_chk(num_species(list)==0 && find_species_name("a",list)==NULL && find_species_id(0,list)==NULL,"an empty list has no species");
  for (int k=0; k<n; k++) {
    nm[k] = hs_choose("name",5); q[k] = hs_f32("q",-2,2); ms[k] = hs_f32("m",0.5,2); np[k] = hs_choose("np",2)*3; mm[k] = 2-np[k]/2; si[k] = (int)hs_int("sort",-100,100); oop[k] = (int)hs_int("oop",0,1);
    int dup = 0; for (int i=0; i<k; i++) dup |= nm[i]==nm[k];
    char text[4]; strcpy(text,NM[nm[k]]);
    if (nm[k]==3) { hs_expect_exit(1); species(text,1,1,1,1,1,1,g); hs_chk(0,"a nameless species is refused"); hs_expect_exit(0); return; }
    int other = k==1 && hs_cfg(2)==3;
    species_t *s = species(text,q[k],ms[k],np[k],mm[k],si[k],oop[k],other ? g2 : g);
    if (dup || other) { hs_expect_exit(1); append_species(s,&list); hs_chk(0,"a duplicate name or another grid is refused"); hs_expect_exit(0); return; }
    ptr[k] = append_species(s,&list); hs_chk(ptr[k]==s,"append returns the species"); text[0] = 'z';
    hs_chk(num_species(list)==k+1,"number of species");
    for (int i=0; i<=k; i++) {
      species_t *x = ptr[i]; int w = np[i]<1 ? 1 : np[i], v = mm[i]<1 ? 1 : mm[i];
      hs_chk(x->id==i,"species are numbered in order of definition"); hs_chk(find_species_id(i,list)==x && find_species_name(NM[nm[i]],list)==x,"a species is found by id and by name"); hs_chk(same(x->name,NM[nm[i]]),"a species keeps its name");
      hs_chk(x->q==q[i] && x->m==ms[i] && x->sort_interval==si[i] && (x->sort_out_of_place!=0)==(oop[i]!=0) && x->g==g,"a species keeps its parameters");
      hs_chk(x->np==0 && x->nm==0 && x->max_np==w && x->max_nm==v,"a new species is empty and has the requested room"); hs_chk(x->last_sorted==INT64_MIN,"a new species was never sorted");
      hs_chk(((size_t)x->p&127)==0 && ((size_t)x->pm&127)==0,"particles and movers are aligned");
      for (int j=0; j<w; j++) x->p[j].w = 1; for (int j=0; j<v; j++) x->pm[j].i = 1; for (int j=0; j<=g->nv; j++) x->partition[j] = 0;
    }
    for (int c=0; c<6; c++) { int in = 0; for (int i=0; i<=k; i++) in |= nm[i]==c; if (!in) hs_chk(find_species_name(NM[c],list)==NULL,"an unknown name is not found"); }
    species_id id = (species_id)hs_int("id",-1000,1000); species_t *f = find_species_id(id,list); hs_chk((f==NULL)==(id<0 || id>k),"an unknown id is not found"); if (f) hs_chk(f->id==id,"the found species has that id");
  }
  hs_chk(find_species_name(NULL,list)==NULL,"nothing is not found");
  if (n>1 && hs_cfg(2)==1) { hs_expect_exit(1); append_species(ptr[hs_choose("again",n)],&list); hs_chk(0,"a species of the list is refused"); hs_expect_exit(0); return; }
  if (hs_cfg(2)==2) { hs_expect_exit(1); switch (hs_choose("null",4)) { case 0: append_species(NULL,&list); break; case 1: append_species(species("q",1,1,1,1,1,1,g),NULL); break; case 2: species("q",1,1,1,1,1,1,NULL); break; default: species("q",1,1,1,1,1,1,new_grid()); } hs_chk(0,"missing arguments are refused"); hs_expect_exit(0); return; }
  delete_species_list(list);
}
// ------------------------------------------------------------------ particle conditions
static int hit_(void*,species_t*,particle_t*,particle_mover_t*,particle_injector_t*,int,int) { return 0; }
static int ndel = 0; static void del_(particle_bc_t *p) { ndel++; delete_particle_bc_internal(p); }
static void ck_(const void*) {} static void *rs_(void) { return NULL; }
static void conditions(int n) {
  particle_bc_t *list = NULL, *ptr[6]; hs_chk(num_particle_bc(list)==0,"an empty list has no conditions");
  for (int k=0; k<n; k++) {
    particle_bc_t *b = new_particle_bc_internal(NULL,(particle_bc_func_t)hit_,del_,(checkpt_func_t)ck_,(restore_func_t)rs_,NULL);
    ptr[k] = append_particle_bc(b,&list); hs_chk(ptr[k]==b && num_particle_bc(list)==k+1,"number of conditions");
    for (int i=0; i<=k; i++) { int64_t id = get_particle_bc_id(ptr[i]); hs_chk(id!=reflect_particles && id!=absorb_particles && id<0,"a condition differs from reflection and absorption"); hs_chk(id==-3-i,"conditions are numbered in order of definition"); for (int j=0; j<i; j++) hs_chk(get_particle_bc_id(ptr[j])!=id,"conditions have different numbers"); }
  }
  int at = 0; for (particle_bc_t *b=list; b; b=b->next) { hs_chk(at<n && b==ptr[n-1-at],"the list holds every condition once"); at++; if (at>n) break; } hs_chk(at==n,"the list holds every condition");
  hs_chk(get_particle_bc_id(NULL)==0 && get_particle_bc_id((particle_bc_t*)absorb_particles)==absorb_particles && get_particle_bc_id((particle_bc_t*)reflect_particles)==reflect_particles,"built-in conditions keep their numbers");
  if (n && hs_cfg(2)==1) { particle_bc_t *b = ptr[hs_choose("again",n)]; hs_expect_exit(1); append_particle_bc(b,&list); hs_chk(0,"a condition of the list is refused"); hs_expect_exit(0); return; }
  if (hs_cfg(2)==2) { hs_expect_exit(1); if (hs_choose("null",2)) append_particle_bc(NULL,&list); else append_particle_bc(ptr[0],NULL); hs_chk(0,"missing arguments are refused"); hs_expect_exit(0); return; }
  delete_particle_bc_list(list); hs_chk(ndel==n,"every condition is deleted once");
}
// ------------------------------------------------------------------ emitters
static int nem = 0; static void *em_[6]; static const int *ec_[6]; static int en_[6];
static void emit_(void *p, const int *c, int n) { em_[nem] = p; ec_[nem] = c; en_[nem] = n; nem++; }
static int edel = 0; static void edel_(emitter_t *e) { edel++; delete_emitter_internal(e); }
static void emitters(int n) {
  emitter_t *list = NULL, *ptr[6]; static int tag[6]; int *comp[6], nc[6], cnt = 0; hs_chk(num_emitter(list)==0,"an empty list has no emitters"); apply_emitter_list(list); hs_chk(nem==0,"nothing to apply");
  emitter_t *all[6]; int in[6];
  for (int k=0; k<n; k++) { all[k] = new_emitter_internal(&tag[k],emit_,edel_,(checkpt_func_t)ck_,(restore_func_t)rs_,NULL); in[k] = 0; nc[k] = (k*2+hs_cfg(2))%4; comp[k] = size_emitter(all[k],nc[k]); hs_chk(nc[k]==0 || (comp[k]!=NULL && ((size_t)comp[k]&127)==0),"components are aligned"); for (int i=0; i<nc[k]; i++) comp[k][i] = (int)hs_bits("comp",32); }
  for (int k=0; k<n+1; k++) { int j = hs_choose("which",n); hs_chk(append_emitter(all[j],&list)==all[j],"append returns the emitter"); if (!in[j]) { in[j] = 1; ptr[cnt++] = all[j]; } hs_chk(num_emitter(list)==cnt,"an emitter is in the list once"); }
  apply_emitter_list(list); hs_chk(nem==cnt,"every emitter of the list acts once");
  for (int k=0; k<n; k++) if (in[k]) { int seen = 0; for (int i=0; i<cnt; i++) if (em_[i]==&tag[k]) { seen++; hs_chk(ec_[i]==comp[k] && en_[i]==nc[k],"an emitter acts on its components"); } hs_chk(seen==1,"every emitter of the list acts once"); }
  if (hs_cfg(3)==1) { int j = hs_choose("size",n), z = (int)hs_int("z",-3,0); hs_expect_exit(1); if (nc[j]) size_emitter(all[j],1); else { hs_assume(z<0); size_emitter(all[j],z); } hs_chk(0,"a second or negative size is refused"); hs_expect_exit(0); return; }
  if (hs_cfg(3)==2) { hs_expect_exit(1); switch (hs_choose("null",3)) { case 0: append_emitter(NULL,&list); break; case 1: append_emitter(all[0],NULL); break; default: size_emitter(NULL,1); } hs_chk(0,"missing arguments are refused"); hs_expect_exit(0); return; }
  delete_emitter_list(list); hs_chk(edel==cnt,"every emitter of the list is deleted once");
}
// ------------------------------------------------------------------ coefficients
static void coef(int n, int mask) {         /* mask: bit 3*k+a: material k conducts along a */
  material_t *list = NULL; float e[4][3], u[4][3], s[4][3]; static char nm[4][3] = { "m0", "m1", "m2", "m3" };
  grid_t *g = mkgrid(1); g->dt = hs_f32("dt",0.0625,1); g->eps0 = hs_f32("eps0",0.5,2); g->cvac = hs_f32("cvac",0.5,2);
  if (hs_cfg(3)&1) { g->nx = 2; } float damp = hs_f32("damp",0,1);
  for (int k=0; k<n; k++) {
    for (int a=0; a<3; a++) { e[k][a] = hs_f32("eps",0.25,4); u[k][a] = hs_f32("mu",0.25,4); s[k][a] = mask>>(3*k+a)&1 ? hs_f32("sigma",0.0625,4) : 0.f; }
    float z = hs_cfg(3)&2 && k==0 ? 1.f : 0.f;
    append_material(material(nm[k],e[k][0],e[k][1],e[k][2],u[k][0],u[k][1],u[k][2],s[k][0],s[k][1],s[k][2],0,z,0),&list);
  }
  g->nx = 1;
  field_array_t *fa = new_standard_field_array(g,list,damp); sfa_params_t *p = (sfa_params_t*)fa->params;
  hs_chk(p->n_mc==n && fa->g==g,"one coefficient set per material"); hs_chk(p->damp==damp,"damping is kept");
  for (int k=0; k<n; k++) {
    const material_coefficient_t *m = p->mc+k; float d[3] = { m->decayx,m->decayy,m->decayz }, r[3] = { m->drivex,m->drivey,m->drivez }, v[3] = { m->rmux,m->rmuy,m->rmuz }, ep[3] = { m->epsx,m->epsy,m->epsz }; int con = 0;
    for (int a=0; a<3; a++) {
      double x = (double)s[k][a]*g->dt/((double)e[k][a]*g->eps0); int c = mask>>(3*k+a)&1; con |= c;
      hs_near(d[a],c ? exp(-x) : 1.,1e-6,"decay is the exponential decay of the conductivity"); hs_near(r[a],c ? (1-exp(-x))/(x*e[k][a]) : 1./e[k][a],1e-4,"drive is the average decay over a step divided by the permittivity");
      hs_near(v[a],1./u[k][a],1e-5,"inverse permeability"); hs_near(ep[a],e[k][a],0,"permittivity");
    }
    hs_near(m->nonconductive,con ? 0. : 1.,0,"conductors are marked");
  }
  static field_t zero; int ok = 1; for (int i=0; i<g->nv; i++) ok &= memcmp(fa->f+i,&zero,sizeof(field_t))==0; hs_chk(ok,"a new field array is clear");
  delete_field_array(fa);
}
void hs_main(void) {
  boot();
  int op = hs_cfg(0), a = hs_cfg(1), b = hs_cfg(2);
  if (op==0) materials(a); else if (op==1) manymaterials(); else if (op==2) species_(a); else if (op==3) conditions(a); else if (op==4) emitters(a); else if (op==5) coef(a,b);
  hs_reach("end");
}
