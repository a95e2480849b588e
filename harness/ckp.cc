// Checkpoint and restore: every stored byte, string, pointer relation and symbol; identifiers; refused checkpoints.
// cfg: op ...
//  0 primitives: n_extra order perm(reference pattern)   1 identifiers: misuse   2 damaged checkpoint: where   3 a whole simulation: pieces nx ny nz   4 symbolic registration histories
#define IN_boundary
#define IN_emitter
#define IN_collision
#define IN_rng
#include "vh.h"
#include <vector>
#include <string>
#include <cmath>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <map>
#define protected public
#define private public
#include "vpic/vpic.h"
#undef protected
#undef private
#include "boundary/boundary_private.h"
#include "emitter/emitter_private.h"
#include "collision/collision_private.h"
#include "collision/langevin.h"
#include "collision/binary.h"
#include "collision/unary.h"
#include "collision/takizuka_abe.h"
#include "util/rng/rng_private.h"
static const char *file = "state";
static void fillw(void *p, size_t n) { for (size_t i=0; i<n/4; i++) ((uint32_t*)p)[i] = (uint32_t)hs_bits("w",32); }
static void same(const void *a, const void *b, size_t n, const char *what) {
  size_t i = 0; uint32_t d = 0; hs_chk(a && b && a!=b,"a new copy"); if (!a || !b) return;
  if (((size_t)a|(size_t)b)%4==0) for (; i+4<=n; i += 4) d |= ((const uint32_t*)a)[i/4]^((const uint32_t*)b)[i/4];
  for (; i<n; i++) d |= (uint32_t)(((const uint8_t*)a)[i]^((const uint8_t*)b)[i]);
  hs_chk(d==0,what);
}
static void text(const char *a, const char *b, const char *what) { if (!a || !b) { hs_chk(a==b,what); return; } size_t n = strlen(a); same(a,b,n+1,what); hs_chk(hs_obj_size(b)==-2 || hs_obj_size(b)>=(int64_t)n+1,"string storage"); }
/* ---- identifiers before the checkpoint */
static struct { const void *p; size_t id; } T[64]; static int nt = 0;
static void note(const void *p) { size_t id = object_id(p); hs_chk(id!=0,"registered"); hs_chk(object_ptr(id)==p,"identifier translates back"); for (int i=0; i<nt; i++) hs_chk(T[i].id!=id && T[i].p!=p,"identifiers are unique"); T[nt].p = p; T[nt++].id = id; }
static void *now(const void *p) { if (!p) return NULL; for (int i=0; i<nt; i++) if (T[i].p==p) return object_ptr(T[i].id); hs_chk(0,"pointer to a known object"); return NULL; }
static void ptr(const void *a, const void *b, const char *what) { hs_chk(now(a)==b,what); }
/* ---- op 0: objects of a user */
extern "C" { void ckp_f1(void) {} void ckp_f2(int) {} }
static void ckp_local(void) {}
typedef void (*fn_t)(void);
static const struct { int sz, str, n, max, al; } LAY[7] = { {4,4,3,3,0}, {3,8,2,4,16}, {1,1,5,9,128}, {0,8,3,4,0}, {8,8,0,2,32}, {16,16,1,1,64}, {5,7,3,3,0} };
struct obj { int k; uint64_t v; uint16_t h; char raw[11]; char *name, *other; char *d[7]; obj *fp[2], *pp; fn_t f[3]; };
static int restored = 0;
static void put(const obj *o) {
  CHECKPT(o,1); CHECKPT_VAL(uint64_t,o->v); CHECKPT_VAL(uint16_t,o->h); checkpt_raw(o->raw,o->k%12); checkpt_raw(NULL,0);
  CHECKPT_STR(o->name); CHECKPT_FPTR(o->fp[0]); for (int i=0; i<7; i++) checkpt_data(o->d[i],LAY[i].sz,LAY[i].str,LAY[i].n,LAY[i].max,LAY[i].al);
  CHECKPT_STR(o->other); CHECKPT_PTR(o->pp); CHECKPT_FPTR(o->fp[1]); for (int i=0; i<3; i++) CHECKPT_SYM(o->f[i]);
}
static void *get(void) {
  obj *o, t; RESTORE(o); RESTORE_VAL(uint64_t,t.v); RESTORE_VAL(uint16_t,t.h); memset(t.raw,0,11); restore_raw(t.raw,o->k%12); restore_raw(NULL,0);
  hs_chk(t.v==o->v && t.h==o->h,"values"); for (int i=0; i<o->k%12 && i<11; i++) hs_chk(t.raw[i]==o->raw[i],"raw bytes");
  RESTORE_STR(o->name); RESTORE_FPTR(o->fp[0]); for (int i=0; i<7; i++) o->d[i] = (char*)restore_data(); RESTORE_STR(o->other); RESTORE_PTR(o->pp); RESTORE_FPTR(o->fp[1]); for (int i=0; i<3; i++) RESTORE_SYM(o->f[i]);
  hs_chk(o->k==restored,"objects come back in the order of their registration"); restored++;
  return o;
}
static void anim(obj *o) { REANIMATE_FPTR(o->fp[0]); REANIMATE_FPTR(o->fp[1]); }
static obj *mk(int k, int sym) {
  obj *o = (obj*)calloc(1,sizeof(obj)); o->k = k; o->v = sym ? hs_bits("v",64) : 77+k; o->h = sym ? (uint16_t)hs_bits("h",16) : 3; for (int i=0; i<11; i++) o->raw[i] = sym ? (char)hs_bits("r",8) : (char)i;
  if (k!=1) { o->name = (char*)calloc(1,8); for (int i=0; i<(k*3)%7; i++) { int c = sym ? (int)hs_bits("c",8) : 'a'+i; hs_assume(c!=0); o->name[i] = (char)c; } }
  if (k==1 || k==2) { o->other = (char*)calloc(1,8); for (int i=0; i<k+1; i++) { int c = sym ? (int)hs_bits("c",8) : 'a'+i; hs_assume(c!=0); o->other[i] = (char)c; } }
  for (int i=0; i<7; i++) { int n = LAY[i].max*LAY[i].str; if (LAY[i].n*LAY[i].sz || k%2) { o->d[i] = (char*)calloc(1,n+1); for (int j=0; j<n; j++) o->d[i][j] = sym ? (char)hs_bits("d",8) : (char)(j+i); } }
  o->f[k%3] = (fn_t)ckp_f1; o->f[(k+1)%3] = k==2 ? (fn_t)ckp_local : (fn_t)ckp_f2; return o;
}
static void cmp(const obj *a, const obj *b) {
  hs_chk(a->k==b->k && a->v==b->v && a->h==b->h,"values"); same(a->raw,b->raw,11,"raw bytes"); text(a->name,b->name,"string"); text(a->other,b->other,"string");
  for (int i=0; i<7; i++) {
    if (LAY[i].al) hs_chk(((size_t)b->d[i]&(LAY[i].al-1))==0,"alignment"); else hs_chk(hs_obj_size(b->d[i])==-2 || hs_obj_size(b->d[i])>=LAY[i].max*LAY[i].str,"storage");
    if (a->d[i]) for (int e=0; e<LAY[i].n; e++) for (int j=0; j<LAY[i].sz; j++) hs_chk(a->d[i][e*LAY[i].str+j]==b->d[i][e*LAY[i].str+j],"element");
    if (b->d[i] && LAY[i].max*LAY[i].str) b->d[i][LAY[i].max*LAY[i].str-1] = 5;                    /* room for the maximum */
  }
  ptr(a->fp[0],b->fp[0],"forward pointer"); ptr(a->fp[1],b->fp[1],"forward pointer"); ptr(a->pp,b->pp,"pointer"); for (int i=0; i<3; i++) hs_chk(a->f[i]==b->f[i],"symbol");
}
static void reg(obj *o) { REGISTER_OBJECT(o,put,get,anim); }
/* ---- op 1 */
static int what; static void during(const obj *) {
  static int z[2];
  switch (what) { case 6: register_object(z,NULL,NULL,NULL); break; case 7: unregister_object(z+1); break; case 8: checkpt_objects("other"); break; case 9: restore_objects("other"); break; case 10: reanimate_objects(); break; case 11: halt_checkpt(); break;
    case 12: CHECKPT_PTR(z); break; case 13: checkpt_data(NULL,1,1,1,1,0); break; case 14: checkpt_data(z,4,4,2,1,0); break; case 15: checkpt_data(z,4,3,1,1,0); break; case 16: checkpt_raw(NULL,1); break; case 17: restore_raw(z,1); break; case 18: CHECKPT_FPTR(z); break; case 19: restore_data(); break; case 20: restore_str(); break; }
}
/* ---- op 2: a file with one header replaced */
static long find(const char *buf, long n, uint64_t tag, int k) { for (long i=0; i+8<=n; i++) { uint64_t x; memcpy(&x,buf+i,8); if (x==tag && k--==0) return i; } return -1; }
void hs_main(void) {
  int op = hs_cfg(0); vh_threads(1,0); vh_boot();
  if (op==0) {
    int extra = hs_cfg(1), order = hs_cfg(2), n = 4; obj *o[4], *x[3]; fn_t keep;
    for (int i=0; i<n; i++) o[i] = mk(i,1); for (int i=0; i<3; i++) x[i] = mk(9,0);
    for (int i=0; i<n; i++) { for (int j=0; j<3; j++) if (extra>>(2*i)&1 && j<=i%3) { if (object_id(x[j])==0) reg(x[j]); } reg(o[i]); for (int j=0; j<3; j++) if (extra>>(2*i+1)&1 && object_id(x[j])) { unregister_object(x[j]); } }
    for (int j=0; j<3; j++) if (object_id(x[j])) unregister_object(x[j]);
    for (int i=0; i<n; i++) note(o[i]); note(world);
    for (int i=0; i<n; i++) { int a = i<2 ? hs_choose("fp",n+1) : (i*order)%(n+1); o[i]->fp[0] = a<n ? o[a] : NULL; o[i]->fp[1] = o[(i*order+1)%n]; int b = (order>>i)%(i+1); o[i]->pp = b<i ? o[b] : NULL; }
    checkpt_objects(file); for (int i=0; i<n; i++) hs_chk(object_id(o[i])==T[i].id,"checkpointing changes nothing");
    restore_objects(file); reanimate_objects(); hs_chk(restored==n,"every object once");
    for (int i=0; i<n; i++) { obj *b = (obj*)now(o[i]); hs_chk(b!=NULL && object_id(o[i])==0,"only the restored object is registered"); if (b) { hs_chk(object_id(b)==T[i].id,"identifier kept"); cmp(o[i],b); } }
    hs_chk(now(world)==(void*)world,"world");
    obj *y = mk(9,0); reg(y); size_t id = object_id(y); hs_chk(id!=0,"registered"); for (int i=0; i<nt; i++) hs_chk(id!=T[i].id,"identifiers stay unique after a restore"); for (int i=0; i<n; i++) hs_chk(object_id(now(o[i]))==T[i].id,"other identifiers unchanged");
    /* again, from the restored objects; the first generation is overwritten */
    obj *c[4]; for (int i=0; i<n; i++) { c[i] = (obj*)now(o[i]); memset(o[i]->raw,1,11); } unregister_object(y); restored = 0; checkpt_objects(file); restore_objects(file); reanimate_objects();
    for (int i=0; i<n; i++) { obj *b = (obj*)object_ptr(T[i].id); hs_chk(b && b!=c[i],"a new copy"); if (b) { hs_chk(b->v==c[i]->v,"values of the second generation"); same(b->raw,c[i]->raw,11,"raw bytes of the second generation"); text(c[i]->name,b->name,"string of the second generation"); hs_chk(b->fp[0]==(c[i]->fp[0] ? object_ptr(T[o[i]->fp[0]->k].id) : NULL),"pointer of the second generation"); } }
    for (int i=0; i<n; i++) { void *b = object_ptr(T[i].id); unregister_object(b); hs_chk(object_ptr(T[i].id)==NULL && object_id(b)==0,"unregistered"); }
    (void)keep; return;
  }
  if (op==1) {
    what = hs_cfg(1); static int z[4]; obj *o = mk(0,0); hs_chk(object_id(z)==0,"unknown"); hs_chk(object_ptr(12345)==NULL,"unknown"); register_object(z+2,NULL,NULL,NULL); hs_expect_exit(1);
    switch (what) { case 0: register_object(NULL,NULL,NULL,NULL); break; case 1: register_object(z+2,NULL,NULL,NULL); break; case 2: unregister_object(z); break; case 3: unregister_object(NULL); break; case 4: halt_checkpt(); break; case 5: { int c = 1; char *v[1]; char **w = v; boot_checkpt(&c,&w); break; }
      case 21: checkpt_raw(z,4); break; case 22: restore_raw(z,4); break; case 23: CHECKPT_STR("a"); break; case 24: restore_objects("no such file"); break; case 25: checkpt_objects(NULL); break; case 26: restore_objects(NULL); break; case 27: REGISTER_OBJECT(o,put,get,anim); unregister_object(o); unregister_object(o); break;
      case 28: checkpt_objects("no such folder/x"); break;
      default: REGISTER_OBJECT(o,during,NULL,NULL); checkpt_objects(file); if (what==10 ) restore_objects(file); }
    hs_chk(0,"refused"); return;
  }
  if (op==2) {
    int w = hs_cfg(1); obj *o[3]; for (int i=0; i<3; i++) { o[i] = mk(i,0); reg(o[i]); } o[2]->pp = o[1]; o[0]->fp[0] = o[2]; o[1]->fp[1] = o[1];
    checkpt_objects(file); static char buf[8192]; FILE *f = fopen(file,"r"); long n = (long)fread(buf,1,8192,f); fclose(f); hs_chk(n>400 && n<8192,"checkpoint written");
    static const uint64_t tag[8] = { 0x600DF00D, 0xBADF00D, 0xDA7A, 0x577, 0x2c11577, 0x977, 0x2c11977, 0x577513B }; int64_t d; uint64_t x; long at; const char *no = "refused";
    if (w<16) {                                                 /* a header mark: anything but the marks that are legal there */
      int k = w>>1, c = (w&1)+1; at = find(buf,n,tag[k],c); if (k==1) at = find(buf,n,tag[k],0); if (k==7) at = find(buf,n,tag[k],c+2); if (k==4) at = find(buf,n,tag[k],w&1);
      hs_chk(at>0,"mark found"); x = hs_bits("x",64); hs_assume(x!=tag[k]); if (k<2) hs_assume(x!=tag[0] && x!=tag[1]); if (k==3 || k==4) hs_assume(x!=tag[3] && x!=tag[4]); if (k==5 || k==6) hs_assume(x!=tag[5] && x!=tag[6]); if (k==7) hs_assume(x!=0x2C11513B && x!=0xADD7513B);
    } else if (w==16) { at = find(buf,n,0x977,0)+8; x = 0; }     /* pointer to object 0 */
    else if (w==17) { at = find(buf,n,0x977,0)+8; x = hs_bits("x",64); hs_assume(x>1000); }          /* pointer to an object that does not exist */
    else if (w==18) { at = find(buf,n,0x577,1)+8; x = 2; }       /* string that is longer: the following data is taken for text or a header */
    else if (w==19) { at = find(buf,n,0xDA7A,1)+8*1; x = hs_bits("x",64); uint64_t st; memcpy(&st,buf+at+8,8); hs_assume(x>st); }          /* element larger than its spacing */
    else if (w==20) { at = find(buf,n,0xDA7A,1)+8*3; x = hs_bits("x",64); uint64_t mx; memcpy(&mx,buf+at+8,8); hs_assume(x>mx); }          /* more elements than fit */
    else if (w==21) { at = find(buf,n,0xDA7A,2)+8*2; x = hs_bits("x",64); uint64_t sz; memcpy(&sz,buf+at-8,8); hs_assume(x<sz); }
    else if (w==22) { at = find(buf,n,0x577513B,3)+24; x = 0x7878787878787878; }                    /* another symbol name */
    else if (w==23) { at = find(buf,n,0x577,2)+16; x = 0; }                                         /* text with an end in the middle */
    else { at = -1; n = hs_choose("length",64)*n/64; }           /* cut short anywhere */
    hs_chk(at>0 || w>23,"place found"); if (at>0) memcpy(buf+at,&x,8);
    f = fopen(file,"w"); fwrite(buf,1,n,f); fclose(f); hs_expect_exit(1); restore_objects(file); reanimate_objects(); hs_chk(0,no); return;
  }
  if (op==3) {
    int pieces = hs_cfg(1); vpic_simulation *S = new vpic_simulation(); grid_t *g = S->grid; int m = pieces; note(S); note(S->entropy); note(S->sync_entropy); note(g); note(world);
    size_grid(g,hs_cfg(2),hs_cfg(3),hs_cfg(4)); for (int b=0; b<6; b++) if (b%3==0 || (m&1)) join_grid(g,vh_bnd[b],(world_rank+1)%world_size); else { set_fbc(g,vh_bnd[b],absorb_fields); set_pbc(g,vh_bnd[b],reflect_particles); }
    static char fn[8] = "state0"; fn[5] = (char)(48+world_rank); file = fn; note(g->mp); fillw(&g->dt,12); g->step = (int64_t)hs_bits("step",64); fillw(&g->t0,8); fillw(&g->x0,24); for (int i=0; i<6*g->nv; i += 7) g->neighbor[i] = (int64_t)hs_bits("nb",64); 
    mp_size_send_buffer(g->mp,1,40); mp_size_recv_buffer(g->mp,5,24); fillw(mp_send_buffer(g->mp,1),40); fillw(mp_recv_buffer(g->mp,5),24);
    material_t *mt = append_material(material("vacuum",1,1,1,1,1,1,0,0,0,0,0,0),&S->material_list); note(mt); if (m&2) { mt = append_material(material("second",2,1,1,1,1,1,0,0,0,0,0,0),&S->material_list); fillw(&mt->epsx,4); note(mt); }
    S->field_array = new_standard_field_array(g,S->material_list,0); note(S->field_array); fillw(S->field_array->f,sizeof(field_t)*g->nv);
    S->interpolator_array = new_interpolator_array(g); note(S->interpolator_array); fillw(S->interpolator_array->i,sizeof(interpolator_t)*g->nv);
    S->accumulator_array = new_accumulator_array(g); note(S->accumulator_array); size_t na = (size_t)S->accumulator_array->n_pipeline+1; fillw(S->accumulator_array->a,sizeof(accumulator_t)*na*S->accumulator_array->stride);
    S->hydro_array = new_hydro_array(g); note(S->hydro_array); fillw(S->hydro_array->h,sizeof(hydro_t)*(S->hydro_array->n_pipeline+1)*S->hydro_array->stride);
    species_t *sp[2]; for (int i=0; i<2; i++) { sp[i] = append_species(species(i ? "ion" : "electron",1,1,i ? 4 : 7,i ? 2 : 3,i,i,g),&S->species_list); note(sp[i]); sp[i]->np = i ? 0 : 5; sp[i]->nm = i ? 0 : 2; fillw(sp[i]->p,32*sp[i]->np); fillw(sp[i]->pm,16*sp[i]->nm); fillw(sp[i]->partition,4*(g->nv+1)); sp[i]->last_sorted = (int64_t)hs_bits("ls",64); }
    particle_bc_t *bc[2]; bc[0] = append_particle_bc(maxwellian_reflux(S->species_list,S->entropy),&S->particle_bc_list); bc[1] = append_particle_bc(absorb_tally(S->species_list,S->field_array),&S->particle_bc_list); for (int i=0; i<2; i++) note(bc[i]); set_reflux_temp(bc[0],sp[0],1,2); int *ta = get_absorb_tally(bc[1]); fillw(ta,8);
    struct refl { species_t *sl; rng_pool_t *rp; float *pa, *pe; }; fillw(((refl*)bc[0]->params)->pa,8); fillw(((refl*)bc[0]->params)->pe,8);
    emitter_t *em[2]; em[0] = append_emitter(child_langmuir(sp[0],S->interpolator_array,S->field_array,S->accumulator_array,S->entropy,2,0.5f,0.25f,0.125f,3),&S->emitter_list); em[1] = append_emitter(child_langmuir(sp[1],S->interpolator_array,S->field_array,S->accumulator_array,S->sync_entropy,1,1,2,3,4),&S->emitter_list); for (int i=0; i<2; i++) note(em[i]); fillw(size_emitter(em[0],5),20);
    collision_op_t *co[4]; int nco = 0;
    co[nco++] = append_collision_op(langevin(0.5f,2,sp[0],S->entropy,3),&S->collision_op_list); co[nco++] = append_collision_op(takizuka_abe("ta",sp[0],sp[1],S->entropy,0.25,7),&S->collision_op_list);
    co[nco++] = append_collision_op(hard_sphere("hs",sp[0],1,sp[1],2,S->entropy,0.5,9),&S->collision_op_list); co[nco++] = append_collision_op(hard_sphere_fluid("fl",0.5f,1,2,3,4,5,6,sp[1],7,S->entropy,4),&S->collision_op_list);
    for (int i=0; i<nco; i++) note(co[i]); binary_collision_model_t *bm = (binary_collision_model_t*)co[2]->params; unary_collision_model_t *um = (unary_collision_model_t*)co[3]->params; note(bm->params); note(um->params); fillw(bm->params,12); fillw(um->params,16);
    for (int j=0; j<2; j++) { rng_pool_t *rp = j ? S->sync_entropy : S->entropy; for (int i=0; i<rp->n_rng; i++) { note(rp->rng[i]); if (m&4) fillw(rp->rng[i],64); } }
    S->num_step = (int)hs_bits("num_step",32); S->verbose = (int)hs_bits("verbose",32); for (int i=0; i<16384; i += 1260) S->user_global[i] = (char)hs_bits("g",8); S->user_global[16383] = (char)hs_bits("g",8);
    for (int i=0; i<2; i++) fillw(&sp[i]->q,8);
    checkpt_objects(file);
    for (int i=0; i<nt; i++) hs_chk(object_id(T[i].p)==T[i].id,"checkpointing changes nothing");
    restore_objects(file); reanimate_objects();
    vpic_simulation *R = (vpic_simulation*)now(S); if (!R) { hs_chk(0,"simulation restored"); return; }
    for (int i=0; i<nt; i++) hs_chk(T[i].p==world || (now(T[i].p) && now(T[i].p)!=T[i].p),"every object restored anew");
    hs_chk(R->num_step==S->num_step && R->verbose==S->verbose && R->num_comm_round==S->num_comm_round && R->num_div_e_round==S->num_div_e_round,"settings"); same(S->user_global,R->user_global,16384,"user globals");
    ptr(S->entropy,R->entropy,"pointer"); ptr(S->sync_entropy,R->sync_entropy,"pointer"); ptr(g,R->grid,"pointer"); ptr(S->material_list,R->material_list,"pointer"); ptr(S->field_array,R->field_array,"pointer"); ptr(S->interpolator_array,R->interpolator_array,"pointer"); ptr(S->accumulator_array,R->accumulator_array,"pointer"); ptr(S->hydro_array,R->hydro_array,"pointer"); ptr(S->species_list,R->species_list,"pointer"); ptr(S->particle_bc_list,R->particle_bc_list,"pointer"); ptr(S->emitter_list,R->emitter_list,"pointer"); ptr(S->collision_op_list,R->collision_op_list,"pointer");
    grid_t *h = R->grid; if (!h) return; same(g,h,(size_t)((char*)&g->range-(char*)g),"grid"); same(g->range,h->range,8*(world_size+1),"range"); same(g->neighbor,h->neighbor,48*g->nv,"neighbours"); hs_chk(g->rangel==h->rangel && g->rangeh==h->rangeh,"range of this domain"); ptr(g->mp,h->mp,"pointer"); hs_chk(((size_t)h->neighbor&127)==0 && ((size_t)h->range&15)==0,"alignment");
    same(mp_send_buffer(g->mp,1),mp_send_buffer(h->mp,1),40,"send buffer"); same(mp_recv_buffer(g->mp,5),mp_recv_buffer(h->mp,5),24,"receive buffer"); mp_size_send_buffer(h->mp,1,40); mp_size_send_buffer(h->mp,3,8); hs_chk(mp_send_buffer(h->mp,3)!=NULL,"buffers can still grow"); same(mp_send_buffer(g->mp,1),mp_send_buffer(h->mp,1),40,"send buffer kept");
    material_t *a = S->material_list, *b = R->material_list; int k = 0; for (; a && b; a = a->next, b = b->next, k++) { text(a->name,b->name,"material name"); hs_chk(a->id==b->id,"material id"); same(&a->epsx,&b->epsx,48,"material values"); ptr(a->next,b->next,"pointer"); } hs_chk(!a && !b && k==(m&2 ? 2 : 1),"materials");
    field_array_t *fa = S->field_array, *fb = R->field_array; same(fa->f,fb->f,sizeof(field_t)*g->nv,"fields"); hs_chk(((size_t)fb->f&127)==0,"alignment"); hs_chk(fb->g==h,"pointer"); hs_chk(memcmp(fa->kernel,fb->kernel,sizeof(fa->kernel))==0,"kernels"); 
    struct sfa { void *mc; int n_mc; float damp; }; hs_chk(((sfa*)fa->params)->n_mc==((sfa*)fb->params)->n_mc,"material coefficients"); for (int i=0; i<((sfa*)fa->params)->n_mc; i++) same((char*)((sfa*)fa->params)->mc+64*i,(char*)((sfa*)fb->params)->mc+64*i,52,"material coefficients"); hs_near(((sfa*)fb->params)->damp,((sfa*)fa->params)->damp,0,"damping");
    same(S->interpolator_array->i,R->interpolator_array->i,sizeof(interpolator_t)*g->nv,"interpolators"); hs_chk(R->interpolator_array->g==h,"pointer");
    accumulator_array_t *aa = S->accumulator_array, *ab = R->accumulator_array; hs_chk(aa->n_pipeline==ab->n_pipeline && aa->stride==ab->stride && ab->g==h,"accumulators"); same(aa->a,ab->a,sizeof(accumulator_t)*na*aa->stride,"accumulators");
    hydro_array_t *ha = S->hydro_array, *hb = R->hydro_array; hs_chk(ha->n_pipeline==hb->n_pipeline && ha->stride==hb->stride && hb->g==h,"hydro"); same(ha->h,hb->h,sizeof(hydro_t)*(ha->n_pipeline+1)*ha->stride,"hydro");
    for (int i=0; i<2; i++) { species_t *p = sp[i], *q = (species_t*)now(p); if (!q) continue; text(p->name,q->name,"species name"); hs_chk(p->np==q->np && p->nm==q->nm && p->max_np==q->max_np && p->max_nm==q->max_nm && p->last_sorted==q->last_sorted && p->sort_interval==q->sort_interval && p->sort_out_of_place==q->sort_out_of_place && p->id==q->id,"species counters"); same(&p->q,&q->q,8,"species charge and mass");
      same(p->p,q->p,32*p->np,"particles"); same(p->pm,q->pm,16*p->nm,"movers"); same(p->partition,q->partition,4*(g->nv+1),"partition"); hs_chk(q->g==h,"pointer"); ptr(p->next,q->next,"pointer"); hs_chk(((size_t)q->p&127)==0 && ((size_t)q->pm&127)==0,"alignment"); q->p[q->max_np-1].i = 4; q->pm[q->max_nm-1].i = 4; }
    for (int i=0; i<2; i++) { particle_bc_t *p = bc[i], *q = (particle_bc_t*)now(p); if (!q) continue; hs_chk(p->interact==q->interact && p->delete_pbc==q->delete_pbc && p->id==q->id,"boundary handler"); ptr(p->next,q->next,"pointer"); }
    { refl *p = (refl*)bc[0]->params, *q = (refl*)((particle_bc_t*)now(bc[0]))->params; ptr(p->sl,q->sl,"pointer"); ptr(p->rp,q->rp,"pointer"); same(p->pa,q->pa,8,"reflux temperatures"); same(p->pe,q->pe,8,"reflux temperatures"); int *tb = get_absorb_tally((particle_bc_t*)now(bc[1])); same(ta,tb,8,"tally"); struct tal { species_t *sl; field_array_t *fa; int *t; }; tal *u = (tal*)((particle_bc_t*)now(bc[1]))->params; ptr(S->species_list,u->sl,"pointer"); ptr(fa,u->fa,"pointer"); }
    struct cl { species_t *sp; interpolator_array_t *ia; field_array_t *fa; accumulator_array_t *aa; rng_pool_t *rng; int n; float a, b, c, d; };
    for (int i=0; i<2; i++) { emitter_t *p = em[i], *q = (emitter_t*)now(p); if (!q) continue; hs_chk(p->emit==q->emit && p->delete_e==q->delete_e && p->n_component==q->n_component,"emitter"); if (p->n_component) { same(p->component,q->component,4*p->n_component,"components"); hs_chk(((size_t)q->component&127)==0,"alignment"); } ptr(p->next,q->next,"pointer"); cl *u = (cl*)p->params, *v = (cl*)q->params; ptr(u->sp,v->sp,"pointer"); ptr(u->ia,v->ia,"pointer"); ptr(u->fa,v->fa,"pointer"); ptr(u->aa,v->aa,"pointer"); ptr(u->rng,v->rng,"pointer"); same(&u->n,&v->n,20,"emission parameters"); }
    for (int i=0; i<nco; i++) { collision_op_t *p = co[i], *q = (collision_op_t*)now(p); if (!q) continue; hs_chk(p->apply==q->apply && p->delete_cop==q->delete_cop,"collision operator"); ptr(p->next,q->next,"pointer"); }
    { langevin_t *p = (langevin_t*)co[0]->params, *q = (langevin_t*)((collision_op_t*)now(co[0]))->params; ptr(p->sp,q->sp,"pointer"); ptr(p->rp,q->rp,"pointer"); same(&p->kT,&q->kT,12,"Langevin parameters"); }
    { takizuka_abe_t *p = (takizuka_abe_t*)co[1]->params, *q = (takizuka_abe_t*)((collision_op_t*)now(co[1]))->params; text(p->name,q->name,"name"); ptr(p->spi,q->spi,"pointer"); ptr(p->spj,q->spj,"pointer"); ptr(p->rp,q->rp,"pointer"); hs_chk(p->interval==q->interval,"interval"); hs_near(p->cvar0,q->cvar0,0,"variance"); }
    { binary_collision_model_t *p = bm, *q = (binary_collision_model_t*)((collision_op_t*)now(co[2]))->params; text(p->name,q->name,"name"); hs_chk(p->rate_constant==q->rate_constant && p->collision==q->collision && p->interval==q->interval,"binary model"); hs_near(p->sample,q->sample,0,"sampling"); ptr(p->params,q->params,"pointer"); ptr(p->spi,q->spi,"pointer"); ptr(p->spj,q->spj,"pointer"); ptr(p->rp,q->rp,"pointer"); same(p->params,q->params,12,"hard sphere parameters"); }
    { unary_collision_model_t *p = um, *q = (unary_collision_model_t*)((collision_op_t*)now(co[3]))->params; text(p->name,q->name,"name"); hs_chk(p->rate_constant==q->rate_constant && p->collision==q->collision && p->interval==q->interval,"unary model"); ptr(p->params,q->params,"pointer"); ptr(p->sp,q->sp,"pointer"); ptr(p->rp,q->rp,"pointer"); same(p->params,q->params,16,"hard sphere parameters"); }
    for (int j=0; j<2; j++) { rng_pool_t *p = j ? S->sync_entropy : S->entropy, *q = (rng_pool_t*)now(p); if (!q) continue; hs_chk(p->n_rng==q->n_rng && p->rng!=q->rng,"generators"); for (int i=0; i<p->n_rng; i++) { ptr(p->rng[i],q->rng[i],"pointer"); same(p->rng[i],q->rng[i],sizeof(rng_t)-12,"state of the generator"); hs_chk(((size_t)q->rng[i]&127)==0,"alignment"); } }
    return;
  }
  /* op 4: any history of registrations and removals */
  int len = hs_cfg(1); static int z[4]; size_t id[4] = { 0,0,0,0 }, seen[16]; int ns = 0;
  for (int s=0; s<len; s++) {
    int i = hs_choose("object",4); if (id[i]) { unregister_object(z+i); id[i] = 0; } else { register_object(z+i,NULL,NULL,NULL); id[i] = object_id(z+i); hs_chk(id[i]!=0,"identifier of a registered object"); for (int k=0; k<ns; k++) hs_chk(seen[k]!=id[i],"identifiers are never reused"); seen[ns++] = id[i]; }
    for (int k=0; k<4; k++) { hs_chk(object_id(z+k)==id[k],"identifier"); if (id[k]) hs_chk(object_ptr(id[k])==z+k,"object of the identifier"); }
    for (int k=0; k<ns; k++) { int live = 0; for (int j=0; j<4; j++) live |= id[j]==seen[k]; if (!live) hs_chk(object_ptr(seen[k])==NULL,"identifier of a removed object"); }
  }
  for (int k=0; k<4; k++) if (id[k]) unregister_object(z+k); unregister_object(world); halt_checkpt(); { int c = 1; char *v[2] = { NULL,NULL }; char **w = v; boot_checkpt(&c,&w); } hs_chk(object_id(z)==0,"empty after a new start");
}
