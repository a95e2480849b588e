// Boundary processing: movers of all species on every domain of a small world, every value arbitrary.
// cfg: px py pz nx ny nz codes ns np movermask cells rounds room schedule phase2 fill
// fill: further particles (fixed values) at the end of every list
// codes: faces -x,-y,-z,+x,+y,+z at the edges of the box: 0 periodic 1 reflecting 2 absorbing 3 recording handler
//        5 reinjecting handler 6 absorb_tally 7 unknown (particles there are dropped with a warning)
// movermask: bit i: particle i leaves (through face (i+variant)%6, the next usable one); cells: whole cells of displacement beyond the face
// room: 0 ample storage 1 tight (has to grow) 2 far too large (has to shrink)
#define IN_boundary
#include "vh.h"
#include "boundary/boundary_private.h"
enum { R = 4, MAXP = 24, MAXS = 3 };
struct part { int rank, sp, v, face, moving, fate, ax, sg, cells, hits, hface, hv, isc; double r[3], u[3], w, d[3], rem; };
static part P[R][MAXS][MAXP]; static int n[3], D[3], W, kindw[R][6], nb[R][6], cfg_np, ns;
static int V(const int *c) { return VOXEL(c[0],c[1],c[2],n[0],n[1],n[2]); }
static species_t *sps[MAXS]; static grid_t *g; static int hbad = 0;
static part *who(const particle_t *p) { int t = (int)p->ux; for (int r=0; r<W; r++) for (int s=0; s<ns; s++) for (int i=0; i<cfg_np; i++) if (t==1+i+MAXP*(s+MAXS*r)) return &P[r][s][i]; return NULL; }
static int tagv = 5;
static int handle(void *params, species_t *sp, particle_t *p, particle_mover_t *pm, particle_injector_t *pi, int max_pi, int face) {
  part *q = who(p);
  if (params!=&tagv+0 && params!=&hbad) { hbad |= 1; return 0; }
  if (!q || max_pi!=1 || sp!=sps[q->sp]) { hbad |= 2; return 0; }
  q->hits++; q->hface = face; q->hv = p->i;
  hs_near(pm->dispx,q->d[0],1e-6,"handler sees the remaining displacement"); hs_near(pm->dispy,q->d[1],1e-6,"handler sees the remaining displacement"); hs_near(pm->dispz,q->d[2],1e-6,"handler sees the remaining displacement");
  hs_near(p->w,q->w,0,"handler sees the particle"); hs_near(p->uy,q->u[1],0,"handler sees the particle");
  if (params==&tagv) return 0;
  pi->dx = p->dx; pi->dy = p->dy; pi->dz = p->dz; pi->i = p->i; pi->ux = p->ux; pi->uy = -p->uy; pi->uz = -p->uz; pi->w = p->w;
  pi->dispx = pm->dispx; pi->dispy = pm->dispy; pi->dispz = pm->dispz; (&pi->dispx)[face%3] = -(&pm->dispx)[face%3]; pi->sp_id = sp->id;
  return 1;
}
void hs_main(void) {
  D[0] = hs_cfg(0); D[1] = hs_cfg(1); D[2] = hs_cfg(2); n[0] = hs_cfg(3); n[1] = hs_cfg(4); n[2] = hs_cfg(5); W = D[0]*D[1]*D[2];
  int codes = hs_cfg(6), cd[6]; ns = hs_cfg(7); int np = cfg_np = hs_cfg(8), mask = hs_cfg(9), cells = hs_cfg(10), rounds = hs_cfg(11), room = hs_cfg(12), var = hs_cfg(13), twice = hs_cfg(14), fill = hs_cfg(15);
  vh_threads(1,0); vh_boot();
  int me = hs_rank();
  for (int b=5; b>=0; b--) { cd[b] = codes%10; codes /= 10; }
  for (int r=0; r<W; r++) { int i[3] = { r%D[0], r/D[0]%D[1], r/D[0]/D[1] };
    for (int b=0; b<6; b++) { int j[3] = { i[0],i[1],i[2] }, a = b%3; j[a] += b<3 ? -1 : 1; int edge = j[a]<0 || j[a]>=D[a];
      if (edge && cd[b]) { kindw[r][b] = cd[b]; nb[r][b] = -1; } else { j[a] = (j[a]+D[a])%D[a]; nb[r][b] = j[0]+D[0]*(j[1]+D[1]*j[2]); kindw[r][b] = nb[r][b]==r ? 8 : 0; } } }
  g = new_grid(); size_grid(g,n[0],n[1],n[2]); g->dt = 0.5f; g->cvac = 2; g->eps0 = 1; g->dx = 1; g->dy = 0.5f; g->dz = 2; g->rdx = 1; g->rdy = 2; g->rdz = 0.5f; g->dV = 1; g->r8V = 0.125f;
  species_t *sl = NULL; int nmv = 0; for (int i=0; i<np; i++) nmv += mask>>i&1;
  for (int s=0; s<ns; s++) { char nm[4] = { 's',(char)('0'+s),0,0 }; int have = np+(s==1)+twice+fill; sps[s] = append_species(species(nm,hs_f32("q",-2,2),1,room==1 ? have : room==2 ? 600 : 64,room==1 ? (nmv ? nmv : 1)+twice : 32,0,0,g),&sl); }
  field_array_t *fa = vh_fields(g,1,0), *fb = vh_fields(g,1,0); memset(fa->f,0,sizeof(field_t)*g->nv);
  for (int v=0; v<g->nv; v++) fa->f[v].rhob = hs_f32("rhob",-1,1); memcpy(fb->f,fa->f,sizeof(field_t)*g->nv);
  interpolator_array_t *ia = new_interpolator_array(g); (void)ia; accumulator_array_t *aa = new_accumulator_array(g); clear_accumulator_array(aa);
  particle_bc_t *pl = NULL, *pb[3];
  pb[0] = append_particle_bc(new_particle_bc_internal(&tagv,handle,NULL,(checkpt_func_t)NULL,(restore_func_t)NULL,NULL),&pl);
  pb[1] = append_particle_bc(absorb_tally(sl,fa),&pl);
  pb[2] = append_particle_bc(new_particle_bc_internal(&hbad,handle,NULL,(checkpt_func_t)NULL,(restore_func_t)NULL,NULL),&pl);
  for (int b=0; b<6; b++) {
    if (nb[me][b]>=0) { join_grid(g,vh_bnd[b],nb[me][b]); continue; }
    int k = kindw[me][b]; set_fbc(g,vh_bnd[b],pec_fields);
    if (k==7) { set_pbc(g,vh_bnd[b],reflect_particles); for (int64_t q=0; q<6*(int64_t)g->nv; q++) if (q%6==b && g->neighbor[q]==reflect_particles) g->neighbor[q] = -77; continue; }
    set_pbc(g,vh_bnd[b], k==1 ? reflect_particles : k==2 ? absorb_particles : (int)get_particle_bc_id(pb[k==3 ? 0 : k==6 ? 1 : 2]));
  }
  int tally[MAXS] = { 0,0,0 };
  for (int phase=0; phase<1+twice; phase++) {
    if (phase) { mask = mask<<1|1; if (np<8) np++; cfg_np = np; }
    /* the particles of every domain */
    for (int r=0; r<W; r++) for (int s=0; s<ns; s++) {
      for (int i=0; i<np; i++) {
        part *q = &P[r][s][i]; q->rank = r; q->sp = s; q->hits = 0; q->isc = 0; q->moving = mask>>i&1; q->fate = 0; q->cells = 0; int c[3] = { 1+(i+s)%n[0],1+(i/2+r)%n[1],1+(i+i/3)%n[2] };
        for (int a=0; a<3; a++) { q->r[a] = hs_f32("x",-0.4375,0.4375); q->d[a] = 0; } q->u[0] = 1+i+MAXP*(s+MAXS*r); q->u[1] = hs_f32("uy",-2,2); q->u[2] = hs_f32("uz",-2,2); q->w = hs_f32("w",0,2); q->face = -1;
        if (q->moving) {
          int f = (i+var+s+r)%6, t = 0; while (t<6 && (kindw[r][f]==1 || kindw[r][f]==8)) { f = (f+1)%6; t++; }
          if (t==6) q->moving = 0; else {
            int a = f%3, sg = f<3 ? -1 : 1; q->face = f; q->ax = a; q->sg = sg; c[a] = sg<0 ? 1 : n[a]; q->r[a] = sg; q->cells = kindw[r][f]==0 ? ((cd[a] || cd[a+3]) && cells>=n[a] ? n[a]-1 : cells) : 0;
            for (int k=0; k<3; k++) q->d[k] = (i+k+s)%2 ? hs_f32("e",0.015625,0.125) : hs_f32("e",-0.125,-0.015625); q->rem = hs_f32("d",0.0625,0.4375); q->d[a] = sg*(q->cells+q->rem);
          }
        }
        q->v = V(c);
      }
    }
    for (int s=0; s<ns; s++) {
      species_t *sp = sps[s]; sp->np = np+fill; sp->nm = 0;
      for (int i=0; i<fill; i++) { particle_t *p = sp->p+np+i; p->dx = (i%7)*0.125f; p->dy = -0.25f; p->dz = 0.5f; p->ux = -1-i; p->uy = s; p->uz = i%5; p->w = 1+i%3; int c[3] = { 1+i%n[0],1+i%n[1],1+i%n[2] }; p->i = V(c); }
      for (int i=0; i<np; i++) {
        part *q = &P[me][s][i]; particle_t *p = sp->p+i; p->dx = q->r[0]; p->dy = q->r[1]; p->dz = q->r[2]; p->ux = q->u[0]; p->uy = q->u[1]; p->uz = q->u[2]; p->w = q->w; p->i = q->moving ? 8*q->v+q->face : q->v;
        if (q->moving) { particle_mover_t *m = sp->pm+sp->nm++; m->dispx = q->d[0]; m->dispy = q->d[1]; m->dispz = q->d[2]; m->i = i;
          if (kindw[me][q->face]==2 || kindw[me][q->face]==6) { particle_t t = *p; t.i = q->v; accumulate_rhob(fb->f,&t,g,sp->q); } if (kindw[me][q->face]==6) tally[s]++; }
      }
    }
    for (int k=0; k<rounds; k++) boundary_p(pl,sl,fa,aa);
    /* where everybody has to be now */
    int cnt[MAXS] = { 0,0,0 }, mv[MAXS] = { 0,0,0 };
    for (int r=0; r<W; r++) for (int s=0; s<ns; s++) for (int i=0; i<np; i++) {
      part *q = &P[r][s][i]; int c[3] = { q->v%(n[0]+2),q->v/(n[0]+2)%(n[1]+2),q->v/(n[0]+2)/(n[1]+2) };
      q->fate = 1;                                            /* in domain q->rank, cell q->v, at q->r; 2: same with a mover; 0: gone */
      if (!q->moving) { cnt[s] += q->rank==me; continue; }
      int k = kindw[r][q->face], a = q->ax, sg = q->sg;
      if (k==2 || k==3 || k==6 || k==7) q->fate = 0;
      for (int t=0; t<3; t++) if (t!=a) q->r[t] += 2*q->d[t];
      if (k==3 || k==5) { if (r==me) hs_chk(q->hits==1 && q->hface==q->face && q->hv==q->v,"handler called once with cell and face"); } else if (r==me) hs_chk(q->hits==0,"handler not called");
      if (k==5) { q->r[a] -= 2*sg*q->rem; q->u[1] = -q->u[1]; q->u[2] = -q->u[2]; }
      if (k==0) {
        int left = q->cells, round = 0, done = 0;
        while (round<rounds && !done) {                        /* enters the next domain */
          q->rank = nb[q->rank][q->face]; round++; c[a] = sg<0 ? n[a] : 1;
          while (left && (sg<0 ? c[a]>1 : c[a]<n[a])) { c[a] += sg; left--; }
          if (!left) { done = 1; break; }
          left--;                                             /* leaves this cell through the far face */
        }
        q->v = V(c);
        if (done) q->r[a] = -sg+2*sg*q->rem; else { q->fate = 2; q->isc = left; q->r[a] = sg; double tot = q->cells+q->rem; for (int t=0; t<3; t++) if (t!=a) q->r[t] -= 2*q->d[t]*(q->isc+q->rem)/tot; }
      }
      if (q->fate && q->rank==me) { cnt[s]++; mv[s] += q->fate==2; }
    }
    hs_chk(hbad==0,"handler arguments");
    int *tl = get_absorb_tally(pb[1]);
    for (int s=0; s<ns; s++) {
      species_t *sp = sps[s]; int seen[R*MAXS*MAXP+1]; for (int t=0; t<=R*MAXS*MAXP; t++) seen[t] = 0;
      hs_chk(tl[s]==tally[s],"tally counts the absorbed particles");
      hs_chk(sp->np==cnt[s]+fill,"number of particles"); hs_chk(sp->nm==mv[s],"number of movers"); hs_chk(sp->np<=sp->max_np && sp->nm<=sp->max_nm,"within the storage");
      int isp[512]; char sf[512]; for (int i=0; i<512; i++) isp[i] = -1, sf[i] = 0;
      for (int m=0; m<sp->nm && m<512; m++) { int i = sp->pm[m].i; hs_chk(i>=0 && i<sp->np,"mover names a particle"); if (m) hs_chk(i>sp->pm[m-1].i,"movers in order of the particles"); if (i>=0 && i<512) isp[i] = m; }
      for (int i=0; i<sp->np && i<512; i++) {
        particle_t *p = sp->p+i;
        if (fill && p->ux<0) { int t = -1-(int)p->ux, c[3] = { 1+t%n[0],1+t%n[1],1+t%n[2] }; hs_chk(t>=0 && t<fill && !sf[t] && p->dx==(t%7)*0.125f && p->dy==-0.25f && p->dz==0.5f && p->uy==s && p->uz==t%5 && p->w==1+t%3 && p->i==V(c) && isp[i]<0,"particles that stay are kept"); if (t>=0 && t<512) sf[t] = 1; continue; }
        part *q = who(p);
        hs_chk(q!=NULL && q->sp==s && q->rank==me && q->fate!=0,"a particle that belongs here"); if (!q) continue;
        int t = (int)p->ux; hs_chk(!seen[t],"each particle once"); seen[t] = 1;
        hs_chk(p->i==(q->fate==2 ? 8*q->v+q->face : q->v),"cell"); 
        hs_near_at(p->dx,q->r[0],q->moving ? 1e-5 : 0,"position","x",i,s,0); hs_near_at(p->dy,q->r[1],q->moving ? 1e-5 : 0,"position","y",i,s,0); hs_near_at(p->dz,q->r[2],q->moving ? 1e-5 : 0,"position","z",i,s,0);
        hs_near_at(p->uy,q->u[1],0,"momentum","y",i,s,0); hs_near_at(p->uz,q->u[2],0,"momentum","z",i,s,0); hs_near_at(p->w,q->w,0,"weight","w",i,s,0);
        hs_chk((isp[i]>=0)==(q->fate==2),"has a mover when unfinished");
        if (q->fate==2 && isp[i]>=0) { const float *d = &sp->pm[isp[i]].dispx; int a = q->ax; hs_near(d[a],q->sg*(q->isc+q->rem),1e-5,"unspent displacement"); 
          for (int t=0; t<3; t++) if (t!=a) { double tot = q->cells+q->rem, left = q->isc+q->rem; hs_chk(1,"-"); hs_near(d[t]*tot,q->d[t]*left,1e-4,"same fraction unspent"); } }
      }
    }
    for (int v=0; v<g->nv; v++) hs_near_at(fa->f[v].rhob,fb->f[v].rhob,1e-5,"bound charge","rhob",v,0,0);
    for (int v=0; v<g->nv; v++) hs_near(fa->f[v].rhof,0,0,"other fields untouched");
  }
}
