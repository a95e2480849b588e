// Domain partition: every process' metric, cell numbering, neighbour table and wall conditions.
// cfg: kind(0 periodic 1 absorbing 2 metal 3 different sizes along x 4 bad faces 5 bad arguments) gnx gny gnz gpx gpy gpz shapes(0 given,1 symbolic) ieee
#include "vh.h"
static int rank_of(const int *i, const int *P) { return i[0]+P[0]*(i[1]+P[1]*i[2]); }
static void sizes(grid_t *g, int nx, int ny, int nz) {
  hs_chk(g->nx==nx && g->ny==ny && g->nz==nz, "local resolution");
  hs_chk(g->sx==1 && g->sy==nx+2 && g->sz==(nx+2)*(ny+2) && g->nv==(nx+2)*(ny+2)*(nz+2), "voxel strides");
}
static int64_t gather(int64_t x, int64_t *all) { mp_allgather_i64(&x, all, 1); return x; }
void hs_main(void) {
  int kind = hs_cfg(0), N[3], P[3];
  vh_boot();
  int me = world_rank, nr = world_size;
  grid_t *g = new_grid();
  if (kind==3) {                                   // processes along x with different x sizes; same y,z
    int n[3] = { hs_cfg(1)+(me*7)%3, hs_cfg(2), hs_cfg(3) };
    size_grid(g,n[0],n[1],n[2]); sizes(g,n[0],n[1],n[2]);
    int64_t all[17]; gather(g->nv, all);
    int64_t base[18]; base[0] = 0; for (int r=0; r<nr; r++) base[r+1] = base[r]+all[r];
    for (int r=0; r<=nr; r++) hs_chk(g->range[r]==base[r], "global numbering");
    hs_chk(g->rangel==base[me] && g->rangeh==base[me+1]-1, "own range");
    int lo = (me+nr-1)%nr, hi = (me+1)%nr;
    int dir = hs_cfg(7);                            // axis along which they are joined; others stay walls
    if (dir!=0) { delete_grid(g); g = new_grid(); int m[3] = { hs_cfg(1),hs_cfg(2),hs_cfg(3) }; m[dir] += (me*7)%3; n[0] = m[0]; n[1] = m[1]; n[2] = m[2]; size_grid(g,n[0],n[1],n[2]); int64_t a2[17]; gather(g->nv,a2); for (int r=0; r<nr; r++) base[r+1] = base[r]+a2[r]; }
    join_grid(g, vh_bnd[dir], lo); join_grid(g, vh_bnd[dir+3], hi);
    int a1 = (dir+1)%3, a2 = (dir+2)%3;
    set_pbc(g, vh_bnd[a1], absorb_particles); set_pbc(g, vh_bnd[a1+3], -7);
    for (int z=0; z<=n[2]+1; z++) for (int y=0; y<=n[1]+1; y++) for (int x=0; x<=n[0]+1; x++) {
      int p[3] = { x,y,z }, v = VOXEL(x,y,z,n[0],n[1],n[2]), gh = 0;
      for (int a=0; a<3; a++) gh |= p[a]==0 || p[a]==n[a]+1;
      for (int f=0; f<6; f++) {
        int a = f%3, up = f>=3, q[3] = { x,y,z }, m[3] = { n[0],n[1],n[2] }; int64_t want;
        q[a] += up ? 1 : -1;
        if (gh) want = reflect_particles;
        else if (q[a]>=1 && q[a]<=n[a]) want = base[me]+VOXEL(q[0],q[1],q[2],n[0],n[1],n[2]);
        else if (a==a1) want = up ? -7 : absorb_particles;
        else if (a==a2) want = reflect_particles;
        else { int o = up ? hi : lo; m[dir] = hs_cfg(1+dir)+(o*7)%3; q[a] = up ? 1 : m[dir]; want = base[o]+VOXEL(q[0],q[1],q[2],m[0],m[1],m[2]); }
        hs_chk(g->neighbor[6*(int64_t)v+f]==want, "neighbour cell");
      }
    }
    hs_reach("sizes differ"); return;
  }
  if (kind==4) {                                   // joining a face of another shape is refused
    int n[3] = { 2,2,2 }; int a = hs_cfg(1), b = hs_cfg(2);
    if (me==1) n[b] = 3+hs_cfg(3);
    size_grid(g,n[0],n[1],n[2]);
    if (b!=a && (((n[0]+2)*(n[1]+2)*(n[2]+2))%16 || 1)) {
      int rnc = me==0 ? (n[(b+1)%3]+2)*(n[(b+2)%3]+2)*(5+hs_cfg(3)) : 64, face = (n[(a+1)%3]+2)*(n[(a+2)%3]+2);
      if (rnc%face) { hs_expect_exit(1); join_grid(g, vh_bnd[a], 1-me); hs_chk(0,"incompatible face accepted"); }
    }
    hs_reach("compatible"); return;
  }
  if (kind==5) {                                   // refused arguments
    size_grid(g,2,2,2);
    int w = hs_choose("call",3), b = hs_int("boundary",-2,30), x = hs_int("x",-9,9);
    int bad = b<0 || b>26 || b==13;
    if (w==0) bad |= x<0 || x>=nr; else if (w==1) bad |= x!=pec_fields && x!=symmetric_fields && x!=pmc_fields && x!=absorb_fields; else bad |= x>=0;
    if (bad) hs_expect_exit(1);
    else { b = hs_conc(b); x = hs_conc(x); }
    if (w==0) join_grid(g,b,x); else if (w==1) set_fbc(g,b,x); else set_pbc(g,b,x);
    if (bad) { hs_chk(0,"bad argument accepted"); return; }
    int f = -1; for (int i=0; i<6; i++) if (vh_bnd[i]==b) f = i;
    if (w!=2) hs_chk(g->bc[b]==x, "boundary condition stored");
    for (int i=0; i<27; i++) if (i!=b || w==2) hs_chk(g->bc[i]==(i==13 ? me : pec_fields), "other boundaries unchanged");
    if (w==2) for (int z=1; z<=2; z++) for (int y=1; y<=2; y++) for (int xx=1; xx<=2; xx++) for (int i=0; i<6; i++) {
      int p[3] = { xx,y,z }, out = i>=3 ? p[i%3]==2 : p[i%3]==1;
      if (out) hs_chk(g->neighbor[6*VOXEL(xx,y,z,2,2,2)+i]==(i==f ? x : reflect_particles), "particle condition of exactly that wall");
    }
    hs_reach("accepted"); return;
  }
  double g0[3] = { hs_f64("gx0",-4,4), hs_f64("gy0",-4,4), hs_f64("gz0",-4,4) };
  double L[3] = { hs_f64("lx",0.5,8), hs_f64("ly",0.5,8), hs_f64("lz",0.5,8) }, g1[3] = { g0[0]+L[0], g0[1]+L[1], g0[2]+L[2] };
  for (int a=0; a<3; a++) { N[a] = hs_cfg(1+a); P[a] = hs_cfg(4+a); }
  int pbc = -1-hs_choose("pbc",kind==1 ? 3 : 1);
  if (hs_cfg(7)) {
    static const char *const nn[3] = { "gnx","gny","gnz" }, *const pn[3] = { "gpx","gpy","gpz" };
    int ok = 1;
    for (int a=0; a<3; a++) { if (hs_cfg(7)>>a&1) { N[a] = hs_int(nn[a],-1,N[a]); } P[a] = hs_int(pn[a],-1,P[a]); ok &= N[a]>=1 && P[a]>=1; }
    ok &= P[0]*P[1]*P[2]==nr;
    if (ok) { for (int a=0; a<3; a++) { P[a] = hs_conc(P[a]); ok &= N[a]%P[a]==0; } }
    if (ok) { for (int a=0; a<3; a++) N[a] = hs_conc(N[a]); }
    if (!ok) {
      hs_expect_exit(1);
      if (kind==0) partition_periodic_box(g, g0[0],g0[1],g0[2], g1[0],g1[1],g1[2], N[0],N[1],N[2], P[0],P[1],P[2]);
      else if (kind==1) partition_absorbing_box(g, g0[0],g0[1],g0[2], g1[0],g1[1],g1[2], N[0],N[1],N[2], P[0],P[1],P[2], pbc);
      else partition_metal_box(g, g0[0],g0[1],g0[2], g1[0],g1[1],g1[2], N[0],N[1],N[2], P[0],P[1],P[2]);
      hs_chk(0,"impossible decomposition accepted"); return;
    }
  }
  if (kind==0) partition_periodic_box(g, g0[0],g0[1],g0[2], g1[0],g1[1],g1[2], N[0],N[1],N[2], P[0],P[1],P[2]);
  else if (kind==1) partition_absorbing_box(g, g0[0],g0[1],g0[2], g1[0],g1[1],g1[2], N[0],N[1],N[2], P[0],P[1],P[2], pbc);
  else partition_metal_box(g, g0[0],g0[1],g0[2], g1[0],g1[1],g1[2], N[0],N[1],N[2], P[0],P[1],P[2]);
  int n[3] = { N[0]/P[0], N[1]/P[1], N[2]/P[2] }, i[3] = { me%P[0], me/P[0]%P[1], me/P[0]/P[1] };
  sizes(g,n[0],n[1],n[2]);
  const float *lo[3] = { &g->x0,&g->y0,&g->z0 }, *hi[3] = { &g->x1,&g->y1,&g->z1 }, *d[3] = { &g->dx,&g->dy,&g->dz }, *rd[3] = { &g->rdx,&g->rdy,&g->rdz };
  static const char *const an[3] = { "x","y","z" };
  if (!hs_cfg(8)) {
    double v = 1;
    for (int a=0; a<3; a++) {
      double h = L[a]/N[a]; v *= h;
      hs_near_at(*d[a], h, 1e-5, "cell size", an[a],0,0,0); hs_near_at((double)*rd[a]*h, 1, 1e-4, "inverse cell size", an[a],0,0,0);
      hs_near_at(*lo[a], g0[a]+h*n[a]*i[a], 2e-5, "low corner", an[a],0,0,0);
      hs_near_at(*hi[a], g0[a]+h*n[a]*(i[a]+1), 2e-5, "high corner", an[a],0,0,0);
    }
    hs_near(g->dV, v, 1e-4, "cell volume"); hs_near((double)g->r8V*8*v, 1, 1e-4, "inverse cell volume");
  } else {                                          // exact floating point: domains tile without gaps, grid is coherent
    int64_t al[17], ah[17];
    for (int a=0; a<3; a++) {
      uint32_t bl, bh; memcpy(&bl,lo[a],4); memcpy(&bh,hi[a],4);
      gather(bl,al); gather(bh,ah);
      for (int r=0; r<nr; r++) {
        int j[3] = { r%P[0], r/P[0]%P[1], r/P[0]/P[1] };
        if (j[a]==i[a]) hs_chk(al[r]==(int64_t)bl && ah[r]==(int64_t)bh, "corners agree across the plane");
        if (j[a]==i[a]+1) hs_chk(al[r]==(int64_t)bh, "low corner is the neighbour's high corner");
      }
      uint32_t bd, br; int64_t ad[17]; memcpy(&bd,d[a],4); memcpy(&br,rd[a],4);
      gather(bd,ad); for (int r=0; r<nr; r++) hs_chk(ad[r]==(int64_t)bd, "cell size agrees");
      gather(br,ad); for (int r=0; r<nr; r++) hs_chk(ad[r]==(int64_t)br, "inverse cell size agrees");
    }
    hs_reach("coherent"); return;
  }
  int64_t nv = g->nv;
  for (int r=0; r<=nr; r++) hs_chk(g->range[r]==r*nv, "global numbering");
  hs_chk(g->rangel==me*nv && g->rangeh==(me+1)*nv-1, "own range");
  for (int f=0; f<6; f++) {
    int a = f%3, up = f>=3, j[3] = { i[0],i[1],i[2] }; j[a] += up ? 1 : -1;
    int wall = kind && N[a]>1 && (j[a]<0 || j[a]>=P[a]);
    j[a] = (j[a]+P[a])%P[a];
    hs_chk(g->bc[vh_bnd[f]]==(wall ? kind==1 ? absorb_fields : pec_fields : rank_of(j,P)), "field condition of the wall");
  }
  hs_chk(g->bc[13]==me, "centre names the process");
  for (int z=0; z<=n[2]+1; z++) for (int y=0; y<=n[1]+1; y++) for (int x=0; x<=n[0]+1; x++) {
    int p[3] = { x,y,z }, v = VOXEL(x,y,z,n[0],n[1],n[2]), gh = 0;
    for (int a=0; a<3; a++) gh |= p[a]==0 || p[a]==n[a]+1;
    for (int f=0; f<6; f++) {
      int a = f%3, G[3], o[3], q[3]; int64_t want;
      for (int b=0; b<3; b++) G[b] = i[b]*n[b]+p[b]-1;
      G[a] += f>=3 ? 1 : -1;
      if (gh) want = reflect_particles;
      else if (kind && N[a]>1 && (G[a]<0 || G[a]>=N[a])) want = kind==1 ? pbc : reflect_particles;
      else {
        G[a] = (G[a]+N[a])%N[a];
        for (int b=0; b<3; b++) { o[b] = G[b]/n[b]; q[b] = G[b]%n[b]+1; }
        want = rank_of(o,P)*nv+VOXEL(q[0],q[1],q[2],n[0],n[1],n[2]);
      }
      hs_chk(g->neighbor[6*(int64_t)v+f]==want, "neighbour cell");
    }
  }
  hs_reach("partitioned");
}
