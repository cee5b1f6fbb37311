// Records what happens to particles that leave the box and which boundary copies (ghosts) exist, in fabricated states
// (mode=fab: CheckBoundaries, SearchBoundaryGhostParticles, CopyHydroDataToGhosts called on random particles) and in
// runs (mode=run: at every wrap and every refresh of the copies). Validated against spec/BoundariesTrace.
#include "hcommon.h"
#include "MeshlessFV.h"
#include "Ghosts.h"
#include "SphNeighbourSearch.h"
#include "MfvNeighbourSearch.h"
FILE* gout=NULL;
template<int ndim> struct Rec {
  Simulation<ndim>* sim; bool mfv, on; typedef MeshlessFVParticle<ndim> MP; typedef GradhSphParticle<ndim> SP;
  Hydrodynamics<ndim>* H() { return sim->hydro; }
  Particle<ndim>& G(int i) { return sim->hydro->GetParticlePointer(i); }
  double size(int k) { return sim->simbox.max[k]-sim->simbox.min[k]; }
  static bool eq(double a,double b) { return a==b||fabs(a-b)<=1e-11*(fabs(a)+fabs(b)); }
  bool at(double a,double b,int k) { return fabs(a-b)<=1e-11; }
  // all of: 0 as before, 1 one box up, 2 one box down, 3 mirrored at the lower side, 4 at the upper side that fit
  std::string moved(double a,double b,int k) { auto&B=sim->simbox; std::string s; auto add=[&](int c) { s+=(s.empty()?"":",")+std::to_string(c); }; if (a==b) add(0);
    if (B.boundary_lhs[k]!=openBoundary||B.boundary_rhs[k]!=openBoundary) { if (at(b,a+size(k),k)) add(1); if (at(b,a-size(k),k)) add(2); if (at(b,2*B.min[k]-a,k)) add(3); if (at(b,2*B.max[k]-a,k)) add(4); } return "["+s+"]"; }
  static int sgn(double a,double b) { return a==0&&b==0?2:a==b?0:a==-b?1:9; }
  std::string keep; std::vector<std::string> st0;
  char* raw(int i) { return (char*)(mfv?(void*)&(MP&)G(i):(void*)&(SP&)G(i)); }
  size_t len() { return mfv?sizeof(MP):sizeof(SP); }
  void before() { st0.clear(); for (int i=0;i<H()->Nhydro;i++) st0.push_back(std::string(raw(i),len())); }
  void after() {
    Ev e("wrap"); std::string s="["; bool first=true; auto&B=sim->simbox; int still=0;
    for (int i=0;i<H()->Nhydro;i++) {
      std::vector<char> o(st0[i].begin(),st0[i].end()); Particle<ndim>&p=*(Particle<ndim>*)&o[0], &q=G(i); if (p.flags.is_dead()) continue; bool out=false;
      for (int k=0;k<ndim;k++) if (p.r[k]<B.min[k]||p.r[k]>B.max[k]) out=true;
      bool same=!memcmp(&o[0],raw(i),len()); if (!out&&same) { still++; continue; }
      std::string w="[",m="[",m0="[",sg="["; bool in=true;
      for (int k=0;k<ndim;k++) { const char*c=k?",":""; int wh=p.r[k]<B.min[k]?1:p.r[k]>B.max[k]?2:0; w+=c+std::to_string(wh); m+=c+moved(p.r[k],q.r[k],k); m0+=c+moved(p.r0[k],q.r0[k],k);
        int z[8]={sgn(p.v[k],q.v[k]),sgn(p.v0[k],q.v0[k]),sgn(p.a[k],q.a[k]),sgn(p.a0[k],q.a0[k]),2,2,2,2}; int nz=4; if (mfv) { MP&a=*(MP*)&o[0],&b=(MP&)q; z[4]=sgn(a.Qcons0[k],b.Qcons0[k]); z[5]=sgn(a.dQ[k],b.dQ[k]); z[6]=sgn(a.dQdt[k],b.dQdt[k]); nz=7; }
        int r=2; for (int d=0;d<nz;d++) { if (z[d]==2) continue; if (r==2) r=z[d]; else if (r!=z[d]) r=9; } sg+=c+std::to_string(r);
        if (!(q.r[k]>=B.min[k]&&q.r[k]<=B.max[k])) in=false; if (wh==1&&p.r[k]<B.min[k]-size(k)) in=true; if (wh==2&&p.r[k]>B.max[k]+size(k)) in=true;
        p.r[k]=q.r[k]; p.r0[k]=q.r0[k]; p.v[k]=q.v[k]; p.v0[k]=q.v0[k]; p.a[k]=q.a[k]; p.a0[k]=q.a0[k]; if (mfv) { MP&a=*(MP*)&o[0],&b=(MP&)q; a.Qcons0[k]=b.Qcons0[k]; a.dQ[k]=b.dQ[k]; a.dQdt[k]=b.dQdt[k]; a.rdmdt[k]=b.rdmdt[k]; a.rdmdt0[k]=b.rdmdt0[k]; } }
      bool rest=!memcmp(&o[0],raw(i),len());
      s+=std::string(first?"":",")+"{\"i\":"+std::to_string(i+1)+",\"w\":"+w+"],\"m\":"+m+"],\"m0\":"+m0+"],\"s\":"+sg+"],\"in\":"+(in?"true":"false")+",\"rest\":"+(rest?"true":"false")+"}"; first=false;
    }
    e.raw("ps",s+"]").num("still",still); emit(e);
  }
  long q20(double x,int k) { double y=floor(x*(1<<20)); return y>1e9?1000000000L:y<-1e9?-1000000000L:(long)y; }
  bool closed(int k) { return sim->simbox.boundary_lhs[k]!=openBoundary||sim->simbox.boundary_rhs[k]!=openBoundary; }
  int code(Particle<ndim>&g,int k) { static const int P[3][4]={{x_periodic_lhs,x_periodic_rhs,x_mirror_lhs,x_mirror_rhs},{y_periodic_lhs,y_periodic_rhs,y_mirror_lhs,y_mirror_rhs},{z_periodic_lhs,z_periodic_rhs,z_mirror_lhs,z_mirror_rhs}};
    int c=0; for (int d=0;d<4;d++) if (g.flags.get()&P[k][d]) c=c?9:d+1; return c; }
  bool same(Particle<ndim>&g,Particle<ndim>&s,const std::vector<int>&img,bool full) {
    if (!(g.m==s.m&&g.h==s.h&&g.ptype==s.ptype&&g.level==s.level&&g.levelneib==s.levelneib&&g.nstep==s.nstep&&g.nlast==s.nlast&&g.u==s.u&&g.dt==s.dt)) return false;
    if (!full) return true; double f[3]; for (int k=0;k<ndim;k++) f[k]=img[k]>2?-1:1;
    if (!(g.rho==s.rho&&g.sound==s.sound&&g.pressure==s.pressure&&g.hfactor==s.hfactor&&g.hrangesqd==s.hrangesqd&&g.gpot==s.gpot&&g.vsig_max==s.vsig_max&&g.dudt==s.dudt&&g.sinkid==s.sinkid)) return false;
    for (int k=0;k<ndim;k++) if (g.a[k]!=f[k]*s.a[k]) return false;
    if (!mfv) { SP&a=(SP&)g,&b=(SP&)s; return a.div_v==b.div_v&&a.alpha==b.alpha&&a.dalphadt==b.dalphadt&&a.invomega==b.invomega&&a.zeta==b.zeta; }
    MP&a=(MP&)g,&b=(MP&)s; if (a.ndens!=b.ndens||a.zeta!=b.zeta) return false;
    for (int v=0;v<ndim+2;v++) { double h=v<ndim?f[v]:1; if (a.Wprim[v]!=h*b.Wprim[v]||a.dQ[v]!=h*b.dQ[v]||a.dQdt[v]!=h*b.dQdt[v]) return false; for (int k=0;k<ndim;k++) if (a.grad[v][k]!=h*f[k]*b.grad[v][k]) return false; if (v<ndim) for (int k=0;k<ndim;k++) if (a.B[v][k]!=h*f[k]*b.B[v][k]) return false; }
    return true;
  }
  void copies(const char*stage,bool full) {
    auto*h=H(); auto&B=sim->simbox; Ev e("copies"); e.str("at",stage); std::string s="[";
    for (int i=0;i<h->Nhydro;i++) { auto&p=G(i); s+=std::string(i?",":"")+"{\"d\":"+(p.flags.is_dead()?"true":"false");
      std::string lo="[",hi="[",rg="["; for (int k=0;k<ndim;k++) { const char*c=k?",":""; if (!closed(k)) { lo+=c+std::string("0"); hi+=c+std::string("0"); rg+=c+std::string("0"); continue; } lo+=c+std::to_string(q20(p.r[k]-B.min[k],k)); hi+=c+std::to_string(q20(B.max[k]-p.r[k],k)); rg+=c+std::to_string(q20(h->kernrange*p.h,k)); }
      s+=",\"lo\":"+lo+"],\"hi\":"+hi+"],\"rg\":"+rg+"]}"; }
    e.raw("reals",s+"]"); s="[";
    for (int g=h->Nhydro;g<h->Nhydro+h->Nghost;g++) { auto&p=G(g); int o=g, steps=0; bool chain=true; while (o>=h->Nhydro) { int n=G(o).iorig; if (n<0||n>=o||++steps>ndim) { chain=false; break; } o=n; }
      std::vector<int> img; bool pos=chain, vel=chain, dat=chain; for (int k=0;k<ndim;k++) img.push_back(code(p,k));
      if (chain) { auto&q=G(o); for (int k=0;k<ndim;k++) { double x=q.r[k]; switch (img[k]) { case 1: x+=size(k); break; case 2: x-=size(k); break; case 3: x=2*B.min[k]-x; break; case 4: x=2*B.max[k]-x; break; }
          if (img[k]?!at(p.r[k],x,k):p.r[k]!=x) pos=false; if (p.v[k]!=(img[k]>2?-q.v[k]:q.v[k])) vel=false; }
        dat=same(p,q,img,full); }
      s+=std::string(g>h->Nhydro?",":"")+"{\"s\":"+std::to_string(chain?o+1:0)+",\"img\":["; for (int k=0;k<ndim;k++) s+=(k?",":"")+std::to_string(img[k]);
      s+=std::string("],\"pos\":")+(pos?"true":"false")+",\"vel\":"+(vel?"true":"false")+",\"dat\":"+(dat?"true":"false")+",\"act\":"+(p.flags.check(active)?"true":"false")+",\"dead\":"+(p.flags.is_dead()?"true":"false")+"}"; }
    e.raw("ghosts",s+"]").boo("books",h->NPeriodicGhost==h->Nghost&&h->Ntot==h->Nhydro+h->Nghost&&h->Ntot<=h->Nhydromax); emit(e);
  }
};
template<int ndim> struct BWrap : public TimeIntegration<ndim> {
  TimeIntegration<ndim>* in; Rec<ndim>* R;
  BWrap(TimeIntegration<ndim>*i,Rec<ndim>*r) : in(i),R(r) { this->timing=i->timing; }
  void sync() { in->timing=this->timing; }
  void SetActiveParticles(const int n,Hydrodynamics<ndim>*h) { sync(); in->SetActiveParticles(n,h); }
  void AdvanceParticles(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->AdvanceParticles(n,t,dt,h); }
  void CorrectionTerms(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->CorrectionTerms(n,t,dt,h); }
  void EndTimestep(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->EndTimestep(n,t,dt,h); }
  int CheckTimesteps(const int d,const int ls,const int n,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); return in->CheckTimesteps(d,ls,n,dt,h); }
  DOUBLE Timestep(Particle<ndim>&p,Hydrodynamics<ndim>*h) { return in->Timestep(p,h); }
  void CheckBoundaries(DomainBox<ndim>&b,Hydrodynamics<ndim>*h) { sync(); R->before(); in->CheckBoundaries(b,h); if (R->on) R->after(); }
};
template<int ndim> struct BGhosts : public Ghosts<ndim> {
  Ghosts<ndim>*in; Rec<ndim>*R; BGhosts(Ghosts<ndim>*i,Rec<ndim>*r) : in(i),R(r) {}
  void SearchGhostParticles(FLOAT t,DomainBox<ndim> b,Hydrodynamics<ndim>*h) { in->SearchGhostParticles(t,b,h); }
  void CopyHydroDataToGhosts(DomainBox<ndim> b,Hydrodynamics<ndim>*h) { in->CopyHydroDataToGhosts(b,h); if (R->on) R->copies("refresh",true); }
};
template<int ndim> void randomise(Rec<ndim>*R,int i,Rng&g) {
  auto&p=R->G(i); auto rn=[&]() { return g.below(16)?(g.below(2049)-1024)/1024.0:0.0; };
  for (int k=0;k<ndim;k++) { p.v[k]=rn(); p.v0[k]=rn(); p.a[k]=rn(); p.a0[k]=rn(); }
  p.u=g.uni(); p.rho=g.uni(); p.sound=g.uni(); p.pressure=g.uni(); p.hfactor=g.uni(); p.gpot=rn(); p.vsig_max=g.uni(); p.dudt=rn(); p.level=g.below(5); p.levelneib=g.below(5); p.nstep=1<<g.below(4); p.m=0.1+g.uni();
  if (!R->mfv) { auto&q=(GradhSphParticle<ndim>&)p; q.div_v=rn(); q.alpha=rn(); q.dalphadt=rn(); q.invomega=rn(); q.zeta=rn(); return; }
  auto&q=(MeshlessFVParticle<ndim>&)p; q.ndens=g.uni(); q.zeta=rn(); for (int v=0;v<ndim+2;v++) { q.Wprim[v]=rn(); q.dQ[v]=rn(); q.dQdt[v]=rn(); q.Qcons0[v]=rn(); for (int k=0;k<ndim;k++) q.grad[v][k]=rn(); } for (int j=0;j<ndim;j++) for (int k=0;k<ndim;k++) q.B[j][k]=rn();
}
template<int ndim> int go(const Args& A) {
  std::string simtype=A.s("sim","gradhsph"); int N=A.i("n",24); bool mfv=simtype!="gradhsph"; Rng g(A.i("seed",1)*131+29); Parameters*P=newParams("bd"); bool fab=A.s("mode","fab")=="fab";
  P->stringparams["ic"]="python"; P->intparams["Nhydro"]=N; P->intparams["Nstar"]=0; if (A.i("nmax",0)) P->intparams["Nhydromax"]=N+A.i("nmax");
  P->intparams["Nlevels"]=A.i("nlevels",1); P->stringparams["gas_eos"]="energy_eqn"; P->intparams["hydro_forces"]=1; P->intparams["self_gravity"]=0;
  P->stringparams["neib_search"]=A.s("tree","kdtree"); P->intparams["Nleafmax"]=A.i("leaf",4); P->intparams["ntreebuildstep"]=A.i("ntb",1); P->intparams["ntreestockstep"]=1;
  P->floatparams["tend"]=1e9; P->floatparams["dt_snap"]=1e9; P->floatparams["tsnapfirst"]=1e9; P->stringparams["nbody"]="lfkdk"; P->stringparams["kernel"]=A.s("kernel","m4");
  P->floatparams["h_fac"]=A.f("hfac",1.0); P->intparams["ewald"]=0; P->floatparams["courant_mult"]=A.f("cour",0.3); P->stringparams["time_step_limiter"]=A.s("limiter","none"); P->stringparams["slope_limiter"]="gizmo";
  P->stringparams["sph_integration"]=A.s("int","lfkdk"); P->floatparams["h_converge"]=1e-6;
  std::string bc=A.s("bc","oo"); double lo=A.f("lo",0), L[3]={A.f("lx",1),A.f("ly",1),A.f("lz",1)};
  const char*bn[3][2]={{"boundary_lhs[0]","boundary_rhs[0]"},{"boundary_lhs[1]","boundary_rhs[1]"},{"boundary_lhs[2]","boundary_rhs[2]"}}; const char*bx[3][2]={{"boxmin[0]","boxmax[0]"},{"boxmin[1]","boxmax[1]"},{"boxmin[2]","boxmax[2]"}};
  std::vector<std::string> sides[2]; for (int k=0;k<ndim;k++) for (int s=0;s<2;s++) { char c=bc[2*k+s]; sides[s].push_back(std::string(1,c)); P->stringparams[bn[k][s]]=c=='p'?"periodic":c=='m'?"mirror":c=='w'?"wall":"open"; if (c!='o') P->floatparams[bx[k][s]]=s?lo+L[k]:lo; }
  SimulationBase*base=SimulationBase::SimulationFactory(ndim,simtype,P); Simulation<ndim>*sim=(Simulation<ndim>*)base; base->PreSetupForPython();
  Rec<ndim>*R=new Rec<ndim>(); R->sim=sim; R->mfv=mfv; R->on=false;
  std::vector<std::vector<double> > x(ndim,std::vector<double>(N)),v=x; std::vector<double> m(N),u(N); double vs=A.f("v",0.3); int M=(int)ceil(pow((double)N,1.0/ndim)-1e-9);
  for (int i=0;i<N;i++) { m[i]=1.0/N; u[i]=0.5+g.uni(); int d=i; for (int k=0;k<ndim;k++) { int MM=M; if (k==ndim-1) { int T=1; for (int q=0;q<k;q++) T*=M; MM=(N+T-1)/T; } x[k][i]=lo+(d%MM+0.5+A.f("jit",0.3)*(g.uni()-0.5))/MM*L[k]; d/=MM; v[k][i]=vs*(2*g.uni()-1)+(k==0?A.f("bulk",0):0); } }
  const char* nx[3]={"x","y","z"}; const char* nv[3]={"vx","vy","vz"};
  for (int k=0;k<ndim;k++) { base->ImportArray(&x[k][0],N,nx[k],"sph"); base->ImportArray(&v[k][0],N,nv[k],"sph"); } base->ImportArray(&m[0],N,"m","sph"); base->ImportArray(&u[0],N,"u","sph");
  sim->hydroint=new BWrap<ndim>(sim->hydroint,R); sim->LocalGhosts=new BGhosts<ndim>(sim->LocalGhosts,R);
  { Ev e("init"); e.num("nd",ndim).num("np",N).sarr("lhs",sides[0]).sarr("rhs",sides[1]); emit(e); }
  R->on=!fab; base->SetupSimulation();
  if (!fab) { for (int s=0;s<A.i("steps",8);s++) { base->MainLoop(); R->copies("step",false); } Ev e("done"); emit(e); return 0; }
  SphNeighbourSearch<ndim>*ns=mfv?NULL:((SphSimulation<ndim>*)sim)->sphneib; MeshlessFVNeighbourSearch<ndim>*nm=mfv?((MeshlessFVSimulation<ndim>*)sim)->mfvneib:NULL; NeighbourSearch<ndim>*nb=mfv?(NeighbourSearch<ndim>*)nm:(NeighbourSearch<ndim>*)ns;
  auto&B=sim->simbox; bool kill=A.i("kill",0);
  for (int rd=0;rd<A.i("rounds",4);rd++) {
    double far=g.below(3)?0.2:0.95;
    for (int i=0;i<sim->hydro->Nhydro;i++) { auto&p=R->G(i); randomise<ndim>(R,i,g); if (kill&&g.below(8)==0&&!p.flags.is_dead()) { p.flags.set(dead); p.flags.unset(active); p.m=0; }
      for (int k=0;k<ndim;k++) { double f=g.below(65)/64.0; if (g.below(3)==0) f=g.below(2)?-far*g.uni():1+far*g.uni(); else if (g.below(6)==0) f=g.below(2); else if (g.below(3)==0) f=g.uni()*0.06+(g.below(2)?0.94:0); p.r[k]=lo+f*L[k]; p.r0[k]=p.r[k]-0.3*(g.uni()-0.5)*L[k]; }
      for (int j=0;j<i;j++) { bool co=true; for (int k=0;k<ndim;k++) if (p.r[k]!=R->G(j).r[k]) co=false; if (co) { p.r[0]=lo+g.uni()*L[0]; p.r0[0]=p.r[0]; } } }
    R->on=true; sim->hydroint->CheckBoundaries(sim->simbox,sim->hydro); R->on=false;
    double hm=g.below(4)?0.15:0.55; for (int i=0;i<sim->hydro->Nhydro;i++) R->G(i).h=(0.2+0.8*g.uni())*hm/sim->hydro->kernrange*(g.below(5)?1:0.1);
    for (int i=0;i<sim->hydro->Nhydro;i++) R->G(i).hrangesqd=pow(sim->hydro->kernrange*R->G(i).h,2);
    nb->BuildTree(true,0,1,1,sim->timestep,sim->hydro); 
    nb->SearchBoundaryGhostParticles(0.0,B,sim->hydro); nb->BuildGhostTree(true,0,1,1,sim->timestep,sim->hydro); R->copies("search",false);
    for (int t=0;t<2;t++) { for (int i=0;i<sim->hydro->Nhydro;i++) { double h=R->G(i).h, mm=R->G(i).m; int l=R->G(i).level; randomise<ndim>(R,i,g); auto&p=R->G(i); if (p.flags.is_dead()) p.m=0; else if (t) for (int k=0;k<ndim;k++) p.r[k]+=(g.uni()-0.5)*1e-3*h; } sim->LocalGhosts->CopyHydroDataToGhosts(sim->simbox,sim->hydro); R->copies(t?"moved":"refresh",true); }
  }
  Ev e("done"); emit(e); return 0;
}
int main(int argc,char**argv) {
  Args A(argc,argv); quiet(A.s("out","-")); ExceptionHandler::makeExceptionHandler(python); int rc=0;
  try { int nd=A.i("ndim",2); rc = nd==1?go<1>(A) : nd==2?go<2>(A) : go<3>(A); }
  catch (GandalfError& e) { Ev v("raise"); v.str("msg",e.msg); emit(v); }
  catch (std::exception& e) { Ev v("raise"); v.str("msg",e.what()); emit(v); }
  fflush(gout); _exit(rc);
}
