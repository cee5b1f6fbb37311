// Records the account book of the meshless scheme (every exchange between two particles, the open accounts and the
// conserved quantities at every stage of a step) and, for gradhsph, the sums over all forces. Validated against spec/LedgerTrace.
#include "hcommon.h"
#include "MeshlessFV.h"
#include "SlopeLimiter.h"
FILE* gout=NULL;
template<int ndim> struct Book {
  static Book* I;
  Simulation<ndim>* sim; std::map<int,int> ids; std::vector<std::string> xs; double S[ndim+2]; double T0; int nv; bool mfv, grav, on, seen;
  struct Keep { double dQ[ndim+2], dF[ndim+2]; };
  typedef MeshlessFVParticle<ndim> MP;
  int N() { return sim->hydro->Nhydro; }
  Particle<ndim>& G(int i) { return sim->hydro->GetParticlePointer(i); }
  MP& M(int i) { return (MP&)G(i); }
  int id(int io) { auto it=ids.find(io); return it==ids.end()?0:it->second+1; }
  long z(double x,int v) { double y=x/S[v]*(1<<26); if (!(fabs(y)<1.9e9)) y=y>0?1.9e9:-1.9e9; return (long)floor(y+0.5); }
  long tick(double t) { double y=t/T0*(1<<20); return y<2e9?(long)floor(y+0.5):2000000000L; }
  template<class F> std::string all(F f) { std::string s="["; for (int i=0;i<N();i++) { if (i) s+=","; s+="["; for (int v=0;v<ndim+2;v++) { if (v) s+=","; s+=std::to_string(f(i,v)); } s+="]"; } return s+"]"; }
  template<class F> std::string lst(F f) { std::string s="["; for (int i=0;i<N();i++) { if (i) s+=","; s+=std::to_string((long)f(i)); } return s+"]"; }
  std::string tup(const double*d,const double f=1) { std::string s="["; for (int v=0;v<ndim+2;v++) s+=std::string(v?",":"")+std::to_string(z(d[v]*f,v)); return s+"]"; }
  void Q0(Ev&e) { e.raw("q0",all([&](int i,int v) { return z(M(i).Qcons0[v],v); })); }
  void dQ(Ev&e) { e.raw("dq",all([&](int i,int v) { return z(M(i).dQ[v],v); })); }
  void dF(Ev&e) { e.raw("df",all([&](int i,int v) { return z(M(i).dQdt[v]*sim->timestep,v); })); }
  double cons(int i,int v) { MP&p=M(i); double k=0; for (int d=0;d<ndim;d++) k+=p.v[d]*p.v[d]; return v<ndim?p.m*p.v[v]:v==ndim?p.m:p.m*(p.u+0.5*k); }
  void Q(Ev&e) { e.raw("q",all([&](int i,int v) { return z(cons(i,v),v); })); }
  void st(Ev&e,int back=0) { e.raw("act",lst([&](int i) { return G(i).flags.check(active); })).raw("dead",lst([&](int i) { return G(i).flags.is_dead(); }));
    if (mfv) e.raw("nl",lst([&](int i) { return M(i).nlast; })).raw("ns",lst([&](int i) { return M(i).nstep; })); e.num("n",sim->n-back); }
  void flux() { Ev e("flux"); e.num("t",tick(sim->t-sim->timestep)); st(e,1); dQ(e); dF(e); std::string s="["; for (size_t j=0;j<xs.size();j++) s+=(j?",":"")+xs[j]; e.raw("x",s+"]"); xs.clear(); emit(e); }
  std::vector<double> rb; std::vector<std::vector<long> > flips;
  void sphforce() {
    bool allact=true; for (int i=0;i<N();i++) if (!G(i).flags.is_dead()&&!G(i).flags.check(active)) allact=false;
    double s[ndim]={0},as=0,en=0,es=0; for (int i=0;i<N();i++) { auto&p=(GradhSphParticle<ndim>&)G(i); if (p.flags.is_dead()) continue; double pw=0; for (int k=0;k<ndim;k++) { s[k]+=p.m*p.a[k]; as+=fabs(p.m*p.a[k]); pw+=p.v[k]*p.a[k]; } en+=p.m*(pw+p.dudt); es+=p.m*(fabs(pw)+fabs(p.dudt)); }
    std::vector<long> q; for (int k=0;k<ndim;k++) q.push_back(as>0?(long)floor(s[k]/as*1e9+0.5):0);
    Ev e("force"); e.boo("all",allact).arr("mom",q).num("en",es>0?(long)floor(en/es*1e9+0.5):0); emit(e); }
};
template<int ndim> Book<ndim>* Book<ndim>::I=NULL;

template<int ndim> struct LMfv : public MfvMuscl<ndim,TabulatedKernel,GizmoLimiter<ndim> > {
  typedef MfvMuscl<ndim,TabulatedKernel,GizmoLimiter<ndim> > B; typedef MeshlessFVParticle<ndim> MP;
  LMfv(const B&b) : B(b) {}
  void ComputeGodunovFlux(MP&p,NeighbourList<typename B::FluxNeib>&l,FLOAT dt) {
    auto*R=Book<ndim>::I; if (!R->on) { B::ComputeGodunovFlux(p,l,dt); return; } typename Book<ndim>::Keep kp; std::vector<typename Book<ndim>::Keep> kn(l.size());
    for (int v=0;v<ndim+2;v++) { kp.dQ[v]=p.dQ[v]; kp.dF[v]=p.dQdt[v]; for (size_t j=0;j<l.size();j++) { kn[j].dQ[v]=l[j].dQ[v]; kn[j].dF[v]=l[j].dQdt[v]; } }
    B::ComputeGodunovFlux(p,l,dt);
    double step=p.nstep*R->sim->timestep; std::string s="{\"i\":"+std::to_string(R->id(p.iorig))+",\"step\":"+std::to_string(R->tick(step));
    for (int v=0;v<ndim+2;v++) { kp.dQ[v]=p.dQ[v]-kp.dQ[v]; kp.dF[v]=(p.dQdt[v]-kp.dF[v]); } s+=",\"o\":"+R->tup(kp.dQ)+",\"f\":"+R->tup(kp.dF,step)+",\"nb\":[";
    for (size_t j=0;j<l.size();j++) { for (int v=0;v<ndim+2;v++) { kn[j].dQ[v]=l[j].dQ[v]-kn[j].dQ[v]; kn[j].dF[v]=l[j].dQdt[v]-kn[j].dF[v]; }
      s+=std::string(j?",":"")+"{\"j\":"+std::to_string(R->id(l[j].iorig))+",\"m\":"+(l[j].flags.is_mirror()?"1":"0")+",\"g\":"+R->tup(kn[j].dQ)+",\"f\":"+R->tup(kn[j].dF,step)+"}"; }
    R->xs.push_back(s+"]}"); }
};
template<int ndim> struct LWrap : public TimeIntegration<ndim> {
  TimeIntegration<ndim>* in; Book<ndim>* R;
  LWrap(TimeIntegration<ndim>*i,Book<ndim>*r) : in(i),R(r) { this->timing=i->timing; }
  void sync() { in->timing=this->timing; }
  void SetActiveParticles(const int n,Hydrodynamics<ndim>*h) { sync(); in->SetActiveParticles(n,h); }
  void AdvanceParticles(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); if (R->mfv&&R->on) R->flux(); in->AdvanceParticles(n,t,dt,h); R->seen=false; if (R->mfv&&R->on) { Ev e("adv"); R->st(e); R->Q(e); R->Q0(e); R->dQ(e); emit(e); } }
  void CorrectionTerms(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->CorrectionTerms(n,t,dt,h); }
  void EndTimestep(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); if (!R->on) { in->EndTimestep(n,t,dt,h); return; } if (!R->mfv) { in->EndTimestep(n,t,dt,h); return; }
    { Ev e("pre"); R->st(e); R->Q0(e); R->dQ(e); emit(e); }
    in->EndTimestep(n,t,dt,h); Ev e("end"); e.num("t",R->tick(R->sim->t)); R->st(e); R->Q(e); R->Q0(e); R->dQ(e); R->dF(e); emit(e); }
  int CheckTimesteps(const int d,const int ls,const int n,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); if (!R->on) return in->CheckTimesteps(d,ls,n,dt,h); if (!R->mfv) { R->seen=false; return in->CheckTimesteps(d,ls,n,dt,h); }
    int r=in->CheckTimesteps(d,ls,n,dt,h); Ev e("limit"); R->st(e); R->dQ(e); R->Q0(e); emit(e); return r; }
  DOUBLE Timestep(Particle<ndim>&p,Hydrodynamics<ndim>*h) { return in->Timestep(p,h); }
  void CheckBoundaries(DomainBox<ndim>&b,Hydrodynamics<ndim>*h) { sync(); std::string f="["; bool c=false;
    for (int i=0;i<R->N();i++) for (int k=0;k<ndim;k++) { auto&p=R->G(i); bool lo=p.r[k]<b.min[k]&&b.boundary_lhs[k]==mirrorBoundary, hi=p.r[k]>b.max[k]&&b.boundary_rhs[k]==mirrorBoundary; if (lo||hi) { f+=std::string(c?",":"")+"["+std::to_string(i+1)+","+std::to_string(k+1)+"]"; c=true; } }
    in->CheckBoundaries(b,h); if (R->mfv&&R->on) { Ev e("bound"); e.raw("flip",f+"]"); R->Q(e); R->Q0(e); R->dQ(e); emit(e); } }
};
// the first particle to get its external force: all mutual forces have just been found
template<int ndim> struct LPot : public ExternalPotential<ndim> {
  ExternalPotential<ndim>*in; Book<ndim>*R; LPot(ExternalPotential<ndim>*i,Book<ndim>*r) : in(i),R(r) {}
  void AddExternalPotential(const FLOAT a[ndim],const FLOAT b[ndim],FLOAT c[ndim],FLOAT d[ndim],FLOAT&e) { if (R->on&&!R->seen) { R->seen=true; R->sphforce(); } in->AddExternalPotential(a,b,c,d,e); }
};
template<class R,class B> void swapv(B*b) { R*r=new R(*b); memcpy((void*)b,(void*)r,sizeof(void*)); }

template<int ndim> int go(const Args& A) {
  std::string simtype=A.s("sim","mfvmuscl"); int N=A.i("n",24); bool mfv=simtype!="gradhsph"; Rng g(A.i("seed",1)*131+17); Parameters*P=newParams("lg"); bool grav=A.i("grav",0);
  P->stringparams["ic"]="python"; P->intparams["Nhydro"]=N; P->intparams["Nstar"]=0; P->intparams["Nhydromax"]=12*N+100;
  P->intparams["Nlevels"]=A.i("nlevels",1); P->intparams["level_diff_max"]=A.i("diff",1); P->stringparams["gas_eos"]=A.s("eos","energy_eqn"); if (A.s("eos")=="isothermal") P->floatparams["temp0"]=A.f("temp",1); P->intparams["hydro_forces"]=A.i("hydro",1); P->intparams["self_gravity"]=grav;
  P->stringparams["neib_search"]=A.s("tree","kdtree"); P->intparams["Nleafmax"]=A.i("leaf",4); P->intparams["ntreebuildstep"]=A.i("ntb",1); P->intparams["ntreestockstep"]=1; P->floatparams["thetamaxsqd"]=1e-12;
  P->floatparams["tend"]=1e9; P->floatparams["dt_snap"]=1e9; P->floatparams["tsnapfirst"]=1e9; P->stringparams["nbody"]="lfkdk"; P->stringparams["kernel"]="m4"; P->intparams["tabulated_kernel"]=1;
  P->floatparams["h_fac"]=A.f("hfac",1.0); P->intparams["ewald"]=0; P->floatparams["courant_mult"]=A.f("cour",0.3); P->floatparams["accel_mult"]=0.3; P->stringparams["time_step_limiter"]=A.s("limiter","none"); P->stringparams["slope_limiter"]="gizmo";
  P->intparams["zero_mass_flux"]=A.i("zmf",0); P->intparams["static_particles"]=A.i("static",0); P->stringparams["riemann_solver"]=A.s("riemann","hllc"); P->intparams["sph_single_timestep"]=0;
  P->stringparams["sph_integration"]=A.s("int","lfkdk"); P->stringparams["avisc"]=A.s("avisc","mon97"); P->stringparams["acond"]=A.s("acond","none"); P->stringparams["time_dependent_avisc"]=A.s("tdavisc","none"); P->floatparams["h_converge"]=1e-6;
  std::string bc=A.s("bc","oo"); double L=1; bool mir=false;
  const char*bn[3][2]={{"boundary_lhs[0]","boundary_rhs[0]"},{"boundary_lhs[1]","boundary_rhs[1]"},{"boundary_lhs[2]","boundary_rhs[2]"}}; const char*bx[3][2]={{"boxmin[0]","boxmax[0]"},{"boxmin[1]","boxmax[1]"},{"boxmin[2]","boxmax[2]"}};
  for (int k=0;k<ndim;k++) for (int s=0;s<2;s++) { char c=bc[std::min((size_t)(2*k+s),bc.size()-1)]; P->stringparams[bn[k][s]]=c=='p'?"periodic":c=='m'?"mirror":"open"; mir=mir||c=='m'; if (c!='o') P->floatparams[bx[k][s]]=s?L:0.0; }
  SimulationBase*base=SimulationBase::SimulationFactory(ndim,simtype,P); Simulation<ndim>*sim=(Simulation<ndim>*)base; base->PreSetupForPython();
  Book<ndim>*R=new Book<ndim>(); Book<ndim>::I=R; R->sim=sim; R->mfv=mfv; R->grav=grav; R->on=false;
  if (mfv) swapv<LMfv<ndim> >((MfvMuscl<ndim,TabulatedKernel,GizmoLimiter<ndim> >*)sim->hydro);
  std::vector<std::vector<double> > x(ndim,std::vector<double>(N)),v=x; std::vector<double> m(N),u(N); double vs=A.f("v",0.3), us=A.f("u",1); int M=(int)ceil(pow((double)N,1.0/ndim)-1e-9);
  for (int i=0;i<N;i++) { m[i]=(1+0.5*g.uni())/N; u[i]=us*(0.5+g.uni()); int d=i; for (int k=0;k<ndim;k++) { int MM=M; if (k==ndim-1) { int T=1; for (int q=0;q<k;q++) T*=M; MM=(N+T-1)/T; } x[k][i]=(d%MM+0.5+A.f("jit",0.5)*(g.uni()-0.5))/MM*L; d/=MM; v[k][i]=vs*(2*g.uni()-1); } if (A.i("hot",0)&&g.below(A.i("hot"))==0) u[i]*=A.f("hotf",30); }
  if (A.f("bulk",0)!=0) for (int i=0;i<N;i++) v[0][i]-=A.f("bulk");
  if (A.f("near",0)>0) { x[0][0]=A.f("near"); v[0][0]=-fabs(v[0][0])-0.5*vs; }
  const char* nx[3]={"x","y","z"}; const char* nv[3]={"vx","vy","vz"};
  for (int k=0;k<ndim;k++) { base->ImportArray(&x[k][0],N,nx[k],"sph"); base->ImportArray(&v[k][0],N,nv[k],"sph"); } base->ImportArray(&m[0],N,"m","sph"); base->ImportArray(&u[0],N,"u","sph");
  if (!mfv) sim->hydro->extpot=new LPot<ndim>(sim->hydro->extpot,R);
  sim->hydroint=new LWrap<ndim>(sim->hydroint,R);
  base->SetupSimulation(); for (int i=0;i<N;i++) R->ids[R->G(i).iorig]=i; R->T0=sim->timestep*(1<<(sim->level_max));
  { double tm=0,te=0; for (int i=0;i<N;i++) { tm+=R->G(i).m; if (mfv) te+=R->cons(i,ndim+1); else te+=1; } for (int k=0;k<ndim;k++) R->S[k]=sqrt(2*tm*te); R->S[ndim]=tm; R->S[ndim+1]=te; }
  { Ev e("init"); e.num("nd",ndim).num("np",N).boo("mfv",mfv).boo("mir",mir).boo("grav",grav).str("lim",mfv?A.s("limiter","none"):"none").boo("zmf",A.i("zmf",0)).boo("iso",A.s("eos")=="isothermal"); if (mfv) { e.num("t",R->tick(sim->t)); R->st(e); R->Q(e); R->Q0(e); R->dQ(e); } emit(e); }
  R->on=true; int steps=A.i("steps",8); for (int s=0;s<steps;s++) base->MainLoop();
  Ev e("done"); emit(e); return 0;
}
int main(int argc,char**argv) {
  Args A(argc,argv); quiet(A.s("out","-")); ExceptionHandler::makeExceptionHandler(python); int rc=0;
  try { int nd=A.i("ndim",2); rc = nd==1?go<1>(A) : nd==2?go<2>(A) : go<3>(A); }
  catch (GandalfError& e) { Ev v("raise"); v.boo("self",e.msg.find("Smoothing length too large")!=std::string::npos).str("msg",e.msg); emit(v); }
  catch (std::exception& e) { Ev v("raise"); v.boo("self",false).str("msg",e.what()); emit(v); }
  fflush(gout); _exit(rc);
}
