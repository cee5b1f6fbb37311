// Drives the real main loops (gradhsph, sm2012sph, mfvmuscl + stars) with scripted time-step criteria
// and records every stage of the step-level bookkeeping for validation against spec/BlockSteps.
#include "hcommon.h"
#include "NbodyParticle.h"
FILE* gout=NULL;

static const double TICK = 1.0/134217728.0;     // 2^-27
static long ticks(double x) { double y=x/TICK; double r=floor(y+0.5); if (!(fabs(y)<2e9)) return 2000000000L; return (long)r; }
static bool isticks(double x) { double y=x/TICK; return y==floor(y); }

struct Script {
  Rng r; std::string kind; int n; std::vector<int> mant, ex; int smin,smax; std::vector<std::vector<long> > table; size_t row;
  Script(uint64_t seed,const std::string&k,int n_,int smin_,int smax_) : r(seed), kind(k), n(n_), mant(n_), ex(n_), smin(smin_), smax(smax_), row(0) {
    for (int i=0;i<n;i++) { mant[i]=2*r.below(8)+1; ex[i]=r.range(smin,smax); if (kind=="flat") { ex[i]=smax-1; mant[i]=1; } if (kind=="pow2") mant[i]=1; }
  }
  long norm(int i) const { int sh=ex[i]; int b=0; while ((mant[i]>>(b+1))>0) b++; sh-=b; if (sh<5) sh=5; return (long)mant[i]<<sh; }
  // criterion (in ticks) of particle i for the loop that starts now
  long get(int i) { if (!table.empty()) return table[std::min(row,table.size()-1)][i]; return norm(i); }
  void advance(int loop) {
    row++;
    for (int i=0;i<n;i++) {
      if (kind=="const"||kind=="flat") { }
      else if (kind=="walk") { int q=r.below(6); if (q==0) ex[i]=std::max(smin,ex[i]-1); if (q==1) ex[i]=std::min(smax,ex[i]+1); if (q==2) mant[i]=2*r.below(8)+1; }
      else if (kind=="jump"||kind=="pow2") { if (r.below(12)==0) ex[i]=r.range(smin,smax); if (kind=="jump"&&r.below(8)==0) mant[i]=2*r.below(8)+1; }
      else if (kind=="shock") { int c=(loop/7)%n; int d=std::abs(i-c); ex[i]= d==0?smin : d==1?smin+1 : smax; }
      else if (kind=="deep") { ex[i]= (r.below(10)==0)? smin : (r.below(4)==0 ? smax : ex[i]); }
    }
  }
};

template<int ndim> struct Potential : public ExternalPotential<ndim> {
  const char* base; size_t stride; int n; std::vector<int> evals; Rng r; const char*sbase; bool star; Simulation<ndim>* sim; std::vector<const void*> addr;
  Potential(uint64_t seed) : base(0),stride(0),n(0),r(seed),star(false),sim(0) {}
  void AddExternalPotential(const FLOAT*rp,const FLOAT*,FLOAT*ap,FLOAT*,FLOAT&) {
    double mag=(0.5+r.uni())*(r.below(2)?1:-1);
    ap[0]+=mag;
    for (size_t i=0;i<addr.size();i++) if (addr[i]==(const void*)rp) evals[i]++;
  }
};

template<int ndim> struct Run {
  Simulation<ndim>* sim; SimulationBase* base; int Ng, Ns; Script* script; Potential<ndim>*pg,*ps; bool sph; std::string scheme; std::string sscheme;
  std::vector<long> crit; int loop; double ta; bool started;
  std::vector<double> v0,a0,r0,tl; std::vector<double> apre; std::vector<double> rhopre; std::vector<int> ended; std::string simname;
  NbodyParticle<ndim>* S(int i) { return sim->nbody->nbodydata[i]; }
  Particle<ndim>& G(int i) { return sim->hydro->GetParticlePointer(i); }
  template<class F> std::vector<long> all(F f) { std::vector<long> x; for (int i=0;i<Ng;i++) x.push_back(f(G(i))); for (int i=0;i<Ns;i++) x.push_back(f(*S(i))); return x; }
  std::vector<long> levels() { return all([](auto&p){return (long)p.level;}); }
  std::vector<long> nsteps() { return all([](auto&p){return (long)p.nstep;}); }
  std::vector<long> nlasts() { return all([](auto&p){return (long)p.nlast;}); }
  std::vector<long> tlasts() { return all([](auto&p){return ticks(p.tlast);}); }
  std::vector<long> dts() { return all([](auto&p){return ticks(p.dt);}); }
  std::vector<long> dtn() { return all([](auto&p){return ticks(p.dt_next);}); }
  std::vector<long> actv() { std::vector<long> x; for (int i=0;i<Ng;i++) if (G(i).flags.check(active)) x.push_back(i+1); for (int i=0;i<Ns;i++) if (S(i)->flags.check(active)) x.push_back(Ng+i+1); return x; }
  std::vector<long> endf() { std::vector<long> x; for (int i=0;i<Ng;i++) if (G(i).flags.check(end_timestep)) x.push_back(i+1); for (int i=0;i<Ns;i++) if (S(i)->flags.check(end_timestep)) x.push_back(Ng+i+1); return x; }
  std::vector<long> lneib() { std::vector<long> x; for (int i=0;i<Ng;i++) x.push_back(G(i).levelneib); for (int i=0;i<Ns;i++) x.push_back(0); return x; }
  void scriptStars() { for (int i=0;i<Ns;i++) S(i)->dt_internal = script->get(Ng+i)*TICK; }
  std::vector<std::vector<long> > pairs(double fac) {
    std::vector<std::vector<long> > v; double kr=sim->hydro->kernp->kernrange;
    for (int i=0;i<Ng;i++) for (int j=i+1;j<Ng;j++) { double d=0; for (int k=0;k<ndim;k++) d+=(G(i).r[k]-G(j).r[k])*(G(i).r[k]-G(j).r[k]); d=sqrt(d);
      if (d<fac*kr*std::max(G(i).h,G(j).h)) { std::vector<long> p; p.push_back(i+1); p.push_back(j+1); v.push_back(p); } }
    return v;
  }
  void poison(bool onlyactive) { if (!sph) return; for (int i=0;i<Ng;i++) if (!onlyactive||G(i).flags.check(active)) G(i).rho=std::nan(""); }
  void preLoop() {
    v0.clear();a0.clear();r0.clear();tl.clear();apre.clear();rhopre.clear();
    for (int i=0;i<Ng;i++) { auto&p=G(i); v0.push_back(p.v0[0]); a0.push_back(p.a0[0]); r0.push_back(p.r0[0]); tl.push_back(p.tlast); apre.push_back(p.a[0]); rhopre.push_back(p.rho); }
    for (int i=0;i<Ns;i++) { auto&p=*S(i); v0.push_back(p.v0[0]); a0.push_back(p.a0[0]); r0.push_back(p.r0[0]); tl.push_back(p.tlast); apre.push_back(p.a[0]); rhopre.push_back(0); }
    crit.assign(Ng+Ns,0); scriptStars();
    pg->addr.clear(); ps->addr.clear(); for (int i=0;i<Ng;i++) pg->addr.push_back(&G(i).r[0]); for (int i=0;i<Ns;i++) ps->addr.push_back(&S(i)->r[0]);
    pg->evals.assign(Ng,0); ps->evals.assign(Ns,0);
  }
  void onAdvanced() {
    if (!started) return;
    // drift interval: how much elapsed time the predicted velocity of each particle corresponds to
    std::vector<long> drift;
    for (int i=0;i<Ng+Ns;i++) { double v = i<Ng ? G(i).v[0] : S(i-Ng)->v[0]; bool dk = (i<Ng?scheme:sscheme)=="lfdkd"||(i<Ng?scheme:sscheme)=="dkd"; double av = dk ? apre[i] : a0[i];
      drift.push_back((!sph&&i<Ng)||(i>=Ng&&sscheme!="lfkdk"&&sscheme!="lfdkd") ? -1 : ticks((v-v0[i])/av)); }
    Ev e("adv"); e.num("n",sim->n).num("t",ticks(sim->t)).boo("exact",isticks(sim->t)).arr("act",actv()).arr("drift",drift); emit(e);
    poison(true); ended.clear();
  }
  void onForce() {
    if (!started) return;
    std::vector<long> ev,fresh;
    for (int i=0;i<Ng;i++) { ev.push_back(sph ? pg->evals[i] : 0); bool ok = !sph || (pg->evals[i]==0) || (std::isfinite(G(i).rho)&&G(i).rho>0&&std::isfinite(G(i).a[0]) && G(i).a[0]!=apre[i]); if (!ok) fresh.push_back(i+1);
      if (sph && pg->evals[i]==0 && G(i).a[0]!=apre[i]) fresh.push_back(i+1);
      apre[i]=G(i).a[0]; }
    for (int i=0;i<Ns;i++) ev.push_back(0);
    pg->evals.assign(Ng,0);
    Ev e("force"); e.arr("ev",ev).arr("stale",fresh).arr("lneib",lneib()).arr2("nb",simname=="sm2012sph"?std::vector<std::vector<long> >():pairs(0.9999)).arr2("nbx",pairs(1.0001)); emit(e);
  }
  void onLimit(long ret) { if (!started) return; Ev e("limit"); e.num("ret",ret).arr("level",levels()).arr("nstep",nsteps()).arr("act",actv()); emit(e); poison(true); }
  void onAssign() {
    std::vector<long> c; for (int i=0;i<Ng;i++) c.push_back(crit[i]);
    for (int i=0;i<Ns;i++) c.push_back(script->get(Ng+i));
    std::vector<long> ev; for (int i=0;i<Ng;i++) ev.push_back(0); for (int i=0;i<Ns;i++) ev.push_back(started?ps->evals[i]:0);
    Ev e("assign"); e.num("n",sim->n).num("nres",sim->nresync).num("lmax",sim->level_max).num("ts",ticks(sim->timestep)).boo("exact",isticks(sim->timestep))
      .arr("crit",c).arr("level",levels()).arr("nstep",nsteps()).arr("nlast",nlasts()).arr("dtn",dtn()).arr("ends",endf()).arr("sev",ev).arr("lneib",lneib()); emit(e);
    ended=std::vector<int>(Ng+Ns,0); for (int i=0;i<Ng;i++) ended[i]=G(i).flags.check(end_timestep); for (int i=0;i<Ns;i++) ended[Ng+i]=S(i)->flags.check(end_timestep);
  }
  long nprev; std::vector<long> preact;
  // N-body only simulation: no hydro integrator to decorate, so the stages are reported once the loop is over
  void nbodyStages(bool first) {
    std::vector<long> ev; for (int i=0;i<Ns;i++) ev.push_back(first?0:ps->evals[i]);
    std::vector<long> none(Ns,-1), z(Ns,0);
    if (!first) {
      std::vector<long> act; for (int i=0;i<Ns;i++) if (ps->evals[i]) act.push_back(i+1);
      { Ev e("adv"); e.num("n",nprev+1).num("t",ticks(sim->t)).boo("exact",isticks(sim->t)).arr("act",act).arr("drift",none); emit(e); }
      { Ev e("force"); e.arr("ev",z).arr("stale",std::vector<long>()).arr("lneib",z).arr2("nb",std::vector<std::vector<long> >()).arr2("nbx",std::vector<std::vector<long> >()); emit(e); }
      if (nlev>1) { Ev e("limit"); e.num("ret",0).arr("level",prelev).arr("nstep",prenst).arr("act",act); emit(e); }
    }
    std::vector<long> c,ends; for (int i=0;i<Ns;i++) c.push_back(script->get(i));
    ended.assign(Ns,0); for (int i=0;i<Ns;i++) if (S(i)->tlast==sim->t) { ends.push_back(i+1); ended[i]=1; }
    Ev e("assign"); e.num("n",sim->n).num("nres",sim->nresync).num("lmax",sim->level_max).num("ts",ticks(sim->timestep)).boo("exact",isticks(sim->timestep))
      .arr("crit",c).arr("level",levels()).arr("nstep",nsteps()).arr("nlast",nlasts()).arr("dtn",dts()).arr("ends",ends).arr("sev",ev).arr("lneib",z); emit(e);
  }
  int nlev; std::vector<long> prelev,prenst;
  void onEnd(bool first) {
    std::vector<long> kick;
    for (int i=0;i<Ng+Ns;i++) { if (first||!ended[i]||(!sph&&i<Ng)||(i>=Ng&&sscheme!="lfkdk"&&sscheme!="lfdkd")) { kick.push_back(-1); continue; }
      double v = i<Ng ? G(i).v[0] : S(i-Ng)->v[0], a = i<Ng ? G(i).a[0] : S(i-Ng)->a[0]; double el=sim->t-tl[i];
      if ((scheme=="dkd"&&i<Ng)||(sscheme=="lfdkd"&&i>=Ng)) kick.push_back(ticks((v-v0[i])/a));
      else kick.push_back(ticks(2*(v-v0[i]-a0[i]*el)/(a-a0[i]))); }
    Ev e("end"); e.num("n",sim->n).num("t",ticks(sim->t)).arr("kick",kick).arr("tlast",tlasts()).arr("nlast",nlasts()).arr("dt",dts()).arr("act",actv()).arr("left",endf()); emit(e);
    if (!sph&&!first) { Ev q("neib"); q.arr("lneib",lneib()).arr2("nb",pairs(0.9999)).arr2("nbx",pairs(1.0001)); emit(q); }
  }
};

template<int ndim> struct Wrap : public TimeIntegration<ndim> {
  TimeIntegration<ndim>* in; Run<ndim>* R; bool sawcheck;
  Wrap(TimeIntegration<ndim>*i,Run<ndim>*r) : in(i),R(r),sawcheck(false) { this->timing=i->timing; }
  void sync() { in->timing=this->timing; }
  void SetActiveParticles(const int n,Hydrodynamics<ndim>*h) { sync(); in->SetActiveParticles(n,h); }
  void AdvanceParticles(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->AdvanceParticles(n,t,dt,h); }
  void CorrectionTerms(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->CorrectionTerms(n,t,dt,h); }
  void EndTimestep(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); if (!sawcheck&&R->sph) R->onForce(); sawcheck=false; R->onAssign(); in->EndTimestep(n,t,dt,h); }
  int CheckTimesteps(const int d,const int ls,const int n,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); if (R->sph) R->onForce(); int r=in->CheckTimesteps(d,ls,n,dt,h); R->onLimit(r); if (R->sph) sawcheck=true; return r; }
  DOUBLE Timestep(Particle<ndim>&p,Hydrodynamics<ndim>*h) { for (int i=0;i<R->Ng;i++) if (&R->G(i)==&p) { long c=R->script->get(i); R->crit[i]=c; return c*TICK; } return 1.0; }
  void CheckBoundaries(DomainBox<ndim>&b,Hydrodynamics<ndim>*h) { sync(); in->CheckBoundaries(b,h); R->onAdvanced(); }
};

template<int ndim> int go(const Args& A) {
  Run<ndim> R; R.Ng=A.i("ng",10); R.Ns=A.i("ns",0); R.loop=0; R.started=false;
  std::string simtype=A.s("sim","gradhsph"); R.sph = simtype!="mfvmuscl"; R.simname=simtype;
  Parameters* P=newParams("stp");
  P->stringparams["ic"]="python"; P->intparams["Nhydro"]=R.Ng; P->intparams["Nstar"]=R.Ns;
  P->intparams["Nhydromax"]=4*R.Ng+20; 
  P->intparams["Nlevels"]=A.i("nlevels",4); P->intparams["level_diff_max"]=A.i("diff",1);
  P->intparams["sph_single_timestep"]=A.i("single",0);
  P->stringparams["gas_eos"]="isothermal"; P->floatparams["temp0"]=1e-6; P->floatparams["gamma_eos"]=1.4;
  P->stringparams["sph_integration"]=A.s("scheme","lfkdk"); P->stringparams["nbody"]=A.s("nbody","lfkdk");
  P->floatparams["nbody_mult"]=1e12; P->intparams["nbody_softening"]=1; P->floatparams["tend"]=1e9; P->floatparams["dt_snap"]=1e9; P->floatparams["tsnapfirst"]=1e9;
  P->intparams["ntreebuildstep"]=A.i("ntb",1); P->intparams["ntreestockstep"]=1; P->intparams["Nleafmax"]=A.i("leaf",3);
  P->stringparams["neib_search"]=A.s("neib","kdtree"); P->stringparams["out_file_form"]="su"; P->stringparams["time_step_limiter"]=A.s("limiter","none");
  if (ndim==1&&R.sph) P->intparams["tabulated_kernel"]=1;
  if (simtype=="sm2012sph") P->stringparams["sph"]="sm2012";
  R.scheme = A.s("scheme","lfkdk")=="lfdkd" ? "dkd" : "kdk";
  R.sscheme=A.s("nbody","lfkdk"); R.base=SimulationBase::SimulationFactory(ndim,simtype,P); R.sim=(Simulation<ndim>*)R.base;
  R.base->PreSetupForPython();
  Script sc(A.i("seed",1),A.s("script","walk"),R.Ng+R.Ns,A.i("smin",9),A.i("smax",13)); R.script=&sc;
  if (A.s("table")!="") { std::ifstream f(A.s("table").c_str()); std::string l; while (getline(f,l)) { std::istringstream is(l); std::vector<long> v; long x; while (is>>x) v.push_back(x); if (!v.empty()) sc.table.push_back(v); } }
  R.pg=new Potential<ndim>(A.i("seed",1)+77); R.ps=new Potential<ndim>(A.i("seed",1)+99);
  if (simtype!="nbody") { R.sim->hydroint=new Wrap<ndim>(R.sim->hydroint,&R); R.sim->hydro->extpot=R.pg; }
  R.sim->nbody->extpot=R.ps;
  Rng g(A.i("seed",1)*31+5);
  std::vector<double> x(R.Ng),m(R.Ng),z(R.Ng,0.0),u(R.Ng,1.0);
  std::vector<std::vector<double> > xs(ndim,std::vector<double>(R.Ng));
  for (int i=0;i<R.Ng;i++) { if (ndim==1) xs[0][i]=0.05*i+0.01*g.uni(); else { int w=(int)ceil(sqrt((double)R.Ng)); xs[0][i]=0.05*(i%w)+0.012*g.uni(); xs[1][i]=0.05*(i/w)+0.012*g.uni(); if (ndim==3) xs[2][i]=0.02*g.uni(); } m[i]=1e-4; }
  const char* nx[3]={"x","y","z"}; const char* nv[3]={"vx","vy","vz"};
  for (int k=0;k<ndim;k++) R.base->ImportArray(&xs[k][0],R.Ng,nx[k],"sph");
  for (int k=0;k<ndim;k++) R.base->ImportArray(&z[0],R.Ng,nv[k],"sph");
  R.base->ImportArray(&m[0],R.Ng,"m","sph"); R.base->ImportArray(&u[0],R.Ng,"u","sph");
  if (R.Ns) { std::vector<double> sx(R.Ns),sm(R.Ns,1e-9),sz(R.Ns,0.0),sh(R.Ns,0.01);
    for (int i=0;i<R.Ns;i++) sx[i]=1000.0+100*i;
    R.base->ImportArray(&sx[0],R.Ns,"x","star"); for (int k=1;k<ndim;k++) R.base->ImportArray(&sz[0],R.Ns,nx[k],"star");
    for (int k=0;k<ndim;k++) R.base->ImportArray(&sz[0],R.Ns,nv[k],"star"); R.base->ImportArray(&sm[0],R.Ns,"m","star"); R.base->ImportArray(&sh[0],R.Ns,"h","star"); }
  R.crit.assign(R.Ng+R.Ns,0); for (int i=0;i<R.Ns;i++) R.sim->nbody->stardata[i].dt_internal=sc.get(R.Ng+i)*TICK;
  { Ev e("init"); e.num("ng",R.Ng).num("ns",R.Ns).num("nlevels",A.i("nlevels",4)).num("diff",A.i("diff",1)).num("npec",std::max(1,R.sim->nbody->Npec)).num("istep",R.sim->integration_step).boo("single",A.i("single",0)==1)
     .str("scheme",R.sph?R.scheme:"kdk").str("sscheme",A.s("nbody","lfkdk")=="lfdkd"?"dkd":"kdk").str("sim",simtype).str("limiter",R.sph?"simple":A.s("limiter","none")).boo("mfv",!R.sph).str("args",A.s("args")); emit(e); }
  bool nbo = simtype=="nbody"; R.nlev=A.i("nlevels",4);
  R.base->SetupSimulation();
  if (nbo) R.nbodyStages(true);
  R.onEnd(true);
  R.started=true;
  int nl=A.i("loops",100);
  for (R.loop=0;R.loop<nl;R.loop++) { sc.advance(R.loop); R.preLoop(); if (!R.sph) R.sim->rebuild_tree=false; R.nprev=R.sim->n; R.prelev=R.levels(); R.prenst=R.nsteps(); R.base->MainLoop(); if (nbo) R.nbodyStages(false); R.onEnd(false); }
  Ev e("done"); emit(e);
  return 0;
}
int main(int argc,char**argv) {
  Args A(argc,argv); quiet(A.s("out","-"));
  if (A.s("dir")!="") { if (chdir(A.s("dir").c_str())) return 3; }
  ExceptionHandler::makeExceptionHandler(python);
  int rc=0;
  try { int nd=A.i("ndim",1); rc = nd==1?go<1>(A) : nd==2?go<2>(A) : go<3>(A); }
  catch (GandalfError& e) { Ev v("raise"); v.str("msg",e.msg); emit(v); rc=0; }
  catch (std::exception& e) { Ev v("raise"); v.str("msg",e.what()); emit(v); }
  fflush(gout); _exit(rc);
}
