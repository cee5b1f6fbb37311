// Drives real runs (main loop + Output, or Run / InteractiveRun) with scripted steps, reports every file operation on
// output files and can end the process at any of them; a second process restarts from what is left (spec/Output).
#include "hcommon.h"
#include "NbodyParticle.h"
#include "SphSnapshot.h"
#include <dlfcn.h>
#include <sys/uio.h>
#include <fcntl.h>
FILE* gout=NULL;
static const double TICK = 1.0/512.0;
static long ticks(double x) { double y=x/TICK; double r=floor(y+0.5); return fabs(y)<1e9 ? (long)r : 1000000000L; }
static bool isticks(double x) { double y=x/TICK; return y==floor(y); }

// ---- file operations ----------------------------------------------------------------------------
static bool watching=false, inop=false; static long opcount=0, crashat=-1; static std::string torn; static std::string form, lastsnap;
static std::map<int,std::string> fds; static void pending(); 
static std::string canon(const char*path) {      // name of a file in the specification
  std::string p=path; size_t q=p.rfind('/'); if (q!=std::string::npos) p=p.substr(q+1);
  if (p.compare(0,4,"out.")!=0) return "";
  std::string r=p.substr(4); int num; char tail[8];
  if (r=="restart") return "restart";
  if (r==form+".tmp") return "tmp";
  if (sscanf(r.c_str(),(form+".%5d%2s").c_str(),&num,tail)==1 && r.size()==form.size()+6) return "snap."+std::to_string(num);
  if (sscanf(r.c_str(),"slite.%5d%2s",&num,tail)==1 && r.size()==11) return "lite."+std::to_string(num);
  if (r.find("restart")!=std::string::npos || r.compare(0,form.size(),form)==0 || r.compare(0,5,"slite")==0) return "x."+r;
  return "";
}
static void crashpoint(int fd,const void*b,size_t n) {
  opcount++;
  if (crashat>=0 && opcount==crashat) {
    if (fd>=0 && n>1 && torn=="1") { ssize_t k=syscall(1,fd,b,n/2); (void)k; }
    { Ev e("crash"); emit(e); } _exit(99);
  }
}
static std::string realtext(const std::string&p) { int fd=(int)syscall(2,p.c_str(),O_RDONLY); char b[4096]; long n=fd>=0?syscall(0,fd,b,4000):0; if (fd>=0) syscall(3,fd); return std::string(b,n>0?n:0); }
static std::map<std::string,std::string> paths;
static void opened(const char*path,const char*mode,int fd) {
  if (!watching||inop||!(strchr(mode,'w')||strchr(mode,'a')||strchr(mode,'+'))) return; std::string c=canon(path); if (c.empty()) return;
  fds[fd]=c; paths[c]=path; Ev e("open"); e.str("f",c); emit(e); }
static bool writable(const char*path,const char*mode) { return watching&&!inop&&(strchr(mode,'w')||strchr(mode,'a')||strchr(mode,'+'))&&!canon(path).empty(); }
static void closed(int fd) { auto it=fds.find(fd); if (it==fds.end()) return; std::string c=it->second; fds.erase(it); std::string log;
  if (c=="restart"||c.find("restart")!=std::string::npos) { std::istringstream is(realtext(paths[c])); std::string f,n; is>>f>>n; log=(f==form&&!n.empty())?canon(n.c_str()):""; if (log.empty()) log="?"; }
  Ev e("close"); e.str("f",c).str("log",log); emit(e); }
template<class F> static F* real(const char*n) { return (F*)dlsym(RTLD_NEXT,n); }
extern "C" {
FILE* fopen64(const char*p,const char*m) { static auto f=real<FILE*(const char*,const char*)>("fopen64"); if (writable(p,m)) { pending(); crashpoint(-1,0,0); } FILE*r=f(p,m); if (r) opened(p,m,fileno(r)); return r; }
FILE* fopen(const char*p,const char*m) { static auto f=real<FILE*(const char*,const char*)>("fopen"); if (writable(p,m)) { pending(); crashpoint(-1,0,0); } FILE*r=f(p,m); if (r) opened(p,m,fileno(r)); return r; }
int fclose(FILE*s) { static auto f=real<int(FILE*)>("fclose"); int fd=fileno(s); bool w=fds.count(fd); if (w) crashpoint(-1,0,0); int r=f(s); if (w) closed(fd); return r; }
ssize_t write(int fd,const void*b,size_t n) { static auto f=real<ssize_t(int,const void*,size_t)>("write"); if (fds.count(fd)) crashpoint(fd,b,n); return f(fd,b,n); }
ssize_t writev(int fd,const struct iovec*v,int n) { static auto f=real<ssize_t(int,const struct iovec*,int)>("writev"); if (fds.count(fd)) crashpoint(fd,n?v[0].iov_base:0,n?v[0].iov_len:0); return f(fd,v,n); }
int rename(const char*a,const char*b) { static auto f=real<int(const char*,const char*)>("rename"); std::string ca=canon(a),cb=canon(b); bool w=watching&&!(ca.empty()&&cb.empty()); if (w) { pending(); crashpoint(-1,0,0); }
  int r=f(a,b); if (w&&r==0) { Ev e("move"); e.str("f",ca).str("g",cb); emit(e); } return r; }
static int gone(const char*a,int r) { std::string c=canon(a); if (watching&&!c.empty()&&r==0) { pending(); Ev e("del"); e.str("f",c); emit(e); } return r; }
int unlink(const char*a) { static auto f=real<int(const char*)>("unlink"); if (watching&&!canon(a).empty()) { pending(); crashpoint(-1,0,0); } return gone(a,f(a)); }
int remove(const char*a) { static auto f=real<int(const char*)>("remove"); if (watching&&!canon(a).empty()) { pending(); crashpoint(-1,0,0); } return gone(a,f(a)); }
}
// ---- the run ---------------------------------------------------------------------------------------
static std::string pend; static void lazytick(); static void pending() { lazytick(); if (!pend.empty()) { std::string p=pend; pend=""; fputs(p.c_str(),gout); fputc('\n',gout); fflush(gout); } }
struct Driver { virtual void boot()=0; virtual void lazy()=0; };
static Driver* D=NULL; static Driver* DR=NULL;
static void lazytick() { if (DR) DR->lazy(); }
template<int ndim> struct Pot : public ExternalPotential<ndim> { void AddExternalPotential(const FLOAT*,const FLOAT*,FLOAT*,FLOAT*,FLOAT&) { if (D) { Driver*d=D; D=NULL; d->boot(); } } };
template<int ndim> struct Go : public Driver {
  Simulation<ndim>* sim; SimulationBase* base; Rng r; bool restart, nbo; int N,Ns; std::vector<long> ex; int smin,smax; bool multi; std::string dir;
  Go(uint64_t s) : r(s) {}
  long crit(int i) { return 1L<<ex[i]; }
  void state(std::vector<double>&v) { v.clear(); v.push_back(sim->hydro->Nhydro); v.push_back(sim->nbody->Nstar);
    for (int i=0;i<sim->hydro->Nhydro;i++) { Particle<ndim>&p=sim->hydro->GetParticlePointer(i); v.push_back(p.iorig); for (int k=0;k<ndim;k++) { v.push_back(p.r[k]); v.push_back(p.v[k]); } v.push_back(p.m); v.push_back(p.u); v.push_back(p.ptype); }
    for (int i=0;i<sim->nbody->Nstar;i++) { StarParticle<ndim>&p=sim->nbody->stardata[i]; for (int k=0;k<ndim;k++) { v.push_back(p.r[k]); v.push_back(p.v[k]); } v.push_back(p.m); v.push_back(p.h); v.push_back(p.radius); } }
  void save() { std::vector<double> v; state(v); inop=true; std::ofstream f((dir+"/state."+std::to_string(sim->Nsteps)).c_str(),std::ios::binary); f.write((char*)&v[0],v.size()*8); f.close(); inop=false; }
  bool same() { std::vector<double> v; state(v); inop=true; std::ifstream f((dir+"/state."+std::to_string(sim->Nsteps)).c_str(),std::ios::binary); bool ok=f.good(); inop=false;
    for (size_t i=0;i<v.size()&&ok;i++) { double x; f.read((char*)&x,8); if (!f) ok=false; double tol = form=="su" ? 0 : 2e-9; if (!(fabs(x-v[i])<=tol*fabs(x))) ok=false; }
    char c; if (ok) { f.read(&c,1); if (!f.eof()) ok=false; } return ok; }
  void counters(Ev&e) { e.num("t",ticks(sim->t)).num("steps",sim->Nsteps).num("nout",sim->Noutsnap).num("tnext",ticks(sim->tsnapnext)).num("nlite",sim->Noutlitesnap).num("ltnext",ticks(sim->tlitesnapnext)); }
  void begin(const char*k) { Ev e(k); e.num("t",ticks(sim->t)).num("steps",sim->Nsteps).boo("sync",sim->nresync==0||sim->n%sim->nresync==0).boo("exact",isticks(sim->t)); pend=e.done(); }
  void boot() { if (restart) { if (sim->restart) { Ev e("recover"); counters(e); e.boo("same",same()); emit(e); } else { Ev e("recover"); counters(e); e.boo("same",true); emit(e); } } 
    Ev e("start"); e.num("t",ticks(sim->t)).num("steps",sim->Nsteps); pend=e.done(); save(); watching=true; }
  std::string ret="?";
  int go(const Args&A) {
    restart=A.i("restart",0); std::string simtype=A.s("sim","gradhsph"); nbo=simtype=="nbody"; N=nbo?0:A.i("ng",6); Ns=A.i("ns",nbo?3:0); dir=A.s("dir"); smin=A.i("smin",3); smax=A.i("smax",6); multi=A.i("nlevels",3)>1;
    form=A.s("form","su"); crashat=A.i("crash",-1); torn=A.s("torn","0");
    Parameters* P=newParams("out");
    P->stringparams["ic"]="python"; P->intparams["Nhydro"]=N; P->intparams["Nstar"]=Ns; P->intparams["Nhydromax"]=4*N+20;
    P->intparams["Nlevels"]=A.i("nlevels",3); P->intparams["level_diff_max"]=8; P->intparams["sph_single_timestep"]=0;
    P->stringparams["gas_eos"]="isothermal"; P->floatparams["temp0"]=1e-6; P->intparams["hydro_forces"]=1; P->floatparams["nbody_mult"]=1e12; P->intparams["nbody_softening"]=1;
    P->floatparams["tend"]=1e9; P->floatparams["dt_snap"]=A.i("dt",40)*TICK; P->floatparams["tsnapfirst"]=A.i("first",0)*TICK;
    P->intparams["litesnap"]=A.i("lite",0); P->floatparams["dt_litesnap"]=A.i("ldt",30)*TICK; P->floatparams["tlitesnapfirst"]=A.i("lfirst",0)*TICK;
    P->intparams["nrestartstep"]=A.i("nrst",7); P->intparams["ndiagstep"]=A.i("ndiag",100000); P->floatparams["dt_python"]=1e9; P->floatparams["tmax_wallclock"]=1e20;
    P->intparams["ntreebuildstep"]=1; P->intparams["ntreestockstep"]=1; P->stringparams["neib_search"]=A.s("neib","kdtree"); P->intparams["Nleafmax"]=3;
    P->stringparams["out_file_form"]=form; P->stringparams["nbody"]=A.s("nbody","lfkdk");
    if (ndim==1) P->intparams["tabulated_kernel"]=1;
    base=SimulationBase::SimulationFactory(ndim,simtype,P); sim=(Simulation<ndim>*)base;
    base->restart=restart;
    base->PreSetupForPython();
    Pot<ndim>*pot=new Pot<ndim>(); D=this; sim->nbody->extpot=pot; if (!nbo) { sim->hydro->extpot=pot; wrap(); }
    DR=this; ex.assign(N+Ns,smax); shuffle();
    if (!restart||A.i("give",0)) {
      Rng g(A.i("seed",1)*31+5); std::vector<double> x(N),m(N,1e-4),v(N),u(N,1.0); for (int i=0;i<N;i++) { x[i]=0.05*i+0.01*g.uni(); v[i]=1e-3*(g.uni()-0.5); }
      std::vector<double> z(N,0.0); const char* nx[3]={"x","y","z"}; const char* nv[3]={"vx","vy","vz"};
      if (N) { for (int k=0;k<ndim;k++) { std::vector<double> y(N); for (int i=0;i<N;i++) y[i]= k==0?x[i]:0.02*g.uni(); base->ImportArray(&y[0],N,nx[k],"sph"); base->ImportArray(&v[0],N,nv[k],"sph"); }
        base->ImportArray(&m[0],N,"m","sph"); base->ImportArray(&u[0],N,"u","sph"); }
      if (Ns) { std::vector<double> sx(Ns),sm(Ns,1e-9),sz(Ns,0.0),sv(Ns),sh(Ns,0.01); for (int i=0;i<Ns;i++) { sx[i]=1000.0+100*i; sv[i]=g.uni(); }
        for (int k=0;k<ndim;k++) { base->ImportArray(k==0?&sx[0]:&sz[0],Ns,nx[k],"star"); base->ImportArray(&sv[0],Ns,nv[k],"star"); }
        base->ImportArray(&sm[0],Ns,"m","star"); base->ImportArray(&sh[0],Ns,"h","star"); for (int i=0;i<Ns;i++) sim->nbody->stardata[i].radius=0.02; }
    }
    for (int i=0;i<Ns&&i<sim->nbody->Nstar;i++) sim->nbody->stardata[i].dt_internal=crit(N+i)*TICK;
    if (!restart) { Ev e("init"); e.num("first",A.i("first",0)).num("dt",A.i("dt",40)).boo("lite",A.i("lite",0)==1).num("lfirst",A.i("lfirst",0)).num("ldt",A.i("ldt",30)).num("nrst",A.i("nrst",7)).str("args",A.s("args")); emit(e); }
    base->SetupSimulation(); fin();
    int nl=A.i("loops",60); std::string api=A.s("api","main");
    for (int l=0;l<nl;l++) {
      if (r.below(3)==0) shuffle();
      for (int i=0;i<Ns;i++) sim->nbody->stardata[i].dt_internal=crit(N+i)*TICK;
      if (api=="main") { watching=false; base->MainLoop(); watching=true; save(); begin("tick"); ret=canon(base->Output().c_str()); fin(); }
      else { inrun=true; if (api=="interactive") { std::list<SphSnapshotBase*> sl=base->InteractiveRun(1); ret=""; for (auto&x : sl) ret+=canon(x->filename.c_str()); } else base->Run(1); inrun=false; if (!ticked) { save(); begin("tick"); } ticked=false; fin(); }
      if (api=="main" && A.i("kill",-1)==l) { pending(); Ev e("kill"); emit(e); base->RestartSnapshot(); fin(); break; }
    }
    watching=false; Ev e("end_of_run"); if (A.i("mark",0)) emit(e);
    fprintf(stderr,"ops %ld\n",opcount);
    return 0;
  }
  bool inrun=false,ticked=false;
  void lazy() { if (inrun&&!ticked) { ticked=true; save(); begin("tick"); } }
  void fin() { pending(); Ev e("done"); counters(e); e.str("ret",ret); ret="?"; emit(e); }
  void shuffle() { for (size_t i=0;i<ex.size();i++) if (r.below(3)==0) ex[i]=r.range(smin,smax); }
  struct W : public TimeIntegration<ndim> { TimeIntegration<ndim>*in; Go*g; W(TimeIntegration<ndim>*i,Go*x):in(i),g(x) { this->timing=i->timing; }
    void sync() { in->timing=this->timing; }
    void SetActiveParticles(const int n,Hydrodynamics<ndim>*h) { sync(); in->SetActiveParticles(n,h); }
    void AdvanceParticles(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->AdvanceParticles(n,t,dt,h); }
    void CorrectionTerms(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); in->CorrectionTerms(n,t,dt,h); }
    void EndTimestep(const int n,const FLOAT t,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); if (D) { Driver*d=D; D=NULL; d->boot(); } in->EndTimestep(n,t,dt,h); }
    int CheckTimesteps(const int d,const int ls,const int n,const FLOAT dt,Hydrodynamics<ndim>*h) { sync(); return in->CheckTimesteps(d,ls,n,dt,h); }
    DOUBLE Timestep(Particle<ndim>&p,Hydrodynamics<ndim>*h) { int i=p.iorig; if (i<0||i>=g->N) i=0; return g->crit(i)*TICK; }
    void CheckBoundaries(DomainBox<ndim>&b,Hydrodynamics<ndim>*h) { sync(); in->CheckBoundaries(b,h); } };
  void wrap() { sim->hydroint=new W(sim->hydroint,this); }
};
int main(int argc,char**argv) {
  Args A(argc,argv); quiet(A.s("out","-"));
  if (A.s("dir")!="") { if (chdir(A.s("dir").c_str())) return 3; }
  ExceptionHandler::makeExceptionHandler(python);
  int rc=0;
  try { int nd=A.i("ndim",1); if (nd==1) rc=(new Go<1>(A.i("seed",1)+A.i("restart",0)*77))->go(A); else if (nd==2) rc=(new Go<2>(A.i("seed",1)))->go(A); else rc=(new Go<3>(A.i("seed",1)))->go(A); }
  catch (GandalfError& e) { Ev v("raise"); v.str("msg",e.msg); emit(v); rc=4; }
  catch (std::exception& e) { Ev v("raise"); v.str("msg",e.what()); emit(v); rc=4; }
  fflush(gout); _exit(rc);
}
