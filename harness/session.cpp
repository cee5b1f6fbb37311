// A simulation's life: set-up, and running it in pieces with Run and InteractiveRun, against one run step by step (spec/Session).
#include "hcommon.h"
#include "MeshlessFV.h"
#include "NbodyParticle.h"
#include "SphSnapshot.h"
#include <functional>
#include <dirent.h>
#include <sys/wait.h>
FILE* gout=NULL;
static std::string attempt(const std::function<void()>&f) { try { f(); } catch (GandalfError&e) { return e.msg.empty()?"?":e.msg; } return ""; }
struct Hash { uint64_t h; Hash():h(1469598103934665603ull) {} void b(const void*p,size_t n) { const unsigned char*c=(const unsigned char*)p; for (size_t i=0;i<n;i++) { h^=c[i]; h*=1099511628211ull; } }
  void d(double x) { if (x==0) x=0; b(&x,8); } void i(long x) { b(&x,8); } void f(float x) { if (x==0) x=0; b(&x,4); } std::string s() { char c[20]; snprintf(c,20,"%016llx",(unsigned long long)h); return c; } };
template<int ndim> struct Life {
  Simulation<ndim>*sim; SimulationBase*base; bool mfv,nbo; const Args&A; Life(const Args&a):sim(NULL),base(NULL),A(a) {}
  void make() {
    std::string t=A.s("sim","gradhsph"); mfv=t=="mfvmuscl"; nbo=t=="nbody"; int N=nbo?0:A.i("n",24),Ns=A.i("ns",0); Rng g(A.i("seed",1)*131+7); Parameters*P=newParams("out"); double per=A.i("per",1);
    P->stringparams["ic"]="python"; P->intparams["Nhydro"]=N; P->intparams["Nstar"]=Ns; P->intparams["Nhydromax"]=4*N+64; P->intparams["Nlevels"]=A.i("nlevels",1); P->intparams["sph_single_timestep"]=A.i("single",0);
    P->stringparams["gas_eos"]=A.s("eos","energy_eqn"); P->intparams["self_gravity"]=A.i("grav",0); P->stringparams["neib_search"]=A.s("tree","kdtree"); P->intparams["Nleafmax"]=4; P->intparams["ntreebuildstep"]=A.i("ntb",1);
    P->floatparams["tend"]=A.f("tend",0.1); P->floatparams["dt_snap"]=A.f("dt",0.02); P->floatparams["tsnapfirst"]=A.f("first",0); P->intparams["Nstepsmax"]=A.i("nmax",1000); P->floatparams["dt_python"]=1e9; P->floatparams["tmax_wallclock"]=1e20;
    P->intparams["nrestartstep"]=A.i("nrst",512); P->intparams["litesnap"]=A.i("lite",0); P->intparams["ndiagstep"]=A.i("ndiag",4); P->intparams["noutputstep"]=3; P->stringparams["out_file_form"]=A.s("form","su"); P->stringparams["nbody"]=A.s("nbody","lfkdk"); P->stringparams["sph_integration"]=A.s("int","lfkdk");
    P->intparams["sink_particles"]=A.i("sinks",0); P->intparams["create_sinks"]=A.i("sinks",0); P->floatparams["rho_sink"]=A.f("rhosink",5); P->stringparams["sink_radius_mode"]="hmult"; P->intparams["com_frame"]=A.i("com",0); P->intparams["nbody_softening"]=1; P->intparams["sub_systems"]=A.i("sub",0);
    const char*bl[3]={"boundary_lhs[0]","boundary_lhs[1]","boundary_lhs[2]"},*br[3]={"boundary_rhs[0]","boundary_rhs[1]","boundary_rhs[2]"},*b0[3]={"boxmin[0]","boxmin[1]","boxmin[2]"},*b1[3]={"boxmax[0]","boxmax[1]","boxmax[2]"};
    if (per) for (int k=0;k<ndim;k++) { P->stringparams[bl[k]]="periodic"; P->stringparams[br[k]]="periodic"; P->floatparams[b0[k]]=0; P->floatparams[b1[k]]=1; }
    base=SimulationBase::SimulationFactory(ndim,t,P); sim=(Simulation<ndim>*)base; }
  void fill() { int N=nbo?0:A.i("n",24),Ns=A.i("ns",0); Rng g(A.i("seed",1)*131+7); const char* nx[3]={"x","y","z"}; const char* nv[3]={"vx","vy","vz"};
    std::vector<std::vector<double> > x(ndim,std::vector<double>(N+1)),v=x; std::vector<double> m(N+1,1.0/std::max(N,1)),u(N+1); int M=(int)ceil(pow((double)N,1.0/ndim)-1e-9); double vs=A.f("v",0.5);
    for (int i=0;i<N;i++) { u[i]=0.5+g.uni(); int d=i; for (int k=0;k<ndim;k++) { int MM=M; if (k==ndim-1) { int T=1; for (int q=0;q<k;q++) T*=M; MM=(N+T-1)/T; } x[k][i]=(d%MM+0.5+0.4*(g.uni()-0.5))/MM; d/=MM; v[k][i]=vs*(2*g.uni()-1); } }
    if (N) { for (int k=0;k<ndim;k++) { base->ImportArray(&x[k][0],N,nx[k],"sph"); base->ImportArray(&v[k][0],N,nv[k],"sph"); } base->ImportArray(&m[0],N,"m","sph"); base->ImportArray(&u[0],N,"u","sph"); }
    if (Ns) { std::vector<double> y(Ns),sm(Ns,A.f("ms",0.3)),sh(Ns,0.02); for (int k=0;k<ndim;k++) { for (int i=0;i<Ns;i++) y[i]=0.1+0.8*g.uni(); base->ImportArray(&y[0],Ns,nx[k],"star"); for (int i=0;i<Ns;i++) y[i]=vs*(g.uni()-0.5); base->ImportArray(&y[0],Ns,nv[k],"star"); } base->ImportArray(&sm[0],Ns,"m","star"); base->ImportArray(&sh[0],Ns,"h","star"); } }
  std::string hash() { Hash h; h.d(sim->t); h.i(sim->Nsteps); h.i(sim->n); h.i(sim->nresync); h.d(sim->timestep); h.i(sim->Noutsnap); h.i(sim->Noutlitesnap); h.d(sim->tsnapnext); h.i(sim->level_max);
    if (!nbo) { h.i(sim->hydro->Nhydro); for (int i=0;i<sim->hydro->Nhydro;i++) { Particle<ndim>&p=sim->hydro->GetParticlePointer(i); for (int k=0;k<ndim;k++) { h.d(p.r[k]); h.d(p.v[k]); h.d(p.a[k]); h.d(p.r0[k]); h.d(p.v0[k]); } h.d(p.m); h.d(p.h); h.d(p.u); h.d(p.rho); h.d(p.dudt); h.i(p.level); h.i(p.nstep); h.i(p.nlast); h.i(p.iorig); h.i(p.ptype); h.i((int)p.flags.get()); 
      if (mfv) { MeshlessFVParticle<ndim>&q=((MeshlessFV<ndim>*)sim->hydro)->GetMeshlessFVParticleArray()[i]; for (int k=0;k<ndim+2;k++) { h.d(q.Qcons0[k]); h.d(q.dQ[k]); } } } }
    h.i(sim->nbody->Nstar); for (int i=0;i<sim->nbody->Nstar;i++) { StarParticle<ndim>&p=sim->nbody->stardata[i]; for (int k=0;k<ndim;k++) { h.d(p.r[k]); h.d(p.v[k]); h.d(p.a[k]); } h.d(p.m); h.d(p.h); h.i(p.nstep); h.i(p.nlast); }
    return h.s(); }
  std::string view() { Hash h; if (A.s("form","su")=="su") h.d(sim->t); int n=0; if (!nbo) for (int i=0;i<sim->hydro->Nhydro;i++) { Particle<ndim>&p=sim->hydro->GetParticlePointer(i); n++; for (int k=0;k<ndim;k++) { h.f(p.r[k]); h.f(p.v[k]); h.f(p.a[k]); } h.f(p.m); h.f(p.h); h.f(p.rho); h.f(p.u); } h.i(n);
    int s=sim->nbody->Nstar; for (int i=0;i<s;i++) { StarParticle<ndim>&p=sim->nbody->stardata[i]; for (int k=0;k<ndim;k++) { h.f(p.r[k]); h.f(p.v[k]); h.f(p.a[k]); } h.f(p.m); h.f(p.h); } h.i(s); return h.s(); }
  std::string view(SphSnapshotBase*sn) { Hash h; if (A.s("form","su")=="su") h.d(sn->t); const char* nx[3][3]={{"x","vx","ax"},{"y","vy","ay"},{"z","vz","az"}}; 
    for (int w=0;w<2;w++) { std::string sp=w?"star":"sph"; int n=sn->data.count(sp)?sn->data[sp].N:0; if (n) { auto&v=sn->data[sp].values; for (int i=0;i<n;i++) { for (int k=0;k<ndim;k++) for (int c=0;c<3;c++) h.f(v[nx[k][c]][i]); h.f(v["m"][i]); h.f(v["h"][i]); if (!w) { h.f(v["rho"][i]); h.f(v["u"][i]); } } } h.i(n); }
    return h.s(); }
  static std::string bn(const std::string&p) { size_t q=p.rfind('/'); return q==std::string::npos?p:p.substr(q+1); }
  std::vector<std::string> files() { std::vector<std::string> r; DIR*d=opendir("."); while (dirent*e=readdir(d)) { std::string s=e->d_name; std::string pre="out."+A.s("form","su")+"."; if (s.compare(0,pre.size(),pre)==0&&s.size()==pre.size()+5) r.push_back(s); } closedir(d); std::sort(r.begin(),r.end()); return r; }
  static bool there(const char*n) { struct stat s; return stat(n,&s)==0; }
  static std::string q(const std::string&s) { return "\""+s+"\""; }
  // the reference: one step at a time
  int reference(int nmax) { std::ofstream f("../ref.json"); make(); base->PreSetupForPython(); fill(); base->SetupSimulation(); std::vector<std::string> have=files();
    f<<"["; for (int n=0;;n++) { std::vector<std::string> now=files(); std::string nw; for (auto&x : now) if (std::find(have.begin(),have.end(),x)==have.end()||n==0) nw=x; have=now;
      f<<(n?",":"")<<"{\"h\":"<<q(hash())<<",\"v\":"<<q(view())<<",\"out\":"<<q(nw)<<",\"steps\":"<<sim->Nsteps<<",\"over\":"<<(sim->t>=sim->tend?"true":"false")<<"}"; if (sim->t>=sim->tend||n>=nmax) break; base->InteractiveRun(1); }
    f<<"]"; f.close(); return 0; }
  int go() { int nmax=A.i("nref",60); (void)!system("rm -rf ref run"); mkdir("ref",0755); mkdir("run",0755); (void)!system("cp stellar.dat ref/ 2>/dev/null; cp stellar.dat run/ 2>/dev/null");
    pid_t p=fork(); if (p==0) { if (chdir("ref")) _exit(3); int r=1; std::string e=attempt([&]{ r=reference(nmax); }); if (!e.empty()) fprintf(stderr,"%s\n",e.c_str()); _exit(r); } int st; waitpid(p,&st,0); if (!WIFEXITED(st)||WEXITSTATUS(st)) { fprintf(stderr,"reference failed\n"); return WIFSIGNALED(st)?100+WTERMSIG(st):1; }
    std::ifstream f("ref.json"); std::string ref((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); if (chdir("run")) return 3; Rng g(A.i("seed",1)*977+3); make();
    { Ev e("init"); e.num("nmax",sim->simparams->intparams["Nstepsmax"]).raw("ref",ref); emit(e); }
    auto call=[&](const char*what,const std::function<void()>&fn) { std::string er=attempt(fn); Ev e("call"); e.str("what",what).boo("err",!er.empty()).str("msg",er); emit(e); return er; };
    auto bad=[&](int ph) { double z[4]={1,2,3,4}; switch (g.below(8)) { case 0: if (ph!=1) { call("setup",[&]{ base->SetupSimulation(); }); } break; case 1: if (ph>0) call("presetup",[&]{ base->PreSetupForPython(); }); break; case 2: if (ph>0) call("set",[&]{ base->SetParam("tend",77.0); }); break;
        case 3: call("settype",[&]{ base->SetParam("sim","nbody"); }); break; case 4: if (ph<1) call("import",[&]{ base->ImportArray(z,4,"x","sph"); }); else call("importwrong",[&]{ int N=nbo?A.i("ns",0):A.i("n",24); int c[4]={N+1,N-1,1,2*N}; std::vector<double> y(2*N+2,1.5); int m=c[g.below(4)]; if (m==N) m=N+1; base->ImportArray(&y[0],m,g.below(2)?"x":"vx",nbo?"star":"sph"); }); break; case 5: if (ph>0) call("importwhat",[&]{ std::vector<double> y(500,1.0); base->ImportArray(&y[0],nbo?A.i("ns",0):A.i("n",24),g.below(2)?"nonsense":"z9",nbo?"star":"sph"); }); break; case 6: if (ph>0) call("importtype",[&]{ base->ImportArray(z,4,"x","dust"); }); break; default: break; } };
    for (int k=g.below(4);k>0;k--) bad(0); if (g.below(2)) { call("setok",[&]{ base->SetParam("tend",A.f("tend",0.1)); }); }
    std::string er=call("presetup",[&]{ base->PreSetupForPython(); }); if (!er.empty()) return 0; for (int k=g.below(3);k>0;k--) bad(1); fill(); er=call("setup",[&]{ base->SetupSimulation(); }); if (!er.empty()) return 0;
    state("ready"); std::vector<std::pair<SphSnapshotBase*,std::string> > kept; int left=nmax;
    for (int o=0;o<A.i("ops",9)&&left>0;o++) { for (int k=g.below(3)-1;k>0;k--) bad(2); int w=g.below(10); int n=g.below(5)==0?-1:g.below(6)==0?0:g.range(1,g.below(2)?3:9); if (o>=6&&n>0&&g.below(2)) n=-1; if (n<0&&sim->Nstepsmax-sim->Nsteps>left) n=3; if (n>left) n=left; std::vector<std::string> before=files(); bool inter=w<6; std::string stop="no";
      { std::ofstream c("cont"); } unlink(("out."+A.s("form","su")+".tmp").c_str()); int n0=sim->Nsteps;
      if (inter) { if (g.below(4)==0) { sim->dt_python=1e-9; stop="soon"; } std::list<SphSnapshotBase*> sl; call(inter?"irun":"run",[&]{ sl=base->InteractiveRun(n); }); sim->dt_python=1e9; Ev e("irun"); e.num("n",n).str("stop",stop).num("steps",sim->Nsteps).str("h",hash()); std::vector<std::string> nm,hv; for (auto*s : sl) { nm.push_back(bn(s->filename)); hv.push_back(view(s)); kept.push_back({s,hv.back()}); } e.sarr("names",nm).sarr("views",hv).sarr("files",files()); emit(e); }
      else { if (g.below(4)==0) { if (g.below(2)) sim->kill_simulation=true; else sim->tmax_wallclock=1e-12; stop="kill"; } call("run",[&]{ base->Run(n); }); sim->kill_simulation=false; sim->tmax_wallclock=1e20; Ev e("run"); e.num("n",n).str("stop",stop).num("steps",sim->Nsteps).str("h",hash()).sarr("files",files()).boo("cont",there("cont")).boo("tmp",there(("out."+A.s("form","su")+".tmp").c_str())); emit(e); }
      left-=sim->Nsteps-n0; if (g.below(3)==0) state("again"); }
    bool ok=true; for (auto&k : kept) if (view(k.first)!=k.second) ok=false; Ev e("kept"); e.boo("ok",ok).num("n",kept.size()); emit(e); if (kept.size()) arrays(kept.back().first); return 0; }
  // everything that can be asked of a snapshot, then its memory given back
  void arrays(SphSnapshotBase*sn) { Ev e("arrays"); int np[3]={0,0,0}; const char* sp[3]={"sph","star","dust"}; for (int k=0;k<3;k++) if (sn->data.count(sp[k])) np[k]=sn->data[sp[k]].N; e.num("sph",np[0]).num("star",np[1]).num("nd",ndim);
    int m0=sn->CalculateMemoryUsage(), pr=sn->CalculatePredictedMemoryUsage(); std::ostringstream o; int n=0;
    for (const char*ty : {"default","sph","star","dust","other"}) for (const char*nm : {"x","y","z","vx","vy","vz","ax","ay","az","m","h","rho","u","dudt","gpot","iorig","nosuch"}) { SNAPFLOAT*a=0,sc=0; int size=-1; bool err=false, same=true;
      try { sn->ExtractArray(nm,ty,&a,&size,sc,"default"); } catch (GandalfError&) { err=true; size=0; }
      if (!err&&size>0) { std::string real=std::string(ty)=="default"?(np[0]?"sph":"star"):ty; auto it=sn->data[real].values.find(nm); same=a&&it!=sn->data[real].values.end()&&(int)it->second.size()==size&&memcmp(a,&it->second[0],size*sizeof(SNAPFLOAT))==0; }
      o<<(n++?",":"")<<"{\"ty\":"<<q(ty)<<",\"name\":"<<q(nm)<<",\"err\":"<<(err?"true":"false")<<",\"n\":"<<size<<",\"same\":"<<(same?"true":"false")<<"}"; }
    e.raw("all","["+o.str()+"]"); int m1=sn->CalculateMemoryUsage(); sn->DeallocateBufferMemory(); e.boo("whole",m0==pr&&m1==m0&&m0>0).boo("freed",sn->CalculateMemoryUsage()==0&&!sn->allocated&&sn->CalculatePredictedMemoryUsage()==pr); emit(e); }
  void state(const char*w) { Ev e(w); e.num("steps",sim->Nsteps).str("h",hash()).sarr("files",files()); emit(e); }
};
template<int ndim> int run(const Args&A) { Life<ndim> l(A); return l.go(); }
int main(int argc,char**argv) { Args A(argc,argv); quiet(A.s("out","-")); ExceptionHandler::makeExceptionHandler(python); int nd=A.i("ndim",1); int rc=0;
  try { rc=nd==1?run<1>(A):nd==2?run<2>(A):run<3>(A); } catch (GandalfError&e) { fprintf(stderr,"raised: %s\n",e.msg.c_str()); return 4; } return rc; }
