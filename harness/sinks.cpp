// Records every search for new sinks and every accretion (arguments, and the state before and after), in running
// simulations (mode=run) or on fabricated states (mode=fab). Validated against spec/SinksTrace.
#include "hcommon.h"
#include "MeshlessFV.h"
#include <climits>
FILE* gout=NULL;
struct Watch { virtual void search(int n,double t)=0; virtual void accrete(int n,double dt)=0; };
static Watch* W=NULL;
#define WRAP(D) \
extern "C" void __real__ZN5SinksILi##D##EE25SearchForNewSinkParticlesEidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(Sinks<D>*,int,double,Hydrodynamics<D>*,Nbody<D>*); \
extern "C" void __real__ZN5SinksILi##D##EE18AccreteMassToSinksEidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(Sinks<D>*,int,double,Hydrodynamics<D>*,Nbody<D>*); \
extern "C" void __wrap__ZN5SinksILi##D##EE25SearchForNewSinkParticlesEidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(Sinks<D>*s,int n,double t,Hydrodynamics<D>*h,Nbody<D>*b) { W->search(n,t); } \
extern "C" void __wrap__ZN5SinksILi##D##EE18AccreteMassToSinksEidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(Sinks<D>*s,int n,double t,Hydrodynamics<D>*h,Nbody<D>*b) { W->accrete(n,t); } \
static inline void realSearch(Sinks<D>*s,int n,double t,Hydrodynamics<D>*h,Nbody<D>*b) { __real__ZN5SinksILi##D##EE25SearchForNewSinkParticlesEidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(s,n,t,h,b); } \
static inline void realAccrete(Sinks<D>*s,int n,double t,Hydrodynamics<D>*h,Nbody<D>*b) { __real__ZN5SinksILi##D##EE18AccreteMassToSinksEidP13HydrodynamicsILi##D##EEP5NbodyILi##D##EE(s,n,t,h,b); }
WRAP(1) WRAP(2) WRAP(3)

template<int ndim> struct Rec : public Watch {
  Simulation<ndim>* sim; std::map<int,int> ids; double M; bool on; bool smooth; std::string mode;
  struct G { double m,r[ndim],v[ndim],a[ndim]; bool dead; };
  struct S { double m,r[ndim],v[ndim],a[ndim],L[3]; };
  int np;
  Hydrodynamics<ndim>* H() { return sim->hydro; } Sinks<ndim>* K() { return sim->sinks; } Nbody<ndim>* B() { return sim->nbody; }
  Particle<ndim>& P(int i) { return H()->GetParticlePointer(i); }
  int id(int i) { auto it=ids.find(P(i).iorig); return it==ids.end()?0:it->second+1; }
  long z(double x,double s) { double y=x/s*(1<<26); if (!(fabs(y)<1.9e9)) return y>0?1900000000L:-1900000000L; return (long)floor(y+0.5); }
  std::vector<G> gas() { std::vector<G> g(np); for (auto&q:g) { q.m=0; q.dead=true; } for (int i=0;i<H()->Nhydro;i++) { int d=id(i)-1; if (d<0) continue; Particle<ndim>&p=P(i); G&q=g[d]; q.m=p.m; q.dead=p.flags.is_dead(); for (int k=0;k<ndim;k++) { q.r[k]=p.r[k]; q.v[k]=p.v[k]; q.a[k]=p.a[k]; } } return g; }
  std::vector<S> stars() { std::vector<S> v(K()->Nsink); for (int s=0;s<K()->Nsink;s++) { auto&q=*K()->sink[s].star; v[s].m=q.m; for (int k=0;k<ndim;k++) { v[s].r[k]=q.r[k]; v[s].v[k]=q.v[k]; v[s].a[k]=q.a[k]; } for (int k=0;k<3;k++) v[s].L[k]=K()->sink[s].angmom[k]; } return v; }
  // would candidate p be too close to a sink with these properties?  0 no, 1 yes, 2 too close to call
  static int cmp(double a,double b) { if (fabs(a-b)<=1e-9*(fabs(a)+fabs(b))) return 2; return a<b?1:0; }
  int excl(Particle<ndim>&p,const FLOAT*r,const FLOAT*v,const FLOAT*a,double radius) {
    double d=0,da=0,dv=0; for (int k=0;k<ndim;k++) { double x=p.r[k]-r[k]; d+=x*x; da+=x*(p.a[k]-a[k]); dv+=x*(p.v[k]-v[k]); }
    int c[3]={0,0,0}; double tff=0.5/sqrt(p.rho); if (dv<0) c[0]=cmp(d,-dv*tff); c[1]=cmp(p.rho*d,-da); c[2]=cmp(sqrt(d),K()->sink_radius*p.h+radius);
    int w=0; for (int q=0;q<3;q++) { if (c[q]==1) return 1; if (c[q]==2) w=2; } return w; }
  double rad(Particle<ndim>&p) { if (K()->sink_radius_mode=="fixed") return K()->sink_radius; if (K()->sink_radius_mode=="hmult") return K()->sink_radius*p.h; return H()->kernp->kernrange*p.h; }
  // which particles are marked as minima of the potential, against all pairs
  void minima(bool mfv) { auto&h=*H(); std::vector<char> act; std::vector<double> keep; for (int i=0;i<h.Nhydro;i++) { Particle<ndim>&p=P(i); act.push_back(p.flags.check(active)); keep.push_back(p.rho); keep.push_back(p.h); if (!p.flags.is_dead()) p.flags.set(active); }
    auto*nb=K()->neibsearch; nb->UpdateActiveParticleCounters(&h); 
    if (!mfv) { nb->UpdateAllProperties(&h,B()); nb->UpdateAllProperties(&h,B()); }
    std::vector<long> fl,lo; bool sane=true; if (!mfv) for (int i=0;i<h.Nhydro;i++) { Particle<ndim>&p=P(i); if (p.flags.is_dead()) continue; sane=sane&&p.rho>0&&std::isfinite(p.rho)&&p.h>0&&p.h>=((Sph<ndim>&)h).h_fac*pow(p.m/h.rho_sink,1.0/ndim)*(1-1e-9); double R2=pow(p.h*h.kernp->kernrange,2); int v=1; for (int j=0;j<h.Nhydro+h.Nghost&&v;j++) { Particle<ndim>&q=P(j); if (q.flags.is_dead()||!(q.gpot>1.000000001*p.gpot)) continue; double d=0; for (int k=0;k<ndim;k++) d+=(q.r[k]-p.r[k])*(q.r[k]-p.r[k]); if (d<R2*0.95) v=0; else if (d<R2*1.05) v=2; } fl.push_back(p.flags.check(potmin)); lo.push_back(v); }
    for (int i=0;i<h.Nhydro;i++) { Particle<ndim>&p=P(i); if (p.flags.is_dead()) continue; p.rho=keep[2*i]; p.h=keep[2*i+1]; p.hrangesqd=p.h*p.h*4; if (act[i]) p.flags.set(active); else p.flags.unset(active); }
    Ev e("minima"); e.boo("sane",sane).arr("flag",fl).arr("low",lo); emit(e); }
  void structure() { Ev e("struct"); std::vector<long> s; bool ok=true; for (int i=0;i<K()->Nsink;i++) { s.push_back(K()->sink[i].star-B()->stardata+1); auto&q=*K()->sink[i].star; ok=ok&&fabs(q.h*H()->kernp->kernrange/K()->sink[i].radius-1)<1e-9&&fabs(q.invh*q.h-1)<1e-9; }
    std::vector<long> b; for (int i=0;i<B()->Nnbody;i++) { long q=0; for (int j=0;j<B()->Nstar;j++) if (B()->nbodydata[i]==&B()->stardata[j]) q=j+1; b.push_back(q); }
    e.num("nstar",B()->Nstar).num("nnb",B()->Nnbody).arr("sink",s).arr("body",b).boo("kernel",ok); emit(e); }
  std::vector<long> ml(const std::vector<G>&g) { std::vector<long> x; for (auto&q:g) x.push_back(z(q.m,M)); return x; }
  std::vector<long> dl(const std::vector<G>&g) { std::vector<long> x; for (auto&q:g) x.push_back(q.dead); return x; }
  std::vector<long> sl() { std::vector<long> x; for (int i=0;i<B()->Nstar;i++) x.push_back(z(B()->stardata[i].m,M)); return x; }
  void search(int n,double t) {
    std::vector<int> c; std::vector<double> rho; for (int i=0;i<H()->Nhydro;i++) { Particle<ndim>&p=P(i); if (p.flags.is_dead()||!p.flags.check(potmin)||p.rho<K()->rho_sink||n%p.nstep) continue; c.push_back(i); }
    std::sort(c.begin(),c.end(),[&](int a,int b) { return P(a).rho>P(b).rho; });
    std::vector<long> ci; std::vector<std::vector<long> > exs,exc; std::vector<int> rk;
    for (size_t x=0;x<c.size();x++) { Particle<ndim>&p=P(c[x]); ci.push_back(id(c[x])); std::vector<long> u,w; for (int s=0;s<K()->Nsink;s++) { auto&q=*K()->sink[s].star; u.push_back(excl(p,q.r,q.v,q.a,K()->sink[s].radius)); }
      for (size_t y=0;y<c.size();y++) { Particle<ndim>&q=P(c[y]); w.push_back(x==y?1:excl(p,q.r,q.v,q.a,rad(q))); } exs.push_back(u); exc.push_back(w); }
    std::vector<G> g0=gas(); std::vector<long> s0=sl(); int k0=K()->Nsink; std::vector<double> radii,dens; for (int i:c) { radii.push_back(rad(P(i))); dens.push_back(P(i).rho); }
    bool full=false; std::string msg;
    try { Real(n,t,true); } catch (GandalfError&e) { full=true; msg=e.msg; }
    std::vector<G> g1=gas(); std::vector<long> born,copied; std::set<int> used;
    for (int s=k0;s<K()->Nsink;s++) { auto&q=*K()->sink[s].star; int w=0; bool same=false; for (size_t x=0;x<c.size();x++) { int i=ci[x]-1; bool eq=!used.count(i); for (int k=0;k<ndim;k++) eq=eq&&g0[i].r[k]==q.r[k]; if (eq) { w=i+1; same=g0[i].m==q.m&&fabs(K()->sink[s].radius/radii[x]-1)<1e-12; for (int k=0;k<ndim;k++) same=same&&g0[i].v[k]==q.v[k]&&g0[i].a[k]==q.a[k]; used.insert(i); break; } }
      born.push_back(w); copied.push_back(same); }
    Ev e("search"); e.num("n",n).num("cap",K()->Nsinkfixed).num("room",K()->Nsinkmax-k0<B()->Nstarmax-(int)s0.size()?K()->Nsinkmax-k0:B()->Nstarmax-(int)s0.size()).num("had",k0).arr("cand",ci).arr2("exs",exs).arr2("exc",exc).arr("born",born).arr("copied",copied).boo("full",full)
      .arr("m0",ml(g0)).arr("m1",ml(g1)).arr("d0",dl(g0)).arr("d1",dl(g1)).arr("s0",s0).arr("s1",sl()); emit(e); structure(); if (full) throw GandalfError(msg); }
  void Real(int n,double t,bool se) { if (se) realSearch(K(),n,t,H(),B()); else realAccrete(K(),n,t,H(),B()); }
  std::string tup(const double*x,int n,double s) { std::string o="["; for (int k=0;k<n;k++) o+=(k?",":"")+std::to_string(z(x[k],s)); return o+"]"; }
  static void orb(double m,const double*r,const double*v,double*L) { double R[3]={0,0,0},V[3]={0,0,0}; for (int k=0;k<ndim;k++) { R[k]=r[k]; V[k]=v[k]; } L[0]=m*(R[1]*V[2]-R[2]*V[1]); L[1]=m*(R[2]*V[0]-R[0]*V[2]); L[2]=m*(R[0]*V[1]-R[1]*V[0]); }
  void accrete(int n,double dt) {
    std::vector<G> g0=gas(); std::vector<S> k0=stars(); std::vector<long> s0=sl(); double vs=1e-30,rs=1e-30,as=1e-30,Ls=1e-30,mm=0; int live=0;
    for (auto&q:g0) if (!q.dead) { live++; for (int k=0;k<ndim;k++) { vs=std::max(vs,fabs(q.v[k])); rs=std::max(rs,fabs(q.r[k])); as=std::max(as,fabs(q.a[k])); } }
    for (auto&q:k0) { for (int k=0;k<ndim;k++) { vs=std::max(vs,fabs(q.v[k])); rs=std::max(rs,fabs(q.r[k])); as=std::max(as,fabs(q.a[k])); } for (int k=0;k<3;k++) Ls=std::max(Ls,fabs(q.L[k])); } Ls=std::max(Ls,M*vs*rs);
    std::vector<std::vector<std::pair<double,int> > > in(k0.size()); std::vector<std::vector<long> > ins;
    for (size_t s=0;s<k0.size();s++) { for (int i=0;i<np;i++) if (!g0[i].dead) { double d=0; for (int k=0;k<ndim;k++) d+=(g0[i].r[k]-k0[s].r[k])*(g0[i].r[k]-k0[s].r[k]); d=sqrt(d); if (d<K()->sink[s].radius*(1+1e-9)) in[s].push_back(std::make_pair(d,i)); } std::sort(in[s].begin(),in[s].end()); }
    bool threw=false; std::string msg; try { Real(n,dt,false); } catch (GandalfError&e) { threw=true; msg=e.msg; }
    std::vector<G> g1=gas(); std::vector<S> k1=stars(); std::vector<long> own(np,0); for (int i=0;i<H()->Nhydro;i++) if (id(i)) own[id(i)-1]=P(i).sinkid+1;
    std::string sk="["; for (size_t s=0;s<k0.size();s++) { auto&q=*K()->sink[s].star; double x0[ndim],x1[ndim],p0[ndim],p1[ndim],f0[ndim],f1[ndim],l0[3],l1[3]; for (int k=0;k<ndim;k++) { x0[k]=k0[s].m*k0[s].r[k]; x1[k]=k1[s].m*k1[s].r[k]; p0[k]=k0[s].m*k0[s].v[k]; p1[k]=k1[s].m*k1[s].v[k]; f0[k]=k0[s].m*k0[s].a[k]; f1[k]=k1[s].m*k1[s].a[k]; }
      orb(k0[s].m,k0[s].r,k0[s].v,l0); orb(k1[s].m,k1[s].r,k1[s].v,l1); for (int k=0;k<3;k++) { l0[k]+=k0[s].L[k]; l1[k]+=k1[s].L[k]; }
      double target=K()->sink[s].dmdt*q.nstep*dt; bool due=n%q.nstep==0;
      sk+=std::string(s?",":"")+"{\"due\":"+(due?"true":"false")+",\"fin\":"+(std::isfinite(K()->sink[s].dmdt)?"true":"false")+",\"target\":"+std::to_string(std::isfinite(target)?z(target,M):-1)+",\"m0\":"+std::to_string(z(k0[s].m,M))+",\"m1\":"+std::to_string(z(k1[s].m,M))
        +",\"q0\":["; sk+=tup(x0,ndim,M*rs)+","+tup(p0,ndim,M*vs)+","+tup(f0,ndim,M*as)+","+tup(l0,3,Ls)+"],\"q1\":["+tup(x1,ndim,M*rs)+","+tup(p1,ndim,M*vs)+","+tup(f1,ndim,M*as)+","+tup(l1,3,Ls)+"],\"in\":[";
      for (size_t x=0;x<in[s].size();x++) { int i=in[s][x].second; double d=in[s][x].first, tk=g0[i].m-g1[i].m; double X[ndim],p[ndim],f[ndim],l[3]; for (int k=0;k<ndim;k++) { X[k]=tk*g0[i].r[k]; p[k]=tk*g0[i].v[k]; f[k]=tk*g0[i].a[k]; } orb(tk,g0[i].r,g0[i].v,l);
        sk+=std::string(x?",":"")+"{\"i\":"+std::to_string(i+1)+",\"c\":"+(d<K()->sink[s].radius*(1-1e-9)?"1":"2")+",\"q\":["+tup(X,ndim,M*rs)+","+tup(p,ndim,M*vs)+","+tup(f,ndim,M*as)+","+tup(l,3,Ls)+"]}"; }
      sk+="]}"; }
    Ev e("accrete"); e.num("n",n).boo("threw",threw).arr("own",own).arr("m0",ml(g0)).arr("m1",ml(g1)).arr("d0",dl(g0)).arr("d1",dl(g1)).arr("s0",s0).arr("s1",sl()).raw("sk",sk+"]"); emit(e); structure(); if (threw) throw GandalfError(msg); }
};
// wraps the integrator only to know that a step has been completed
template<int ndim> int go(const Args& A) {
  std::string simtype=A.s("sim","gradhsph"); int N=A.i("n",60),Ns=A.i("ns",0); bool mfv=simtype!="gradhsph"; Rng g(A.i("seed",1)*131+17); Parameters*P=newParams("sk");
  P->stringparams["ic"]="python"; P->intparams["Nhydro"]=N; P->intparams["Nstar"]=Ns; P->intparams["Nhydromax"]=14*N+200; P->intparams["Nstarmax"]=0;
  P->intparams["Nlevels"]=A.i("nlevels",1); P->intparams["level_diff_max"]=A.i("diff",1); P->stringparams["gas_eos"]=A.s("eos","isothermal"); P->floatparams["temp0"]=A.f("temp",0.01); P->intparams["hydro_forces"]=1; P->intparams["self_gravity"]=A.i("grav",1);
  P->stringparams["neib_search"]=A.s("tree","kdtree"); P->intparams["Nleafmax"]=A.i("leaf",4); P->intparams["ntreebuildstep"]=A.i("ntb",1); P->intparams["ntreestockstep"]=1; P->floatparams["thetamaxsqd"]=0.1; P->floatparams["tend"]=1e9; P->floatparams["dt_snap"]=1e9; P->floatparams["tsnapfirst"]=1e9;
  P->stringparams["nbody"]=A.s("nbody","lfkdk"); P->intparams["nbody_softening"]=1; P->stringparams["kernel"]="m4"; P->intparams["tabulated_kernel"]=0; P->floatparams["h_fac"]=A.f("hfac",1.2); P->intparams["ewald"]=0; P->floatparams["courant_mult"]=0.3; P->floatparams["accel_mult"]=0.3; P->floatparams["nbody_mult"]=0.2;
  P->stringparams["time_step_limiter"]=A.s("limiter","none"); P->stringparams["slope_limiter"]="gizmo"; P->intparams["zero_mass_flux"]=1; P->stringparams["sph_integration"]=A.s("int","lfkdk"); P->intparams["sph_single_timestep"]=A.i("single",0);
  P->intparams["sink_particles"]=1; P->intparams["dimensionless"]=A.i("units",0)?0:1; P->intparams["create_sinks"]=A.i("create",1); P->intparams["smooth_accretion"]=A.i("smooth",0); P->floatparams["rho_sink"]=A.f("rho",8); P->stringparams["sink_radius_mode"]=A.s("rmode","hmult"); P->floatparams["sink_radius"]=A.f("srad",2.0);
  P->intparams["Nsinkfixed"]=A.i("cap",-1); P->floatparams["alpha_ss"]=A.f("alpha",0.01); P->floatparams["smooth_accrete_frac"]=A.f("sfrac",0.01); P->floatparams["smooth_accrete_dt"]=A.f("sdt",0.01);
  std::string bc=A.s("bc","oo"); double L=1; const char*bn[3][2]={{"boundary_lhs[0]","boundary_rhs[0]"},{"boundary_lhs[1]","boundary_rhs[1]"},{"boundary_lhs[2]","boundary_rhs[2]"}}; const char*bx[3][2]={{"boxmin[0]","boxmax[0]"},{"boxmin[1]","boxmax[1]"},{"boxmin[2]","boxmax[2]"}};
  for (int k=0;k<ndim;k++) for (int s=0;s<2;s++) { char c=bc[std::min((size_t)(2*k+s),bc.size()-1)]; P->stringparams[bn[k][s]]=c=='p'?"periodic":c=='m'?"mirror":"open"; if (c!='o') P->floatparams[bx[k][s]]=s?L:0.0; }
  SimulationBase*base=SimulationBase::SimulationFactory(ndim,simtype,P); Simulation<ndim>*sim=(Simulation<ndim>*)base; base->PreSetupForPython();
  std::vector<std::vector<double> > x(ndim,std::vector<double>(N)),v=x; std::vector<double> m(N),u(N,A.f("u",0.05)); double vs=A.f("v",0.2),in=A.f("infall",1.0); int clumps=A.i("clumps",2); double cp[8][3]; for (int c=0;c<8;c++) for (int k=0;k<3;k++) cp[c][k]=0.25+0.5*g.uni();
  int Mg=(int)ceil(pow((double)N,1.0/ndim)-1e-9);
  for (int i=0;i<N;i++) { m[i]=(1+0.3*g.uni())/N; int c=g.below(clumps+1), d=i; for (int k=0;k<ndim;k++) { double q=g.uni(); if (A.i("grid",0)) { q=(d%Mg+0.5+0.6*(q-0.5))/Mg; d/=Mg; x[k][i]=q; v[k][i]=vs*(2*g.uni()-1)-in*(q-0.5); } else if (c<clumps) { q=A.f("size",0.15)*(q-0.5); x[k][i]=cp[c][k]+q; v[k][i]=vs*(2*g.uni()-1)-in*q*5; } else { x[k][i]=q; v[k][i]=vs*(2*g.uni()-1)-in*(q-0.5); } } }
  const char* nx[3]={"x","y","z"}; const char* nv[3]={"vx","vy","vz"}; for (int k=0;k<ndim;k++) { base->ImportArray(&x[k][0],N,nx[k],"sph"); base->ImportArray(&v[k][0],N,nv[k],"sph"); } base->ImportArray(&m[0],N,"m","sph"); base->ImportArray(&u[0],N,"u","sph");
  if (Ns) { std::vector<double> sx(Ns),sm(Ns,A.f("sm",0.1)),sz(Ns),sh(Ns,A.f("sh",0.05)); for (int k=0;k<ndim;k++) { for (int i=0;i<Ns;i++) { sx[i]=cp[i%8][k]+0.02*g.uni(); sz[i]=vs*(2*g.uni()-1); } if (A.i("edge",0)&&k==0) for (int i=0;i<Ns;i++) sx[i]=i%2?0.995:0.005; base->ImportArray(&sx[0],Ns,nx[k],"star"); base->ImportArray(&sz[0],Ns,nv[k],"star"); } base->ImportArray(&sm[0],Ns,"m","star"); base->ImportArray(&sh[0],Ns,"h","star"); }
  Rec<ndim>*R=new Rec<ndim>(); W=R; R->sim=sim; R->np=N; R->mode=A.s("mode","run");
  base->SetupSimulation(); double M=0; for (int i=0;i<N;i++) { R->ids[R->P(i).iorig]=i; M+=R->P(i).m; } for (int i=0;i<Ns;i++) M+=sim->nbody->stardata[i].m; R->M=M;
  { Ev e("init"); std::vector<typename Rec<ndim>::G> g0=R->gas(); e.num("nd",ndim).num("np",N).boo("run",R->mode=="run").boo("smooth",A.i("smooth",0)).boo("mfv",mfv).boo("threshold",fabs(sim->sinks->rho_sink/(A.f("rho",8)/(sim->simunits.rho.outscale*sim->simunits.rho.outcgs))-1)<1e-9).arr("m",R->ml(g0)).arr("d",R->dl(g0)).arr("s",R->sl()); emit(e); R->structure(); }
  int steps=A.i("steps",10);
  if (R->mode=="run") { for (int s=0;s<steps;s++) { base->MainLoop(); if (A.i("kill",0)) for (int i=0;i<sim->hydro->Nhydro;i++) (void)i; } }
  else for (int s=0;s<steps;s++) {     // fabricated: any state of gas and sinks, then one search and one accretion
    auto*K=sim->sinks; int n=1<<g.below(4); if (g.below(3)==0) n*=3; double hs=0.02+0.1*g.uni(); int lev=g.below(3);
    for (int i=0;i<sim->hydro->Nhydro;i++) { Particle<ndim>&p=R->P(i); if (p.flags.is_dead()) continue; int c=g.below(3); for (int k=0;k<ndim;k++) { p.r[k]=c?cp[c][k]+0.25*(g.uni()-0.5):g.uni(); if (bc[2*k%bc.size()]!='o') { if (p.r[k]<0) p.r[k]+=1; if (p.r[k]>=1) p.r[k]-=1; } p.v[k]=vs*(2*g.uni()-1); p.a[k]=4*g.uni()-2; p.r0[k]=p.r[k]; p.v0[k]=p.v[k]; p.a0[k]=p.a[k]; }
      p.h=hs*(0.5+g.uni()); p.gpot=g.uni(); p.rho=K->rho_sink*(0.2+3*g.uni()); p.sound=0.1+g.uni(); p.flags.set(potmin,g.below(3)==0); p.nstep=1<<g.below(lev+1); p.nlast=n-p.nstep; p.dt=p.nstep*0.01; p.level=lev; p.flags.set(active,g.below(2)); p.hrangesqd=p.h*p.h*4; }
    for (int j=0;j<sim->nbody->Nstar;j++) { auto&q=sim->nbody->stardata[j]; for (int k=0;k<ndim;k++) { q.r[k]=cp[g.below(3)][k]+0.2*(g.uni()-0.5); if (bc[2*k%bc.size()]!='o') q.r[k]=q.r[k]<0?0.001:q.r[k]>1?0.999:q.r[k]; q.v[k]=vs*(2*g.uni()-1); q.a[k]=g.uni(); } q.nstep=1<<g.below(3); q.nlast=n-q.nstep; if (A.i("edge",0)) q.r[0]=j%2?0.995:0.005; }
    if (A.i("tight",0)) K->Nsinkmax=K->Nsink+g.below(3);
    sim->hydro->mmean=1.0/N; auto*nb=K->neibsearch; sim->hydro->Nghost=0; sim->hydro->NPeriodicGhost=0; sim->hydro->Ntot=sim->hydro->Nhydro;
    nb->BuildTree(true,0,1,1,0.01,sim->hydro); nb->SearchBoundaryGhostParticles((FLOAT)0.0,sim->simbox,sim->hydro); nb->BuildGhostTree(true,0,1,1,0.01,sim->hydro);
    R->minima(mfv); R->search(n,0.1*s); if (K->Nsink) R->accrete(n,0.01);
    { auto&H=*sim->hydro; for (int i=0;i<H.Nhydro;i++) if (g.below(40)==0&&!R->P(i).flags.is_dead()&&0) R->P(i).flags.set(dead); } }
  Ev e("done"); e.num("nsink",sim->sinks->Nsink); emit(e); return 0;
}
int main(int argc,char**argv) {
  Args A(argc,argv); quiet(A.s("out","-")); ExceptionHandler::makeExceptionHandler(python); int rc=0;
  try { int nd=A.i("ndim",3); rc = nd==1?go<1>(A) : nd==2?go<2>(A) : go<3>(A); }
  catch (GandalfError& e) { Ev v("raise"); v.boo("self",e.msg.find("Smoothing length too large")!=std::string::npos).boo("memory",e.msg.find("run out of memory for new sinks")!=std::string::npos).str("msg",e.msg); emit(v); }
  catch (std::exception& e) { Ev v("raise"); v.boo("self",false).boo("memory",false).str("msg",e.what()); emit(v); }
  fflush(gout); _exit(rc);
}
