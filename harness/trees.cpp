// Records which particles really interact: every density, gradient, hydro-force, flux and gravity evaluation of
// the running code (gradhsph / mfvmuscl with its tree and ghosts) with the neighbours it was given, the cells and
// particles the gravity walk summed, and the tree itself. Validated against spec/Interactions.
#include "hcommon.h"
#include "NbodyParticle.h"
#include "MeshlessFV.h"
#include "SlopeLimiter.h"
#include "KDTree.h"
#include "OctTree.h"
#include "BruteForceTree.h"
#include "SphNeighbourSearch.h"
#include "MfvNeighbourSearch.h"
FILE* gout=NULL;
static double SC=4096;
static long qz(double x) { double y=x*SC; if (!(fabs(y)<1e6)) return y>0?1000000:-1000000; return (long)floor(y+0.5); }
static double MU=1; // mass unit

struct Query { int i; std::string kind; long R; std::vector<std::vector<long> > nb; };

template<int ndim> struct Rec {
  static Rec* I;
  Simulation<ndim>* sim; TreeBase<ndim>* tree; TreeBase<ndim>* gtree; bool on; bool mfv; int pass, maxpass; double dirsign;
  std::string kind; bool open_; std::vector<std::string> seen; std::string parts, treejson; std::map<std::string,std::map<int,std::string> > qs; std::map<int,int> iorig; std::map<double,int> bymass;
  std::vector<int> act; NeighbourManagerDim<ndim>* mgr; std::string mult; bool treedump; bool isstar; double kr; std::string build;
  struct Far { double a0[3]; double p0; std::vector<double> ref; double refp, norm, normp; bool set; double af[3]; double pf; bool fin; };
  std::map<int,Far> far; std::string starcells; std::string starev; NbodyParticle<ndim>* star; Far sf; std::vector<MultipoleMoment<ndim> > sgc;
  Particle<ndim>& G(int i) { return sim->hydro->GetParticlePointer(i); }
  int idOf(int io) { auto it=iorig.find(io); return it==iorig.end()?-1:it->second+1; }
  int idMass(double m) { auto it=bymass.find(m); return it==bymass.end()?-1:it->second+1; }
  template<class V> std::string vec(const V&v) { std::string s="["; for (size_t k=0;k<v.size();k++) { if (k) s+=","; s+=std::to_string((long)v[k]); } return s+"]"; }
  std::string pos(const FLOAT*r) { std::string s; for (int k=0;k<ndim;k++) s+=","+std::to_string(qz(r[k])); return s; }
  std::string box(const FLOAT*lo,const FLOAT*hi) { std::string s="["; for (int k=0;k<ndim;k++) { if (k) s+=","; s+="["+std::to_string(qz(lo[k]))+","+std::to_string(qz(hi[k]))+"]"; } return s+"]"; }
  void snapshot() {
    iorig.clear(); bymass.clear(); act.clear(); parts="["; int n=sim->hydro->Nhydro;
    for (int i=0;i<n;i++) { auto&p=G(i); bool dead=p.flags.is_dead(); if (!dead) { iorig[p.iorig]=iorig.count(p.iorig)?-5:i; bymass[p.m]=bymass.count(p.m)?-5:i; }
      bool a=p.flags.check(active)&&!dead; if (a) act.push_back(i+1);
      std::string x="["; for (int k=0;k<ndim;k++) { if (k) x+=","; x+=std::to_string(qz(p.r[k])); } x+="]";
      parts+=std::string(i?",":"")+"{\"x\":"+x+",\"R\":"+std::to_string(std::min(2000000L,(long)floor(kr*p.h*SC+0.5)))+",\"t\":"+std::to_string(p.ptype)+",\"l\":"+std::to_string(p.level)+",\"a\":"+(a?"true":"false")+",\"d\":"+(dead?"true":"false")+",\"u\":"+((!mfv||p.flags.check(update_density))?"true":"false")+",\"m\":"+std::to_string((long)floor(p.m/MU+0.5))+"}"; }
    parts+="]";
  }
  // cells of the tree as the code sees them
  template<class T> void cells(T*t) {
    std::string s="[";
    for (int c=0;c<t->Ncell;c++) { auto&C=t->celldata[c]; std::vector<int> ids; if (C.copen==-1&&C.ifirst>=0) { int i=C.ifirst; int g=0; while (i!=-1&&g++<100000) { ids.push_back(i+1); if (i==C.ilast) break; i=t->inext[i]; } }
      s+=std::string(c?",":"")+"{\"o\":"+std::to_string(C.copen+1)+",\"n\":"+std::to_string(std::min(C.cnext,t->Ncell)+1)+",\"N\":"+std::to_string(C.N)+",\"na\":"+std::to_string(C.Nactive)+",\"m\":"+std::to_string((long)floor(C.m/MU+0.5))
        +",\"ids\":"+vec(ids)+",\"bb\":"+(C.N?box(C.bb.min,C.bb.max):"[]")+",\"hb\":"+(C.N?box(C.hbox.min,C.hbox.max):"[]")+",\"hm\":"+std::to_string((long)floor(kr*C.hmax*SC+0.5))+"}"; }
    treejson=s+"]";
    allcells.clear(); for (int c=0;c<t->Ncell;c++) allcells.push_back(contents(t,c));
  }
  std::vector<std::vector<int> > allcells;
  template<class T> std::vector<int> contents(T*t,int c) { std::vector<int> v; auto&C=t->celldata[c]; if (C.copen==-1) { int i=C.ifirst,g=0; if (C.N>0) while (i!=-1&&g++<100000) { v.push_back(i+1); if (i==C.ilast) break; i=t->inext[i]; } }
    else { int d=C.copen,g=0; while (d>=0&&d!=C.cnext&&d<t->Ncell&&g++<100000) { auto w=contents(t,d); v.insert(v.end(),w.begin(),w.end()); d=t->celldata[d].cnext; } } return v; }
  template<class T> void passStart(T*t) { if (!on) return; flush(); snapshot(); cells(t); open_=true; mgr=NULL; far.clear(); }
  std::map<std::string,int> dup;
  void q(const char*k,int i,const std::string&body) { if (!on||!open_) return; if (qs[k].count(i)) dup[k]++; qs[k][i]=body; }
  void flush() {
    if (!open_) return; open_=false;
    if (pass<maxpass) {
    std::string K; for (auto&x:qs) { if (K.size()) K+=","; K+="\""+x.first+"\":["; bool f=true; for (auto&y:x.second) { if (!f) K+=","; f=false; K+=y.second; } K+="]"; }
    for (const char*k : {"dens","hydro","hgrav","grav","grad","flux"}) if (!qs.count(k)) { if (K.size()) K+=","; K+=std::string("\"")+k+"\":[]"; }
    int nd=0; for (auto&x:dup) if (x.first!="dens") nd+=x.second; Ev e("pass"); e.num("dup",nd).raw("p",parts).raw("c",treejson).raw("q","{"+K+"}").boo("sig",sig).arr("act",act); 
    std::vector<long> dev; for (auto&x:far) { Far&F=x.second; if (!F.set) continue; auto&p=G(x.first-1); double d=0,dp; for (int k=0;k<ndim;k++) { double fin=F.fin?F.af[k]:p.atree[k]; double e1=fin-F.a0[k]-F.ref[k]; d+=e1*e1; } d=sqrt(d)/(F.norm+1e-300); dp=fabs((F.fin?F.pf:p.gpot)-F.p0-F.refp)/(F.normp+1e-300); if (F.norm==0) { d=0; dp=0; } dev.push_back(std::isfinite(d)?(long)std::min(1e9,d*1e6):1000000000L); dev.push_back(std::isfinite(dp)?(long)std::min(1e9,dp*1e6):1000000000L); }
    e.arr("dev",dev); emit(e); pass++; }
    qs.clear(); dup.clear(); sig=false; far.clear();
  }
  bool sig;
  template<class L> std::string list(L&nl) { std::string s="["; for (size_t j=0;j<nl.size();j++) s+=std::string(j?",":"")+"["+std::to_string(idOf(nl[j].iorig))+pos(nl[j].r)+"]"; return s+"]"; }
  template<class L> std::string listm(L&nl) { std::string s="["; for (size_t j=0;j<nl.size();j++) s+=std::string(j?",":"")+"["+std::to_string(idMass(nl[j].m))+pos(nl[j].r)+"]"; return s+"]"; }
  std::string head(int id,double R) { return "{\"i\":"+std::to_string(id)+",\"R\":"+std::to_string(std::min(2000000L,(long)floor(R*SC+0.5))); }
  // gravity lists of one particle: cells + single particles, plus reference values of their summed attraction
  template<class P,class M> std::string grav(P&p,M*m,int id,double*apre,double ppre) {
    std::string s=",\"cells\":["; bool f=true; for (auto&c : m->gravcell) { if (!f) s+=","; f=false; std::vector<int> v; if (c.id>=0&&c.id<(int)allcells.size()) v=allcells[c.id]; s+="{\"c\":"+std::to_string(c.id+1)+",\"m\":"+std::to_string((long)floor(c.m/MU+0.5))+",\"x\":["+pos(c.r).substr(1)+"],\"ids\":"+vec(v)+"}"; }
    s+="],\"dir\":["; for (size_t j=0;j<m->directlist.size();j++) { auto&n=m->neibdata[m->directlist[j]]; s+=std::string(j?",":"")+"["+std::to_string(idMass(n.m))+pos(n.r)+"]"; }
    s+="]";
    return s;
  }
  template<class P,class M> void reference(P&p,M*m,int id) {
    Far F; F.ref.assign(3,0.0); F.refp=0; F.norm=F.normp=0; F.set=true; F.fin=false; for (int k=0;k<ndim;k++) F.a0[k]=p.atree[k]; F.p0=p.gpot;
    auto add=[&](double mm,const double*r) { double d2=0,dr[3]={0,0,0}; for (int k=0;k<ndim;k++) { dr[k]=r[k]-p.r[k]; d2+=dr[k]*dr[k]; } double d=sqrt(d2); for (int k=0;k<ndim;k++) F.ref[k]+=mm*dr[k]/(d*d2); F.refp+=mm/d; F.norm+=mm/d2; F.normp+=mm/d; };
    for (size_t j=0;j<m->directlist.size();j++) { auto&n=m->neibdata[m->directlist[j]]; double r[3]; for (int k=0;k<ndim;k++) r[k]=n.r[k]; add(n.m,r); }
    bool exact = mult=="monopole";
    for (auto&c : m->gravcell) { if (c.id<0||c.id>=(int)allcells.size()) continue; auto&v=allcells[c.id]; double cm=0,cr[3]={0,0,0};
      for (int i : v) { auto&g=G(i-1); if (!sim->hydro->types.gravmask[g.ptype]) continue; cm+=g.m; for (int k=0;k<ndim;k++) cr[k]+=g.m*g.r[k]; if (!exact) { double r[3]; for (int k=0;k<ndim;k++) r[k]=g.r[k]; add(g.m,r); } }
      if (exact&&cm>0) { for (int k=0;k<ndim;k++) cr[k]/=cm; add(cm,cr); } }
    far[id]=F;
  }
  void starfin() { if (starev.empty()) return; double d=0; for (int k=0;k<ndim;k++) { double e=star->a[k]-sf.a0[k]-sf.ref[k]; d+=e*e; } d=sf.norm>0?sqrt(d)/sf.norm:0;
    std::string s=starev+",\"dev\":["+std::to_string(std::isfinite(d)?(long)std::min(1e9,d*1e6):1000000000L)+"]}"; fputs(s.c_str(),gout); fputc('\n',gout); starev=""; pass++; }
  void starlists(NbodyParticle<ndim>*s,int nn,int nd,int*nl,int*dl) { if (!on||pass>=maxpass) return; star=s; std::vector<int> a,b; for (int i=0;i<nn;i++) a.push_back(nl[i]+1); for (int i=0;i<nd;i++) b.push_back(dl[i]+1);
    starev="{\"e\":\"star\",\"x\":["+pos(s->r).substr(1)+"],\"H\":"+std::to_string(std::min(2000000L,(long)floor(kr*s->h*SC+0.5)))+",\"p\":"+parts+",\"c\":"+treejson+",\"nl\":"+vec(a)+",\"dl\":"+vec(b)+",\"cells\":"+starcells; }
  void starref(NbodyParticle<ndim>*s) { if (starev.empty()) return; for (int k=0;k<ndim;k++) sf.a0[k]=s->a[k]; sf.ref.assign(3,0.0); sf.norm=0;
    auto add=[&](double mm,const double*r) { double d2=0,dr[3]={0,0,0}; for (int k=0;k<ndim;k++) { dr[k]=r[k]-s->r[k]; d2+=dr[k]*dr[k]; } double d=sqrt(d2); for (int k=0;k<ndim;k++) sf.ref[k]+=mm*dr[k]/(d*d2); sf.norm+=mm/d2; };
    bool exact = mult=="monopole"||mult=="fast_monopole";
    for (auto&c : sgc) { if (c.id<0||c.id>=(int)allcells.size()) continue; double cm=0,cr[3]={0,0,0}; for (int i : allcells[c.id]) { auto&g=G(i-1); if (!sim->hydro->types.gravmask[g.ptype]) continue; cm+=g.m; for (int k=0;k<ndim;k++) cr[k]+=g.m*g.r[k]; if (!exact) { double r[3]; for (int k=0;k<ndim;k++) r[k]=g.r[k]; add(g.m,r); } } if (exact&&cm>0) { for (int k=0;k<ndim;k++) cr[k]/=cm; add(cm,cr); } } }
  template<class P> void finish(P&p,int id) { auto it=far.find(id); if (it==far.end()||it->second.fin) return; Far&F=it->second; for (int k=0;k<ndim;k++) F.af[k]=p.atree[k]; F.pf=p.gpot; F.fin=true; }
};
template<int ndim> Rec<ndim>* Rec<ndim>::I=NULL;

// ---- recorders: same object layout, methods overridden (only the vtable pointer is exchanged) ----
template<int ndim,class Base> struct RecTree : public Base {
  RecTree(const Base&b) : Base(b) {}
  int ComputeActiveCellList(vector<TreeCellBase<ndim> >& l) { Rec<ndim>::I->passStart((Base*)this); return Base::ComputeActiveCellList(l); }
  void BuildTree(const int a,const int b,const int c,const int d,const FLOAT t,Particle<ndim>*p) { Rec<ndim>::I->flush(); Base::BuildTree(a,b,c,d,t,p); }
  void ComputeGravityInteractionAndGhostList(const TreeCellBase<ndim>&c,NeighbourManagerDim<ndim>&m) { Base::ComputeGravityInteractionAndGhostList(c,m); Rec<ndim>::I->mgr=&m; }
  bool ComputeSignalVelocityFromDistantInteractions(const TreeCellBase<ndim>& c,int n,Particle<ndim>*a,Particle<ndim>*b) { Rec<ndim>::I->sig=true; return Base::ComputeSignalVelocityFromDistantInteractions(c,n,a,b); }
  int ComputeStarGravityInteractionList(const NbodyParticle<ndim>*s,const FLOAT f,const int a,const int b,const int c,int&nn,int&nd,int&nc,int*nl,int*dl,MultipoleMoment<ndim>*g,Particle<ndim>*p) {
    int r=Base::ComputeStarGravityInteractionList(s,f,a,b,c,nn,nd,nc,nl,dl,g,p); auto*R=Rec<ndim>::I;
    if (r==1&&R->on&&R->pass<R->maxpass) { R->flush(); R->snapshot(); R->cells((Base*)this); R->mgr=NULL; std::string cs="["; for (int j=0;j<nc;j++) { std::vector<int> v; if (g[j].id>=0&&g[j].id<(int)R->allcells.size()) v=R->allcells[g[j].id]; cs+=std::string(j?",":"")+"{\"c\":"+std::to_string(g[j].id+1)+",\"m\":"+std::to_string((long)floor(g[j].m/MU+0.5))+",\"x\":["+R->pos(g[j].r).substr(1)+"],\"ids\":"+R->vec(v)+"}"; } cs+="]";
      R->starcells=cs; R->sgc.assign(g,g+nc); R->starfin(); }
    return r; }
};

template<int ndim> struct RecSph : public GradhSph<ndim,TabulatedKernel> {
  typedef GradhSph<ndim,TabulatedKernel> B; typedef typename B::HydroNeib HN; typedef typename SphParticle<ndim>::DensityParticle DP;
  typedef NeighbourManager<ndim,HN> NM;
  RecSph(const B&b) : B(b) {}
  int ComputeH(SphParticle<ndim>&p,FLOAT hmax,const vector<DP>&l,Nbody<ndim>*n) {
    int r=B::ComputeH(p,hmax,l,n); auto*R=Rec<ndim>::I; int id=R->idOf(p.iorig);
    if (r!=0) { auto&ll=const_cast<vector<DP>&>(l); R->q("dens",id,R->head(id,R->kr*p.h)+",\"nb\":"+R->listm(ll)+"}"); }
    return r; }
  void ComputeSphHydroForces(GradhSphParticle<ndim>&p,NeighbourList<HN>&l) { auto*R=Rec<ndim>::I; int id=R->idOf(p.iorig); R->q("hydro",id,R->head(id,R->kr*p.h)+",\"nb\":"+R->list(l)+"}"); B::ComputeSphHydroForces(p,l); }
  void ComputeSphHydroGravForces(GradhSphParticle<ndim>&p,NeighbourList<HN>&l) { auto*R=Rec<ndim>::I; int id=R->idOf(p.iorig); R->q("hgrav",id,R->head(id,R->kr*p.h)+",\"nb\":"+R->list(l)+"}"); B::ComputeSphHydroGravForces(p,l); }
  void ComputeSphGravForces(GradhSphParticle<ndim>&p,NeighbourList<HN>&l) { auto*R=Rec<ndim>::I; int id=R->idOf(p.iorig); std::string sm=R->list(l); B::ComputeSphGravForces(p,l);
    if (R->on&&R->open_&&R->mgr) { NM*m=static_cast<NM*>(R->mgr); R->reference(p,m,id); double a[3]; R->q("grav",id,R->head(id,R->kr*p.h)+",\"sm\":"+sm+R->grav(p,m,id,a,0)+"}"); } }
  void ComputeStarGravForces(const int N,NbodyParticle<ndim>**s,SphParticle<ndim>&p) { auto*R=Rec<ndim>::I; R->finish(p,R->idOf(p.iorig)); B::ComputeStarGravForces(N,s,p); }
};
template<int ndim> struct RecMfv : public MfvMuscl<ndim,TabulatedKernel,GizmoLimiter<ndim> > {
  typedef MfvMuscl<ndim,TabulatedKernel,GizmoLimiter<ndim> > B; typedef MeshlessFVParticle<ndim> MP;
  RecMfv(const B&b) : B(b) {}
  int ComputeH(const int i,const int n,const FLOAT hmax,FLOAT*m,FLOAT*mu,FLOAT*d2,FLOAT*gp,MP&p,Nbody<ndim>*nb) {
    auto*R=Rec<ndim>::I; std::string s="["; for (int j=0;j<n;j++) s+=std::string(j?",":"")+"["+std::to_string(R->idMass(m[j]))+","+std::to_string(qz(sqrt(d2[j])))+"]"; s+="]";
    int r=B::ComputeH(i,n,hmax,m,mu,d2,gp,p,nb); int id=R->idOf(p.iorig); if (r!=0) R->q("dens",id,R->head(id,R->kr*p.h)+",\"nb\":"+s+"}"); return r; }
  void ComputeGradients(MP&p,NeighbourList<typename B::GradNeib>&l) { auto*R=Rec<ndim>::I; int id=R->idOf(p.iorig); R->q("grad",id,R->head(id,R->kr*p.h)+",\"nb\":"+R->list(l)+"}"); B::ComputeGradients(p,l); }
  void ComputeGodunovFlux(MP&p,NeighbourList<typename B::FluxNeib>&l,FLOAT dt) { auto*R=Rec<ndim>::I; int id=R->idOf(p.iorig); R->q("flux",id,R->head(id,R->kr*p.h)+",\"nb\":"+R->list(l)+"}"); B::ComputeGodunovFlux(p,l,dt); }
  std::string first;
  void ComputeSmoothedGravForces(MP&p,NeighbourList<typename B::GravNeib>&l) { auto*R=Rec<ndim>::I; int id=R->idOf(p.iorig);
    std::string s=R->listm(l); B::ComputeSmoothedGravForces(p,l);
    auto&S=sm(); if (S.first!=id) { S.first=id; S.second=s; } else { S.first=-1; std::string t=S.second; if (t.size()>2&&s.size()>2) t=t.substr(0,t.size()-1)+","+s.substr(1); else if (s.size()>2) t=s; S.second=t;
      if (R->on&&R->open_&&R->mgr) { typedef NeighbourManager<ndim,typename MP::GravParticle> NM; NM*m=static_cast<NM*>(R->mgr); R->reference(p,m,id); double a[3]; R->q("grav",id,R->head(id,R->kr*p.h)+",\"sm\":"+t+R->grav(p,m,id,a,0)+"}"); } } }
  static std::pair<int,std::string>& sm() { static std::pair<int,std::string> x(-1,""); return x; }
  void ComputeStarGravForces(const int N,NbodyParticle<ndim>**s,MP&p) { auto*R=Rec<ndim>::I; R->finish(p,R->idOf(p.iorig)); B::ComputeStarGravForces(N,s,p); }
};
template<int ndim> struct RecNbody : public NbodyLeapfrogKDK<ndim,TabulatedKernel> {
  typedef NbodyLeapfrogKDK<ndim,TabulatedKernel> B;
  RecNbody(const B&b) : B(b) {}
  void CalculateDirectHydroForces(NbodyParticle<ndim>*s,int nn,int nd,int*nl,int*dl,Hydrodynamics<ndim>*h,DomainBox<ndim>&b,Ewald<ndim>*e) { auto*R=Rec<ndim>::I; R->starlists(s,nn,nd,nl,dl); B::CalculateDirectHydroForces(s,nn,nd,nl,dl,h,b,e); R->starref(s); }
  void CalculateDirectSmoothedGravForces(int n,NbodyParticle<ndim>**s,DomainBox<ndim>&b,Ewald<ndim>*e) { Rec<ndim>::I->starfin(); B::CalculateDirectSmoothedGravForces(n,s,b,e); }
};
template<class R,class B> void swapv(B*b) { R*r=new R(*b); memcpy((void*)b,(void*)r,sizeof(void*)); }

template<int ndim,template<int> class PT> void hookTree(const std::string& kind,TreeBase<ndim>*t) {
  if (kind=="kdtree") { typedef KDTree<ndim,PT,KDTreeCell> T; swapv<RecTree<ndim,T> >((T*)t); }
  else if (kind=="octtree") { typedef OctTree<ndim,PT,OctTreeCell> T; swapv<RecTree<ndim,T> >((T*)t); }
  else { typedef BruteForceTree<ndim,PT,BruteForceTreeCell> T; swapv<RecTree<ndim,T> >((T*)t); }
}

template<int ndim> int go(const Args& A) {
  std::string simtype=A.s("sim","gradhsph"), tk=A.s("tree","kdtree"); int N=A.i("n",40), Ns=A.i("ns",0); bool mfv=simtype=="mfvmuscl";
  Rng g(A.i("seed",1)*131+17); Parameters*P=newParams("tr"); bool grav=A.i("grav",0);
  P->stringparams["ic"]="python"; P->intparams["Nhydro"]=N; P->intparams["Nstar"]=Ns; P->intparams["Nhydromax"]=A.i("nmax",12*N+100);
  P->intparams["Nlevels"]=A.i("nlevels",1); P->stringparams["gas_eos"]="energy_eqn"; P->intparams["hydro_forces"]=A.i("hydro",1); P->intparams["self_gravity"]=grav;
  P->stringparams["neib_search"]=tk; P->intparams["Nleafmax"]=A.i("leaf",4); P->intparams["ntreebuildstep"]=A.i("ntb",1); P->intparams["ntreestockstep"]=1;
  P->stringparams["gravity_mac"]=A.s("mac","geometric"); P->stringparams["multipole"]=A.s("mult","monopole"); P->floatparams["thetamaxsqd"]=A.f("theta",0.3); P->floatparams["macerror"]=A.f("macerr",0.01);
  P->floatparams["tend"]=1e9; P->floatparams["dt_snap"]=1e9; P->floatparams["tsnapfirst"]=1e9; P->stringparams["nbody"]="lfkdk"; P->intparams["nbody_softening"]=1; P->stringparams["kernel"]=A.s("kernel","m4"); P->intparams["tabulated_kernel"]=1;
  P->floatparams["h_fac"]=A.f("hfac",1.2); P->intparams["ewald"]=0; P->floatparams["courant_mult"]=A.f("cour",0.3); P->floatparams["accel_mult"]=0.3; P->stringparams["time_step_limiter"]=mfv?A.s("limiter","none"):"none"; P->stringparams["slope_limiter"]="gizmo"; P->intparams["zero_mass_flux"]=A.i("zmf",1);
  std::string bc=A.s("bc","oo"); // two letters per dimension: o open, p periodic, m mirror
  const char*bn[3][2]={{"boundary_lhs[0]","boundary_rhs[0]"},{"boundary_lhs[1]","boundary_rhs[1]"},{"boundary_lhs[2]","boundary_rhs[2]"}}; const char*bx[3][2]={{"boxmin[0]","boxmax[0]"},{"boxmin[1]","boxmax[1]"},{"boxmin[2]","boxmax[2]"}};
  double L[3]; std::vector<long> lo,hi; std::vector<std::string> B;
  for (int k=0;k<ndim;k++) { L[k]= k==0?1.0:(k==1?A.f("ly",1.0):A.f("lz",1.0)); for (int s=0;s<2;s++) { char c=bc[std::min((size_t)(2*k+s),bc.size()-1)]; std::string nm=c=='p'?"periodic":c=='m'?"mirror":"open"; P->stringparams[bn[k][s]]=nm; B.push_back(std::string(1,c)); if (c!='o') P->floatparams[bx[k][s]]= s?L[k]:0.0; } }
  SC=A.f("sc",4096);
  SimulationBase*base=SimulationBase::SimulationFactory(ndim,simtype,P); Simulation<ndim>*sim=(Simulation<ndim>*)base; base->PreSetupForPython();
  Rec<ndim>*R=new Rec<ndim>(); Rec<ndim>::I=R; R->sim=sim; R->on=true; R->open_=false; R->mfv=mfv; R->pass=0; R->maxpass=A.i("maxpass",12); R->mgr=NULL; R->mult=A.s("mult","monopole"); R->sig=false; R->kr=sim->hydro->kernp->kernrange; R->star=NULL;
  if (!mfv) { typedef GradhSphTree<ndim,GradhSphParticle> T; T*t=reinterpret_cast<T*>(((SphSimulation<ndim>*)sim)->sphneib); hookTree<ndim,GradhSphParticle>(tk,t->tree); swapv<RecSph<ndim> >((GradhSph<ndim,TabulatedKernel>*)sim->hydro); }
  else { typedef MeshlessFVTree<ndim,MeshlessFVParticle> T; T*t=reinterpret_cast<T*>(((MeshlessFVSimulation<ndim>*)sim)->mfvneib); hookTree<ndim,MeshlessFVParticle>(tk,t->tree); swapv<RecMfv<ndim> >((MfvMuscl<ndim,TabulatedKernel,GizmoLimiter<ndim> >*)sim->hydro); }
  swapv<RecNbody<ndim> >((NbodyLeapfrogKDK<ndim,TabulatedKernel>*)sim->nbody);
  // initial conditions: clumpy or uniform random particles with distinct masses
  std::string ic=A.s("ic","uniform"); double vs=A.f("v",0.3);
  std::vector<std::vector<double> > x(ndim,std::vector<double>(N)),v=x; std::vector<double> m(N),u(N,A.f("u",1.0));
  double m0=1.0/N; MU=m0/1000;
  for (int i=0;i<N;i++) { m[i]=m0*(1000+i)/1000.0; for (int k=0;k<ndim;k++) { double q=g.uni(); if (ic=="clump"&&g.below(3)) { double c=0.2+0.6*((i*(k+3))%3)/2.0; q=c+0.1*(g.uni()-0.5); } if (ic=="wall"&&g.below(2)) q=g.below(2)?0.06*g.uni():1-0.06*g.uni(); if (ic=="line"&&k>0) q=0.5+0.02*q; if (ic=="grid") { int M=(int)ceil(pow((double)N,1.0/ndim)-1e-9),id=i; for (int d=0;d<k;d++) id/=M; id%=M; if (k==ndim-1) { int T=1; for (int d=0;d<k;d++) T*=M; M=(N+T-1)/T; } q=(id+0.5+A.f("jit",0.7)*(q-0.5))/M; } x[k][i]=q*L[k]; v[k][i]=vs*(2*g.uni()-1); } }
  const char* nx[3]={"x","y","z"}; const char* nv[3]={"vx","vy","vz"};
  for (int k=0;k<ndim;k++) { base->ImportArray(&x[k][0],N,nx[k],"sph"); base->ImportArray(&v[k][0],N,nv[k],"sph"); }
  base->ImportArray(&m[0],N,"m","sph"); base->ImportArray(&u[0],N,"u","sph");
  if (Ns) { std::vector<double> sx(Ns),sm(Ns,m0),sz(Ns,0.0),sh(Ns,A.f("sh",0.02)); for (int k=0;k<ndim;k++) { for (int i=0;i<Ns;i++) sx[i]=g.uni()*L[k]; base->ImportArray(&sx[0],Ns,nx[k],"star"); base->ImportArray(&sz[0],Ns,nv[k],"star"); } base->ImportArray(&sm[0],Ns,"m","star"); base->ImportArray(&sh[0],Ns,"h","star"); }
  int ncdm=A.i("cdm",0); 
  for (int k=0;k<ndim;k++) { lo.push_back(qz(0)); hi.push_back(qz(L[k])); }
  { Ev e("init"); e.num("nd",ndim).arr("lo",lo).arr("hi",hi).sarr("bc",B).boo("mfv",mfv).boo("grav",grav).boo("hydro",A.i("hydro",1)).str("mult",R->mult).str("tree",tk).num("leaf",A.i("leaf",4)).boo("strict",A.i("strict",0)).boo("mayraise",A.i("mayraise",0)).num("tol",A.i("tol",20)).num("theta",(long)floor(1000*A.f("theta",0.3)+0.5)).num("kr",(long)R->kr).boo("mac",A.s("mac","geometric")=="geometric").boo("flux",mfv&&A.i("zmf",1)==0).str("args",A.s("args")); emit(e); }
  if (A.i("skipinit",0)) R->on=false;
  base->SetupSimulation(); R->flush(); R->starfin(); if (R->on&&R->pass<R->maxpass) { Ev e("step"); emit(e); } R->on=true;
  R->pass=0;
  int steps=A.i("steps",3), kill=A.i("kill",0);
  for (int s=0;s<steps;s++) {
    if (s==0&&ncdm&&!mfv) for (int i=0;i<N;i++) if (i%ncdm==0) R->G(i).ptype=cdm_type;
    if (kill&&s>0) for (int q=0;q<kill;q++) { int i=g.below(sim->hydro->Nhydro); auto&p=R->G(i); p.flags.set(dead); p.flags.unset(active); p.m=0; sim->rebuild_tree=A.i("norebuild",0)?sim->rebuild_tree:true; }
    R->pass=0; base->MainLoop(); R->flush(); R->starfin(); if (R->pass<R->maxpass) { Ev e("step"); emit(e); }
    if (A.i("hmove",0)) {}
  }
  Ev e("done"); emit(e); return 0;
}
int main(int argc,char**argv) {
  Args A(argc,argv); quiet(A.s("out","-")); ExceptionHandler::makeExceptionHandler(python); int rc=0;
  try { int nd=A.i("ndim",2); rc = nd==1?go<1>(A) : nd==2?go<2>(A) : go<3>(A); }
  catch (GandalfError& e) { Ev v("raise"); v.boo("self",e.msg.find("Smoothing length too large")!=std::string::npos).str("msg",e.msg); emit(v); }
  catch (std::exception& e) { Ev v("raise"); v.boo("self",false).str("msg",e.what()); emit(v); }
  fflush(gout); _exit(rc);
}
