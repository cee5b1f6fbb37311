// Random operations on parameter sets and on the parameters of simulations, reported for spec/ParamsTrace.
#include "hcommon.h"
#include <functional>
FILE* gout=NULL;
static std::vector<std::string> keys; static std::vector<char> kind; static std::map<std::string,int> idx; static size_t nkeys=0;
static std::string codes(const std::string&s) { std::string r="["; for (size_t i=0;i<s.size();i++) { if (i) r+=","; r+=std::to_string((int)(unsigned char)s[i]); } return r+"]"; }
static std::string rec(bool neg,const std::string&d,long x) { return std::string("{\"neg\":")+(neg?"true":"false")+",\"d\":"+codes(d)+",\"x\":"+std::to_string(x)+"}"; }
static std::string shortest(double v) { char b[64]; for (int p=0;p<18;p++) { snprintf(b,64,"%.*e",p,v); if (strtod(b,NULL)==v) break; } return b; }
static std::string canonf(double v) { if (!(fabs(v)<1e308)) return rec(false,"inf",0); if (v==0) return rec(false,"",0);
  std::string s=shortest(v); bool neg=s[0]=='-'; if (neg) s=s.substr(1); size_t e=s.find('e'); long x=atol(s.c_str()+e+1)+1; std::string d; for (size_t i=0;i<e;i++) if (s[i]!='.') d+=s[i];
  while (!d.empty()&&d.back()=='0') d.pop_back(); return rec(neg,d,x); }
static std::string canoni(long v) { return v==0?rec(false,"",0):rec(v<0,std::to_string(labs(v)),0); }
static std::string val(Parameters*P,int i) { const std::string&k=keys[i]; if (kind[i]=='i') return P->intparams.count(k)?canoni(P->intparams[k]):"?"; if (kind[i]=='f') return canonf(P->floatparams[k]); return rec(false,P->stringparams[k],0); }
struct View { Parameters*P; std::vector<std::string> v; void take() { v.resize(keys.size()); for (size_t i=0;i<keys.size();i++) v[i]=val(P,i); } };
static bool grown(Parameters*P) { return P->intparams.size()+P->floatparams.size()+P->stringparams.size()!=nkeys; }
static void diff(Ev&e,View&w) { e.boo("grown",grown(w.P)); std::string s="["; bool f=true; for (size_t i=0;i<keys.size();i++) { std::string n=val(w.P,i); if (n!=w.v[i]) { s+=std::string(f?"":",")+"{\"i\":"+std::to_string(i+1)+","+n.substr(1); f=false; w.v[i]=n; } } e.raw("chg",s+"]"); }
struct Gen { Rng r; Gen(uint64_t s):r(s) {}
  std::string blank() { static const char*B[]={"",""," ","  ","\t"," \t"}; return B[r.below(6)]; }
  std::string digits(int n) { std::string s; for (int i=0;i<n;i++) s+='0'+r.below(10); return s; }
  std::string integer() { static const char*S[]={"","","","-","+"}; return std::string(S[r.below(5)])+(r.below(6)==0?"0":"")+digits(r.range(1,8)); }
  std::string real() { static const char*S[]={"","","","-","+"}; std::string s=S[r.below(5)]; int n=r.range(1,r.below(3)?6:14),p=r.range(0,n); std::string d=digits(n); switch (r.below(4)) { case 0: s+=d; break; case 1: s+=d.substr(0,p)+"."+d.substr(p); break; case 2: s+=d+"."; break; default: s+="0."+d; }
    if (r.below(2)) { s+=r.below(2)?"e":"E"; static const char*T[]={"","-","+"}; s+=T[r.below(3)]+std::to_string(r.range(0,r.below(4)?12:120)); } return s; }
  std::string word() { static const char C[]="abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-./"; std::string s; int n=r.range(1,12); for (int i=0;i<n;i++) s+=C[r.below(sizeof(C)-1)]; return s; }
  std::string value(char k) { return k=='i'?integer():k=='f'?real():(r.below(8)==0?std::string(""):r.below(8)==0?word()+"="+word():word()); }
  std::string text() { std::string s=word(); int n=r.below(5); for (int i=0;i<n;i++) s+=blank()+word(); return s; }
  std::string name(int i) { return keys[i]; }
  std::string line(bool&known) { int i=r.below((int)keys.size()); std::string n=keys[i]; if (n=="ndim"||n=="sim") n=keys[i=0]; std::string v= n=="run_id"?"r"+word().substr(0,1):value(kind[i]); for (char&c : v) if (n=="run_id"&&!isalnum((unsigned char)c)) c='x';
    std::string s; known=false;
    switch (r.below(14)) {
      case 0: return blank()+"#"+blank()+(r.below(2)?text()+" : ":std::string(""))+n+" = "+v;                                    // a comment
      case 1: return blank();
      case 2: return blank()+n+blank();                                                 // no equals sign
      case 3: return n+" "+v;
      case 4: return text()+" : "+n+" "+v;
      case 5: return n+" = "+text()+" : "+v;                                            // equals before colon
      case 6: return (r.below(2)?text()+" : ":std::string(""))+n+word().substr(0,1)+" = "+v;             // near misses
      case 7: { std::string m=n; m[0]=isupper((unsigned char)m[0])?tolower(m[0]):toupper(m[0]); return m+"="+v; }
      case 8: return text()+(r.below(2)?"#"+text():std::string(""))+":"+blank()+n+blank()+"="+blank()+v+blank();
      case 9: return text()+blank()+":"+blank()+n+blank()+"="+blank()+v+"\r";
      default: return blank()+n+blank()+"="+blank()+v+blank(); } }
};
static std::string attempt(const std::function<void()>&f) { try { f(); } catch (GandalfError&e) { return e.msg.empty()?"?":e.msg; } return ""; }
int main(int argc,char**argv) {
  Args A(argc,argv); quiet(A.s("out","-")); ExceptionHandler::makeExceptionHandler(python); Gen g(A.i("seed",1)); Rng&r=g.r; int n=A.i("n",40); std::string mode=A.s("mode","text");
  { Parameters P; for (auto&x : P.intparams) { keys.push_back(x.first); kind.push_back('i'); } for (auto&x : P.floatparams) { keys.push_back(x.first); kind.push_back('f'); } for (auto&x : P.stringparams) { keys.push_back(x.first); kind.push_back('s'); }
    nkeys=keys.size(); Ev e("init"); std::string a="[",b="[",c="["; for (size_t i=0;i<nkeys;i++) { std::string s=i?",":""; a+=s+codes(keys[i]); b+=s+"\""+kind[i]+"\""; c+=s+val(&P,i); } e.raw("keys",a+"]").raw("kind",b+"]").raw("vals",c+"]"); emit(e); }
  Parameters*P=new Parameters(); View w[2]; w[0].P=P; w[1].P=NULL; w[0].take(); SimulationBase*sim=NULL; { Ev e("new"); diff(e,w[0]); emit(e); }
  auto file=[&](std::vector<std::string> ls,const std::string&end) { std::ofstream f("p.dat",std::ios::binary); std::string all; for (size_t i=0;i<ls.size();i++) f<<ls[i]<<(i+1<ls.size()||r.below(2)?end:std::string("")); f.close();
    if (sim==NULL||true) { std::string err=attempt([&]{ P->ReadParamsFile("p.dat"); }); View d; Parameters D; /* relative to the last event */ Ev e("file"); diff(e,w[0]); std::string a="["; for (size_t i=0;i<ls.size();i++) a+=(i?",":"")+codes(ls[i]); e.raw("lines",a+"]").str("err",err); emit(e); } };
  auto make=[&](int nd,const std::string&type) { sim=SimulationBase::SimulationFactory(nd,type,P); w[1].P=sim->simparams; w[1].v=w[0].v; Ev e("make"); bool gr=grown(sim->simparams); diff(e,w[0]); w[1].v=w[0].v; e.boo("grown2",gr).raw("nd",codes(std::to_string(nd))).raw("sim",codes(type)); emit(e); Ev c("copy"); diff(c,w[1]); emit(c); };
  auto set=[&]() { int i=r.below((int)nkeys); if (r.below(12)==0) i=idx.empty()?i:i; std::string k=keys[i]; if (r.below(10)==0) k=r.below(2)?"ndim":"sim"; for (size_t j=0;j<nkeys;j++) if (keys[j]==k) i=j; bool bad=r.below(10)==0; if (bad) k+="_x";
    std::string v,err; int how=r.below(3); if (k=="ic") return;
    if (kind[i]=='s'||how==0) { v=g.value(kind[i]); if (k=="run_id") v="rid"+std::to_string(r.below(100)); err=attempt([&]{ sim->SetParam(k,v); }); }
    else if (how==1||kind[i]=='i') { int x=r.range(-100000,100000)*(r.below(3)?1:1003); v=std::to_string(x); err=how==1?attempt([&]{ sim->SetParam(k,x); }):attempt([&]{ sim->SetParam(k,(double)x); }); }
    else { double x=(r.uni()-0.5)*pow(10.0,r.range(-20,20)); if (r.below(2)) x=strtod(g.real().c_str(),NULL); v=shortest(x); err=attempt([&]{ sim->SetParam(k,x); }); }
    Ev e("set"); diff(e,w[1]); e.raw("k",codes(k)).raw("v",codes(v)).str("err",err); emit(e); };
  auto get=[&]() { int o=sim?r.below(2):0; int i=r.below((int)nkeys); std::string k=keys[i],v,err; if (r.below(8)==0) k=g.word()+"_"; err=attempt([&]{ v= o?sim->GetParam(k):P->GetParameter(k); }); Ev e("get"); diff(e,w[o]); e.num("o",o+1).raw("k",codes(k)).raw("out",codes(v)).str("err",err); emit(e); };
  auto record=[&]() { std::string rid=P->stringparams["run_id"]; for (char c : rid) if (!isalnum((unsigned char)c)) return; if (rid.empty()) return; for (auto&x : P->stringparams) if (x.second.find(':')!=std::string::npos) return; P->RecordParametersToFile();
    std::ifstream f((rid+".param").c_str()); std::string s,a="["; bool first=true; while (getline(f,s)) { a+=(first?"":",")+codes(s); first=false; } Parameters B; std::string err=attempt([&]{ B.ReadParamsFile(rid+".param"); }); std::string b="["; for (size_t i=0;i<nkeys;i++) b+=(i?",":"")+val(&B,i);
    Ev e("record"); diff(e,w[0]); e.raw("lines",a+"]").raw("back",b+"]"); emit(e); };
  auto others=[&]() { if (r.below(3)==0&&sim) { std::list<std::string>*k=sim->GetIntAndFloatParameterKeys(); Ev e("keys"); std::string s="["; bool f=true; for (auto&x : *k) { s+=(f?"":",")+codes(x); f=false; } e.raw("names",s+"]"); emit(e); }
      else if (r.below(3)==0) { std::string err=attempt([&]{ P->ReadParamsFile("absent.dat"); }); Ev e("nofile"); diff(e,w[0]); e.str("err",err); emit(e); } };
  auto lineop=[&]() { bool k; std::string s=g.line(k); P->ParseLine(s); Ev e("line"); diff(e,w[0]); e.raw("text",codes(s)); emit(e); };
  if (mode=="all") {   // every line of up to L characters over an alphabet, with three parameters a, b, s
    std::vector<int> al; std::istringstream is(A.s("alpha")); std::string tok; while (getline(is,tok,',')) al.push_back(atoi(tok.c_str())); int L=A.i("L",4); std::string out="["; bool first=true;
    for (int m=0;m<=L;m++) { std::vector<int> c(m,0); for (;;) { std::string t; for (int x : c) t+=(char)al[x];
        std::string res[2]; int hit=-1; for (int p=0;p<2;p++) { P->intparams["a"]=p?7:8; P->floatparams["b"]=p?7.5:8.5; P->stringparams["s"]=p?"u":"v"; P->ParseLine(t);
          if (P->intparams["a"]!=(p?7:8)) hit=0; if (P->floatparams["b"]!=(p?7.5:8.5)) hit=1; if (P->stringparams["s"]!=(p?"u":"v")) hit=2; }
        if (hit>=0) { std::string v= hit==0?canoni(P->intparams["a"]):hit==1?canonf(P->floatparams["b"]):rec(false,P->stringparams["s"],0); out+=std::string(first?"":",")+"{\"t\":"+codes(t)+",\"k\":"+std::to_string(hit==0?97:hit==1?98:115)+","+v.substr(1); first=false; }
        int i=m-1; while (i>=0&&++c[i]==(int)al.size()) c[i--]=0; if (i<0) break; } }
    P->intparams.erase("a"); P->floatparams.erase("b"); P->stringparams.erase("s"); Ev e("all"); diff(e,w[0]); e.num("L",L).arr("alpha",al).raw("eff",out+"]"); emit(e); return 0; }
  static const char*types[]={"sph","gradhsph","mfvmuscl","meshlessfv","mfvrk","nbody"};
  if (mode=="text") for (int s=0;s<n;s++) { int q=r.below(20); bool k;
      if (q<9) lineop();
      else if (q<11) { std::vector<std::string> ls; int m=r.range(0,25); for (int i=0;i<m;i++) ls.push_back(g.line(k)); if (r.below(5)) ls.insert(ls.begin()+r.below((int)ls.size()+1),"Run id : run_id = R"+std::to_string(r.below(1000))); if (r.below(2)&&!ls.empty()) ls.push_back(ls[r.below((int)ls.size())]); for (auto&x : ls) while (!x.empty()&&x.back()=='\r') x.pop_back(); std::string end=r.below(3)?"\n":"\r\n"; file(ls,end); }
      else if (q<12) record();
      else if (q<13) make(r.range(1,3),types[r.below(6)]);
      else if (q<17) { if (sim) set(); else get(); }
      else if (q<19) get(); else others(); }
  else {   // parameters of real simulations, used by setting them up
    std::vector<std::string> ls={"run_id = U","ic = "+A.s("ic","python"),"dimensionless = "+A.s("diml","1")}; int nd=A.i("ndim",1);
    std::istringstream is(A.s("set")); std::string tok; while (getline(is,tok,',')) { size_t p=tok.find('~'); ls.push_back(tok.substr(0,p)+" = "+tok.substr(p+1)); }
    for (size_t i=ls.size()-1;i>0;i--) std::swap(ls[i],ls[r.below((int)i+1)]);
    file(ls,"\n"); make(nd,A.s("sim","gradhsph")); for (int s=0;s<4;s++) get();
    for (int u=0;u<1;u++) { std::string err=attempt([&]{ if (A.s("ic","python")=="python") sim->PreSetupForPython(); else { sim->SetupSimulation(); sim->Run(2); } }); Ev e("use"); diff(e,w[1]); e.boo("done",sim->ParametersProcessed).str("err",err); emit(e); if (!err.empty()) return 0; }
    for (int s=0;s<n;s++) { if (r.below(2)) set(); else get(); } others(); }
  return 0; }
