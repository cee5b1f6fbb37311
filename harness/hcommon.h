// Shared helpers of the conformance harnesses: simulation construction and ndjson event output.
#ifndef HCOMMON_H
#define HCOMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
#include "Exception.h"
#include "Simulation.h"
#include "Parameters.h"
#include "Sph.h"
#include "Nbody.h"
#include "Sinks.h"
#include "Integration.h"
#include "ExternalPotential.h"
#include "InlineFuncs.h"

// ---- deterministic random numbers (independent of the code under test) -----------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed*0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i=0;i<4;i++) next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull;
    z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  int below(int n) { return (int)(next()%(uint64_t)n); }
  int range(int a,int b) { return a + below(b-a+1); }
  double uni() { return (next()>>11)*(1.0/9007199254740992.0); }
};

// ---- command line: key=value ------------------------------------------------------------------
struct Args {
  std::map<std::string,std::string> m;
  Args(int argc,char**argv) { for (int i=1;i<argc;i++) { std::string a=argv[i]; size_t p=a.find('=');
    if (p!=std::string::npos) m[a.substr(0,p)]=a.substr(p+1); } }
  std::string s(const std::string&k,const std::string&d="") const { auto it=m.find(k); return it==m.end()?d:it->second; }
  long i(const std::string&k,long d=0) const { auto it=m.find(k); return it==m.end()?d:atol(it->second.c_str()); }
  double f(const std::string&k,double d=0) const { auto it=m.find(k); return it==m.end()?d:atof(it->second.c_str()); }
};

// ---- ndjson events -----------------------------------------------------------------------------
struct Ev {
  std::ostringstream o; bool first;
  Ev(const char*name) : first(true) { o<<"{"; str("e",name); }
  void key(const char*k) { if (!first) o<<","; first=false; o<<"\""<<k<<"\":"; }
  Ev& num(const char*k,long v) { key(k); if (v>2000000000L||v<-2000000000L) v=(v>0?2000000000L:-2000000000L); o<<v; return *this; }
  Ev& boo(const char*k,bool v) { key(k); o<<(v?"true":"false"); return *this; }
  static std::string esc(const std::string&s) { std::string r; for (char c : s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; }
    else if ((unsigned char)c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
  Ev& str(const char*k,const std::string&v) { key(k); o<<"\""<<esc(v)<<"\""; return *this; }
  template<class V> Ev& arr(const char*k,const V&v) { key(k); o<<"["; bool f=true; for (auto x : v) { if (!f) o<<","; f=false;
    long y=(long)x; if (y>2000000000L) y=2000000000L; if (y<-2000000000L) y=-2000000000L; o<<y; } o<<"]"; return *this; }
  template<class V> Ev& sarr(const char*k,const V&v) { key(k); o<<"["; bool f=true; for (auto&x : v) { if (!f) o<<","; f=false; o<<"\""<<esc(x)<<"\""; } o<<"]"; return *this; }
  template<class V> Ev& arr2(const char*k,const V&v) { key(k); o<<"["; bool f=true; for (auto&row : v) { if (!f) o<<","; f=false;
    o<<"["; bool g=true; for (auto x : row) { if (!g) o<<","; g=false; o<<(long)x; } o<<"]"; } o<<"]"; return *this; }
  Ev& raw(const char*k,const std::string&v) { key(k); o<<v; return *this; }
  std::string done() { return o.str()+"}"; }
};
extern FILE* gout;
static inline void emit(Ev& e) { std::string s=e.done(); fputs(s.c_str(),gout); fputc('\n',gout); fflush(gout); }

// exact text of a double
static inline std::string hexd(double x) { char b[40]; if (x==0) x=0; snprintf(b,40,"%a",x); return b; }

static inline Parameters* newParams(const std::string& runid) {
  Parameters* p = new Parameters();
  p->stringparams["run_id"] = runid;
  p->intparams["dimensionless"] = 1;
  return p;
}
// silence the code's own stdout chatter: real stdout is kept in gout
static inline void quiet(const std::string& outfile) {
  if (outfile.empty() || outfile=="-") { int fd=dup(1); gout=fdopen(fd,"w"); }
  else gout=fopen(outfile.c_str(),"w");
  if (!gout) { perror("open output"); exit(3); }
  if (!getenv("HVERBOSE")) { if (!freopen("/dev/null","w",stdout)) exit(3); std::cout.setstate(std::ios_base::badbit); }
}
#endif
