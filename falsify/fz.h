// Runtime side of the contracts: random search for a concrete input on which the real code breaks
// the contract.  Used to confirm and replay what the verifier reports; every case is a function of
// (seed, case number) so that it can be replayed alone.
#ifndef FZ_H
#define FZ_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <vector>
#include <string>
#include <sstream>
#include <stdexcept>
#include <exception>
namespace fz{
static uint64_t st; static std::vector<uint64_t> hints; static std::string note_;
static uint64_t mix(uint64_t z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
static uint64_t rnd(){ st+=0x9e3779b97f4a7c15ULL; uint64_t z=st; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
static uint64_t below(uint64_t n){ return n?rnd()%n:0; }
static bool coin(unsigned n=2){ return below(n)==0; }
// value in [lo,hi], biased to the ends and to values from the verifier's counterexample
static uint64_t pick(uint64_t lo,uint64_t hi){
  unsigned c=below(10); uint64_t w=hi-lo;
  if(c==0&&!hints.empty()){ uint64_t h=hints[below(hints.size())]; if(h>=lo&&h<=hi) return h; }
  if(c==1) return lo+below(w<4?w+1:4); if(c==2) return hi-below(w<4?w+1:4);
  if(c<6) return lo+below(w<40?w+1:40);
  return w==~0ULL?rnd():lo+below(w+1); }
static uint64_t word(){ // interesting 64-bit word
  switch(below(8)){ case 0: return rnd(); case 1: return 1ULL<<below(64); case 2: return (1ULL<<below(64))-1; case 3: return ~0ULL-below(4);
    case 4: return 0-(1ULL<<below(64)); case 5: return below(300); case 6: if(!hints.empty()) return hints[below(hints.size())]; return rnd()>>below(64); default: return rnd()>>below(64);} }
static std::string bytes(size_t n){ std::string s(n,0); int m=below(3); for(size_t i=0;i<n;++i) s[i]=m==0?(char)rnd():m==1?(char)("\0\xff\x7f\x80 a%+\r\n\t\"\\0"[below(14)]):(char)('a'+below(26)); return s; }
static std::string hex(const std::string&s){ std::string r; char b[4]; for(size_t i=0;i<s.size()&&i<96;++i){ snprintf(b,4,"%02x",(unsigned char)s[i]); r+=b; } if(s.size()>96) r+="..."; return r; }
struct Fail:std::exception{ std::string m; Fail(const std::string&x):m(x){} ~Fail() throw(){} const char*what()const throw(){return m.c_str();} };
static void fail(const std::string&m){ throw Fail(m); }
}
#define REQUIRE(c,msg) do{ if(!(c)){ std::ostringstream o_; o_<<msg; fz::fail(std::string(#c)+": "+o_.str()); } }while(0)
void fz_case();               // one random case; throws fz::Fail on a contract violation
static std::string fz_trace;  // optional description of the case
#define TRACE(x) do{ std::ostringstream o_; o_<<x; fz_trace+=o_.str()+"; "; if(fz_trace.size()>6000) fz_trace.erase(0,3000); }while(0)
int main(int c,char**v){
  uint64_t seed=c>1?strtoull(v[1],0,0):1; double secs=c>2?atof(v[2]):5; const char*cf=c>3?v[3]:0; 
  const char*h=getenv("LV_HINTS"); if(h){ char*e=(char*)h; while(*e){ fz::hints.push_back(strtoull(e,&e,0)); while(*e==',')++e; } }
  volatile uint64_t dummy=0; volatile uint64_t*cur=&dummy; 
  long only=-1; if(cf&&!strncmp(cf,"case=",5)) only=atol(cf+5);
  else if(cf){ int fd=open(cf,O_RDWR|O_CREAT,0644); if(ftruncate(fd,8)) return 3; cur=(uint64_t*)mmap(0,8,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); }
  timespec t0,t; clock_gettime(CLOCK_MONOTONIC,&t0); uint64_t n=0;
  for(;;++n){
    uint64_t k=only>=0?(uint64_t)only:n; *cur=k; fz::st=fz::mix(seed*1000003+k); fz_trace.clear();
    try{ fz_case(); }
    catch(fz::Fail&e){ printf("FAIL case=%llu %s\n  trace: %s\n",(unsigned long long)k,e.what(),fz_trace.c_str()); fflush(stdout); _exit(1); }
    catch(std::exception&e){ printf("FAIL case=%llu unexpected exception: %s\n  trace: %s\n",(unsigned long long)k,e.what(),fz_trace.c_str()); fflush(stdout); _exit(1); }
    if(only>=0) break;
    if((n&15)==0||secs<1){ clock_gettime(CLOCK_MONOTONIC,&t); if((t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9>secs) break; }
  }
  printf("OK cases=%llu\n",(unsigned long long)n+1); fflush(stdout); _exit(0);
}
#endif
