// SOURCES: src/CConfig.cpp src/Utils.cpp
#include <errno.h>
#include "CConfig.h"
#include "fz.h"
#include <map>
using namespace fz;
static std::string trim(const std::string&s){ size_t a=0,b=s.size(); while(a<b&&s[a]&&strchr(" \t\r\n",s[a])) ++a; while(b>a&&s[b-1]&&strchr(" \t\r\n",s[b-1])) --b; return s.substr(a,b-a); }
static std::string ws(){ std::string s; while(coin(3)) s+=" \t"[below(2)]; return s; }
static std::string word_(int n){ std::string s; int k=below(n); for(int i=0;i<k;++i) s+="ab1c=.;#[] \t"[coin()?below(5):below(12)]; return s; }
static std::string num(){ std::ostringstream o; if(coin(4)) o<<(long)word(); else if(coin()) o<<word(); else o<<(int)below(70000)-100; return o.str(); }
void fz_case(){
  static const char*S[]={"","main","net","a b","x=y"}; static const char*K[]={"k","port","ip","a.b","#n","k2"};
  std::string f; int n=below(14); std::map<std::string,std::map<std::string,std::string> > m; std::string sec;
  for(int i=0;i<n;++i){
    std::string l;
    switch(below(9)){ case 0: l=ws()+"["+ws()+S[below(5)]+ws()+"]"+ws()+(coin(5)?"k=9":""); break; case 1: l=ws()+"#;"[below(2)]+word_(8)+"=1"; break; case 2: l=ws(); break; case 3: l=word_(9); break; case 4: l=ws()+"["+word_(5); break;
      case 5: l=ws()+K[below(6)]+ws()+"="+ws()+num()+ws(); break; default: l=ws()+K[below(6)]+ws()+"="+ws()+word_(20)+ws(); }
    if(coin(5)) l+="\r"; if(coin(40)) l+=std::string(3000,'v'); TRACE(hex(l)); f+=l; if(i<n-1||coin()) f+="\n";
    size_t a=0; while(a<l.size()&&(l[a]==' '||l[a]=='\t')) ++a; if(a==l.size()||l[a]=='#'||l[a]==';') continue;
    if(l[a]=='['){ size_t j=l.find(']',a); if(j!=std::string::npos) sec=trim(l.substr(a+1,j-a-1)); continue; }
    size_t j=l.find('=',a); if(j==std::string::npos) continue; std::string k=trim(l.substr(a,j-a)); if(k.empty()) continue; m[sec][k]=trim(l.substr(j+1));
  }
  const char*d=getenv("LV_SCRATCH"); char path[512]; snprintf(path,sizeof path,"%s/fzcfgXXXXXX",d?d:"/tmp"); int fd=mkstemp(path); if(fd<0) return; if(write(fd,f.data(),f.size())!=(ssize_t)f.size()) return; close(fd);
  static char mem[sizeof(lce::CConfig)] __attribute__((aligned(16))); memset(mem,(int)below(256)|1,sizeof mem); lce::CConfig&c=*new(mem) lce::CConfig; REQUIRE(c.getErrMsg()[0]==0,"message of a new configuration");
  bool ok=c.loadConfig(path); unlink(path); REQUIRE(ok,"loadConfig");
  for(int i=0;i<12;++i){
    std::string s=S[below(5)],k=K[below(6)]; if(!m.empty()&&coin()){ std::map<std::string,std::map<std::string,std::string> >::iterator a=m.begin(); for(int q=below(m.size());q;--q) ++a; s=a->first; if(!a->second.empty()){ std::map<std::string,std::string>::iterator b=a->second.begin(); for(int q=below(a->second.size());q;--q) ++b; k=b->first; } } else if(coin(3)){ s=word_(4); k=word_(4); }
    bool has=m.count(s)&&m[s].count(k); std::string v=has?m[s][k]:"dflt",o="x"; REQUIRE(&c.getValue(s,k,o,"dflt")==&o&&o==v,"["<<s<<"] "<<k<<" is "<<o<<", want "<<v);
    const char*p=v.c_str(); int I=-3; unsigned U=4; long L=-5; unsigned short H=6; unsigned char B=7; unsigned long Q=8; bool T=has; c.getValue(s,k,I,11); c.getValue(s,k,U,12u); c.getValue(s,k,L,13L); c.getValue(s,k,H,(unsigned short)14); c.getValue(s,k,B,(unsigned char)15); c.getValue(s,k,Q,16UL); bool td=coin(); c.getValue(s,k,T,td);
    long sv=strtol(p,0,10); unsigned long uv=strtoul(p,0,10); 
    if(!has) REQUIRE(I==11&&U==12&&L==13&&H==14&&B==15&&Q==16&&T==td,"defaults of ["<<s<<"] "<<k);
    else { REQUIRE(L==sv,"long "<<L<<" want "<<sv); REQUIRE(Q==uv,"unsigned long "<<Q<<" want "<<uv); if(sv==(int)sv) REQUIRE(I==(int)sv,"int "<<I); if(sv==(long)(unsigned)sv) REQUIRE(U==(unsigned)sv,"unsigned "<<U); if(sv==(long)(unsigned short)sv) REQUIRE(H==sv,"short "<<H); if(sv==(long)(unsigned char)sv) REQUIRE(B==sv,"char "<<(int)B); REQUIRE(T==(sv!=0),"bool"); }
    std::string ip="z"; unsigned short po=1; bool r=c.getIPAndPort(s,k,ip,po,"9.9.9.9",99); size_t j=has?v.find(':'):std::string::npos; if(r) REQUIRE(j!=std::string::npos&&ip==v.substr(0,j)&&po==(unsigned short)atoi(v.c_str()+j+1),"address "<<ip<<" "<<po); else REQUIRE(ip=="9.9.9.9"&&po==99,"default address");
  }
  c.~CConfig(); static bool once=false; if(!once){ once=true; lce::CConfig e; REQUIRE(!e.loadConfig("/nonexistent/x"),"a missing file is loaded"); }
}
