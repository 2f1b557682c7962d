#include <stdint.h>
#include "CPackageFilter.h"
#include "CHttpPackageFilter.h"
#include "fz.h"
using namespace fz;
static std::string num(){ char b[40]; switch(below(9)){ case 0: snprintf(b,40,"%lld",(long long)(int64_t)word()); break; case 1: snprintf(b,40,"-%u",(unsigned)below(50)); break; case 2: return "99999999999999999999999"; case 3: return ""; case 4: snprintf(b,40,"  %u",(unsigned)below(40)); break; case 5: snprintf(b,40,"%u,5",(unsigned)below(40)); break; case 6: snprintf(b,40,"%lld",2147483647LL-(long long)below(400)+(long long)below(3)); break; default: snprintf(b,40,"%u",(unsigned)below(60)); } return b; }
void fz_case(){
  static const char*lines[]={"Host: a","X-Content-Length: 7","content-length: 9","Accept: */*","A: Content-Length: 5","Content-Length:4","Content-Length","\r",""};
  std::string s; s+=coin()?"GET / HTTP/1.1":coin()?"HTTP/1.1 200 OK":coin()?"Content-Length: 3":bytes(below(6)); if(!coin(12)) s+="\r\n"; int k=below(5); for(int i=0;i<k;++i){ if(coin()) s+="Content-Length: "+num(); else s+=lines[below(9)]; s+=coin(9)?"\n":"\r\n"; } if(!coin(6)) s+="\r\n";
  std::string body; int bl=below(70); for(int i=0;i<bl;++i) body+=coin(8)?"\r\n":coin(10)?"\r\n\r\n":std::string(1,(char)rnd()); if(coin(8)) body+="\r\nContent-Length: 4\r\n\r\n"; if(coin(3)) s+=body.substr(0,below(body.size()+1)); else s+=body; if(coin(4)) s.resize(below(s.size()+1));
  if(coin(6)&&s.size()) s[below(s.size())]=0;
  int n=s.size(); char*p=(char*)malloc(n?n:1); memcpy(p,s.data(),n); int arg=coin(30)?-(int)below(3):n; if(arg<=0) n=0; s.resize(n); TRACE("n="<<arg<<" "<<s);
  int want=-1; long long L=0; size_t h=s.find("\r\n\r\n"); if(h!=std::string::npos){ long long head=h+4,v=0; std::string hd=s.substr(0,head); size_t c=hd.find("\r\nContent-Length: "); if(c!=std::string::npos){ c+=18; size_t q=hd.find("\r\n",c); v=strtol(hd.substr(c,q-c).c_str(),0,10); } L=head+v; if(v<0||v>0x7fffffff||L>0x7fffffff) want=-2; else if(L<=n) want=0; }
  int real=-7,tot=-7; lce::CHttpPackageFilter f; int r=f.isWholePkg(p,arg,real,tot); REQUIRE(r==want,"returned "<<r<<" want "<<want<<" total "<<L<<" of "<<n); if(r==0) REQUIRE(tot==L&&real==L,"lengths "<<real<<","<<tot<<" want "<<L); REQUIRE(f.getRealPkgData(p,n)==p,""); REQUIRE(!memcmp(p,s.data(),n),"bytes changed"); free(p);
}
