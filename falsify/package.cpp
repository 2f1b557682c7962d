#include <stdint.h>
#include <stdlib.h>
#include "CPackage.h"
#include "fz.h"
using namespace fz;
struct Head{ char b[6]; }; typedef lce::CPackage<Head> P;
struct M{ std::string b; int p; int room()const{ return (int)b.size()-6-p; } };
static std::string BE(uint64_t v,int n){ std::string s; for(int i=n-1;i>=0;--i) s+=(char)(v>>(8*i)); return s; }
static void same(P&p,M&m,const char*w){ REQUIRE(p.size()==(int)m.b.size()&&p.getPkgLen()==p.size(),w<<": size "<<p.size()<<" want "<<m.b.size()); REQUIRE(!memcmp(p.data(),m.b.data(),m.b.size()),w<<": bytes"); REQUIRE(p.getPkgBodyLen()==(int)m.b.size()-6&&p.getPkgBody()==p.data()+6&&p.getPkg()==p.data()&&(char*)p.getPkgHead()==p.data()&&(char*)&p.head()==p.data(),w); int r=m.room(); REQUIRE(!p.isEnd(r)&&p.isEnd(r+1),w<<": read position, "<<r<<" bytes should remain"); }
template<class T> static void rd(P&p,M&m){ T v=(T)0x5a5a5a5a5a5a5a5aULL; bool t=false; try{ p>>v; }catch(std::exception&){ t=true; } bool fits=m.room()>=(int)sizeof(T); REQUIRE(t==!fits,"read of "<<sizeof(T)<<" bytes with "<<m.room()<<" left"); if(fits){ uint64_t u=0; for(size_t i=0;i<sizeof(T);++i) u=u<<8|(unsigned char)m.b[6+m.p+i]; REQUIRE(v==(T)u,"value read"); m.p+=sizeof(T); } else REQUIRE(v==(T)0x5a5a5a5a5a5a5a5aULL,"failed read wrote its argument"); }
template<class T> static void wr(P&p,M&m){ T v=(T)word(); unsigned k=below(3); if(k==0){ p<<v; m.b+=BE((uint64_t)v,sizeof(T)); } else if(k==1){ size_t at=p.write(v); REQUIRE(at==m.b.size(),"write position"); m.b+=BE((uint64_t)v,sizeof(T)); } else if(m.b.size()>=6+sizeof(T)){ size_t at=6+below(m.b.size()-6-sizeof(T)+1); p.writePos(v,at); m.b.replace(at,sizeof(T),BE((uint64_t)v,sizeof(T))); } }
void fz_case(){
  P*p=new P; M m; m.b.assign(6,0); m.p=0; unsigned ops=1+below(60);
  for(unsigned o=0;o<ops;++o){ same(*p,m,"before op"); unsigned k=below(22); TRACE("op"<<k<<" pos "<<m.p<<" len "<<m.b.size());
   switch(k){
   case 0: switch(below(10)){ case 0: wr<unsigned char>(*p,m); break; case 1: wr<char>(*p,m); break; case 2: wr<unsigned short>(*p,m); break; case 3: wr<short>(*p,m); break; case 4: wr<unsigned>(*p,m); break; case 5: wr<int>(*p,m); break; case 6: wr<unsigned long>(*p,m); break; case 7: wr<long>(*p,m); break; case 8: wr<unsigned long long>(*p,m); break; default: wr<long long>(*p,m); } break;
   case 1: case 2: case 3: switch(below(10)){ case 0: rd<unsigned char>(*p,m); break; case 1: rd<char>(*p,m); break; case 2: rd<unsigned short>(*p,m); break; case 3: rd<short>(*p,m); break; case 4: rd<unsigned>(*p,m); break; case 5: rd<int>(*p,m); break; case 6: rd<unsigned long>(*p,m); break; case 7: rd<long>(*p,m); break; case 8: rd<unsigned long long>(*p,m); break; default: rd<long long>(*p,m); } break;
   case 4: case 5:{ std::string s=bytes(below(30)); if(coin()) p->write(s.data(),s.size()); else p->write((const unsigned char*)s.data(),s.size()); m.b+=s; break; }
   case 6:{ std::string s=bytes(below(30)); if(coin()){ *p<<s; m.b+=s; } else { *p<<s.c_str(); m.b+=s.c_str(); } break; }
   case 7: case 8:{ int n=coin(5)?-(int)below(4):(int)pick(0,m.room()+3); if(coin(3)) n=m.room()+(int)below(3)-1; bool fits=n>=0&&n<=m.room(); char*b=(char*)malloc(n>0?n:1); bool t=false; std::string s="keep"; bool st=coin(); try{ if(st) p->read(s,n); else p->read(b,n); }catch(std::exception&){ t=true; } REQUIRE(t==!fits,"read("<<n<<") with "<<m.room()<<" left"); if(fits){ REQUIRE((st?s:std::string(b,n))==m.b.substr(6+m.p,n),"raw bytes"); m.p+=n; } else REQUIRE(s=="keep","argument changed"); free(b); break; }
   case 9: case 10: case 11:{ int w=1<<below(3); uint64_t n=0; bool fits=m.room()>=w; if(fits){ for(int i=0;i<w;++i) n=n<<8|(unsigned char)m.b[6+m.p+i]; fits=n<=(uint64_t)(m.room()-w); } std::string s="keep"; bool t=false; try{ if(w==1) p->readString1(s); else if(w==2) p->readString2(s); else p->readString4(s); }catch(std::exception&){ t=true; } REQUIRE(t==!fits,"readString"<<w<<" prefix "<<n<<" with "<<m.room()<<" left"); if(fits){ REQUIRE(s==m.b.substr(6+m.p+w,n),"counted text"); m.p+=w+n; } else REQUIRE(s=="keep","argument changed"); break; }
   case 12:{ std::string s="x"; p->readString(s); size_t e=m.b.find('\0',6+m.p); bool nul=e!=std::string::npos; if(!nul) e=m.b.size(); REQUIRE(s==m.b.substr(6+m.p,e-6-m.p),"text up to the terminator"); m.p=(int)e-6+(nul?1:0); break; }
   case 13: case 14: case 15:{ P::SEEK_DIR d=(P::SEEK_DIR)below(3); int body=m.b.size()-6; int n; switch(below(5)){ case 0: n=(int)word(); break; case 1: n=-(int)below(body+3); break; case 2: n=d==P::S_CUR?body-m.p+(int)below(3)-1:body+(int)below(3)-1; break; case 3: n=-body+(int)below(3)-1; break; default: n=below(body+2); } long to=d==P::S_BEG?n:d==P::S_CUR?(long)m.p+n:(long)body+n; bool ok=d==P::S_BEG?(n>=0&&n<body):d==P::S_CUR?(to>=0&&to<=body):(n<=0&&to>=0); bool r=p->seek(n,d); if(r){ REQUIRE(to>=0&&to<=body,"seek("<<n<<","<<d<<") leaves the body"); m.p=to; } else REQUIRE(!ok,"seek("<<n<<","<<d<<") refused"); break; }
   case 16:{ std::string s=bytes(below(20)); bool t=false; unsigned w=below(4); P*q=0; try{ char*b=(char*)malloc(s.size()+1); memcpy(b,s.data(),s.size()); try{ if(w==0) p->setPkgData(b,(int)s.size()); else if(w==1) p->setPkgData((unsigned char*)b,(int)s.size()); else if(w==2) p->setPkgData(s); else q=new P(b,(int)s.size()); }catch(...){ free(b); throw; } free(b); }catch(std::runtime_error&){ t=true; } REQUIRE(t==(s.size()<6),"data of "<<s.size()<<" bytes"); if(!t){ m.b=s; m.p=0; if(q){ delete p; p=q; } } t=false; try{ if(coin()) p->setPkgData((const char*)0,9); else P x(0,9); }catch(std::runtime_error&){ t=true; } REQUIRE(t,"null data"); break; }
   case 17:{ std::string s=bytes(below(20)); p->seek(0,P::S_BEG); if(m.b.size()>6) m.p=0; if(m.p==0){ if(coin()) p->setPkgBody(s.data(),s.size()); else p->setPkgBody((const unsigned char*)s.data(),s.size()); m.b=m.b.substr(0,6)+s; } break; }
   case 18:{ Head h; std::string s=bytes(6); memcpy(&h,s.data(),6); p->setPkgHead(h); m.b.replace(0,6,s); break; }
   case 19: if(coin(3)){ if(coin()){ p->clear(); m.b.assign(6,0); } else { p->clearBody(); m.b.resize(6); } m.p=0; } break;
   case 20:{ P*q=coin()?new P(*p):new P; *q=*p; P&self=*q; *q=self; same(*p,m,"source of a copy"); delete p; p=q; break; }
   case 21:{ std::string s=bytes(below(9)); *p<<s; m.b+=s; *p<<(char)0; m.b+='\0'; break; }
   } }
  same(*p,m,"end"); delete p;
}
