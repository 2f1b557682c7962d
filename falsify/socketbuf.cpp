#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "CSocketBuf.h"
#include "fz.h"
using namespace fz; using lce::CSocketBuf;
struct M{ CSocketBuf*b; std::string d; int ini,mx; };
static void same(M&m,const char*w){ REQUIRE(m.b->getSize()==(int)m.d.size(),w<<": holds "<<m.b->getSize()<<" want "<<m.d.size()); REQUIRE(std::string(m.b->getData(),m.d.size())==m.d,w<<": bytes differ"); REQUIRE(m.b->getBufMaxSize()==m.mx,w<<": max"); REQUIRE(m.b->getBufSize()>=m.b->getSize(),""); REQUIRE(m.b->getRealFreeSize()==m.b->getBufSize()-(int)m.d.size(),"real free"); }
void fz_case(){
  std::vector<M> v; int k=1+below(3); for(int i=0;i<k;++i){ M m; m.ini=pick(1,40); m.mx=pick(m.ini,400); m.b=new CSocketBuf(m.ini,m.mx); TRACE("buf "<<m.ini<<".."<<m.mx); v.push_back(m); }
  unsigned ops=1+below(150);
  for(unsigned o=0;o<ops;++o){ M&m=v[below(v.size())]; CSocketBuf&b=*m.b;
    switch(below(9)){
    case 0: case 1: case 2:{ int n=pick(0,coin(4)?m.mx+5:30); if(coin(6)) n=m.mx-(int)m.d.size()+(int)below(3)-1; if(n<0) n=0; std::string s=bytes(n); char*p=(char*)malloc(n+1); memcpy(p,s.data(),n); bool r=b.addData(p,n); free(p); TRACE("add "<<n<<" "<<r); REQUIRE(r==((int)m.d.size()+n<=m.mx),"addData("<<n<<") with "<<m.d.size()<<" of "<<m.mx<<" returned "<<r); if(r) m.d+=s; break; }
    case 3: case 4:{ int f=b.getFreeSize(); REQUIRE(f>=0,"negative free area"); int n=coin(3)?f:(int)below(f+1); std::string s=bytes(n); memcpy(b.getFreeBuf(),s.data(),n); REQUIRE(b.addData(n),"commit"); m.d+=s; TRACE("commit "<<n<<"/"<<f); break; }
    case 5:{ int f=b.getFreeSize(); b.addFreeBuf(); TRACE("addFreeBuf"); if(f==0&&(int)m.d.size()<m.mx) REQUIRE(b.getFreeSize()>0,"addFreeBuf makes no room"); break; }
    case 6: case 7:{ int n=coin(3)?m.d.size():below(m.d.size()+1); b.removeData(n); m.d.erase(0,n); TRACE("remove "<<n); break; }
    case 8: switch(below(6)){ case 0: b.reset(); m.d.clear(); TRACE("reset"); break; case 1:{ M n=m; n.b=new CSocketBuf(b); v.push_back(n); TRACE("copy"); break; } case 2:{ M&n=v[below(v.size())]; *n.b=*m.b; n.d=m.d; n.ini=m.ini; n.mx=m.mx; TRACE("assign"); break; } case 3:{ CSocketBuf e; REQUIRE(e.getSize()==0&&e.getBufSize()==0,"default"); char c=1; REQUIRE(!e.addData(&c,1),"default accepts data"); CSocketBuf g(e); REQUIRE(g.getSize()==0,""); e=b; M n=m; n.b=&e; same(n,"assigned default"); break; } default: break; } break;
    }
    for(size_t i=0;i<v.size();++i) same(v[i],"after op");
    if(v.size()>5){ delete v.back().b; v.pop_back(); }
  }
  for(size_t i=0;i<v.size();++i) delete v[i].b;
}
