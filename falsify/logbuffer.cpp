#include <stdio.h>
#include <string.h>
#include "CLogBuffer.h"
#include "fz.h"
using namespace fz;
void fz_case(){
  lce::CLogBuffer b; size_t cap=pick(0,300); std::string m; bool full=false,init=false; unsigned n=1+below(40);
  for(unsigned i=0;i<n;++i){
    unsigned op=below(12); TRACE("op "<<op<<" size "<<m.size()<<"/"<<cap);
    if(op==0){ size_t c=pick(0,300); if(!init){ cap=c; init=true; } REQUIRE(b.init(c),""); }
    else if(op==1){ b.reset(); m.clear(); full=false; }
    else if(op==2){ size_t big=~(size_t)0-below(m.size()+3); if(init&&big<=cap-m.size()) continue; bool r=b.write("x",big); REQUIRE(!r,"write of "<<big<<" bytes with "<<m.size()<<" of "<<cap<<" held succeeds"); if(init) full=true; }
    else { std::string s=bytes(pick(0,coin(3)?cap+2:cap/3+1)); char*p=(char*)malloc(s.size()+1); memcpy(p,s.data(),s.size()); bool r=b.write(p,s.size()); free(p); bool fit=init&&s.size()<=cap-m.size(); REQUIRE(r==fit,"write of "<<s.size()<<" at "<<m.size()<<" of "<<cap<<" returns "<<r); if(r) m+=s; else if(init) full=true; }
    REQUIRE(b.size()==m.size(),"size "<<b.size()<<" instead of "<<m.size()); REQUIRE(b.empty()==m.empty(),""); REQUIRE(b.full()==full,"full flag"); REQUIRE(m.empty()||!memcmp(b.data(),m.data(),m.size()),"held bytes differ");
  }
}
