#include "CBufferQueue.h"
#include "fz.h"
#include <deque>
using namespace fz; using lce::CBufferQueue;
static char*huge(){ static char*p=(char*)mmap(0,5UL<<30,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); return p; }
void fz_case(){
  size_t reg=pick(57,coin()?140:900); size_t S=reg-40; char*raw=(char*)malloc(reg); memset(raw,0xa5,reg);
  CBufferQueue q; q.create(raw,reg); std::deque<std::string> m; size_t used=0; TRACE("region="<<reg);
  unsigned nops=1+below(120);
  for(unsigned i=0;i<nops;++i){
    unsigned op=below(12);
    REQUIRE(q.size()==m.size(),"size "<<q.size()<<" want "<<m.size()); REQUIRE(q.empty()==m.empty(),"");
    if(op<5){ // push
      size_t n=coin(8)?0:pick(0,coin(3)?S+4:S/3+1); std::string d=bytes(n); bool fits=n+16<=S-used; bool two=coin();
      size_t l1=two?pick(0,n):n;
      if(n){ bool f=q.full(n); REQUIRE(f==!fits,"full("<<n<<")="<<f<<" used="<<used<<" S="<<S); }
      TRACE((two?"push2 ":"push ")<<n<<"/"<<l1);
      char*b1=(char*)malloc(l1+1); char*b2=(char*)malloc(n-l1+1); memcpy(b1,d.data(),l1); memcpy(b2,d.data()+l1,n-l1);
      bool thrown=false; std::string before(raw,reg);
      try{ if(two) q.push(b1,(unsigned)l1,b2,(unsigned)(n-l1)); else q.push(b1,n); }catch(std::runtime_error&){ thrown=true; }
      free(b1); free(b2);
      if(n==0){ REQUIRE(!thrown,"empty push throws"); }
      else{ REQUIRE(thrown==!fits,"push("<<n<<") "<<(thrown?"refused":"accepted")<<" with "<<used<<" of "<<S<<" used"); if(!thrown){ m.push_back(d); used+=n+8; } }
    }else if(op<10){
      size_t c1=coin(3)?pick(0,S):S, c2=pick(0,S); bool two=coin(); if(coin(4)&&!m.empty()) { c1=pick(0,m.front().size()); c2=m.front().size()-c1+(below(3)-1); if((long)c2<0) c2=0; }
      char*b1=(char*)malloc(c1+1); char*b2=(char*)malloc(c2+1); memset(b1,0x5a,c1+1); memset(b2,0x5a,c2+1);
      size_t s1=c1,s2=c2; bool thrown=false,r=false; TRACE((two?"pop2 ":"pop ")<<c1<<","<<c2);
      try{ r=two?q.pop(b1,s1,b2,s2):q.pop(b1,s1); }catch(std::runtime_error&){ thrown=true; }
      size_t cap=two?c1+c2:c1;
      if(m.empty()){ REQUIRE(!thrown&&!r,"pop of an empty ring"); REQUIRE(s1==c1&&s2==c2,"sizes changed"); }
      else{ std::string d=m.front(); m.pop_front(); used-=d.size()+8;
        if(d.size()>cap){ REQUIRE(thrown,"too small buffer not reported"); REQUIRE(s1==c1&&s2==c2,"sizes changed"); s1=s2=0; }
        else{ REQUIRE(!thrown&&r,"pop fails"); size_t f=two?(c1<d.size()?c1:d.size()):d.size();
          REQUIRE(s1==f,"first length "<<s1<<" want "<<f); if(two) REQUIRE(s2==d.size()-f,"second length "<<s2); else s2=0;
          REQUIRE(std::string(b1,s1)+std::string(b2,s2)==d,"payload differs"); }
        for(size_t k=s1;k<=c1;++k) REQUIRE(b1[k]==0x5a,"write past the message"); for(size_t k=s2;k<=c2;++k) REQUIRE(b2[k]==0x5a,"write past the message"); }
      free(b1); free(b2);
    }else if(op==10){ CBufferQueue q2; try{ q2.attach(raw,reg); }catch(std::exception&e){ REQUIRE(false,"attach refuses a live ring: "<<e.what()); } q=q2; }
    else if(coin(6)){ char save[40]; memcpy(save,raw,40); unsigned long*h=(unsigned long*)raw; unsigned f=below(4); unsigned long old=h[f]; 
      h[f]= f<2? old+1+below(9) : S+1+below(5); CBufferQueue q2; bool t=false; try{ q2.attach(raw,reg); }catch(std::runtime_error&){ t=true; } REQUIRE(t,"attach accepts a bad header field "<<f); memcpy(raw,save,40);
      bool t2=false; try{ CBufferQueue q3; q3.attach(raw,reg-1-below(8)); }catch(std::runtime_error&){ t2=true; } REQUIRE(t2,"attach accepts a different size"); 
      for(size_t z=0;z<=56;z+=8){ bool t3=false; char*p=(char*)malloc(z+1); memset(p,0,z+1); try{ CBufferQueue q3; q3.create(p,z);}catch(std::runtime_error&){t3=true;} free(p); REQUIRE(t3,"create accepts "<<z<<" bytes"); } }
    else if(coin(10)){ unsigned a=1u<<31, b=(1u<<31)+(coin()?0:below(20)); bool t=false; TRACE("push2 of 4 GiB");
      try{ q.push(huge(),a,huge(),b); }catch(std::runtime_error&){ t=true; } REQUIRE(t,"push of "<<a<<"+"<<b<<" bytes accepted"); }
  }
  while(!m.empty()){ std::vector<char> b(S); unsigned long n=S; REQUIRE(q.pop(&b[0],n),"lost message"); REQUIRE(std::string(&b[0],n)==m.front(),"final payload differs"); m.pop_front(); }
  unsigned long n=S; std::vector<char> b(S); REQUIRE(!q.pop(&b[0],n)&&q.empty()&&q.size()==0,"ring not empty at the end");
  free(raw);
}
