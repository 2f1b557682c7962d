#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include "CBitMap.h"
#include "fz.h"
#include "shmstub.h"
using namespace fz;
template<int W,class T> void go(){
  unsigned long n=pick(1,coin()?40:400); int key=1+below(100); bool bad=coin(12); { lce::CBitmap<W> b;
  if(bad){ if(coin()) shmstub::failget=1+below(2); else shmstub::failat=1; }
  bool r=b.init(key,n); TRACE("width "<<W<<" cells "<<n<<" init "<<r); if(!r){ REQUIRE(bad,"init fails"); return; } shmstub::failget=shmstub::failat=0;
  REQUIRE(b.size()==n,""); std::vector<unsigned> m(n,0); lce::CBitmap<W> b2; bool two=false; lce::CBitmap<W>*q=&b; if(coin(4)){ REQUIRE(b2.init(key,n,coin()),"attach"); two=true; REQUIRE(b2.size()==n,""); }
  for(unsigned k=0;k<n;++k) REQUIRE((unsigned)b.get(k)==0,"new cell "<<k);
  unsigned ops=1+below(80);
  for(unsigned o=0;o<ops;++o){ unsigned long i=coin(10)?n+(coin()?0:below(20)):below(n); if(coin(40)) i=~0UL-below(3); unsigned v=coin(3)?(1u<<W)-1:below(1u<<W);
    if(coin(40)){ b.clear(); for(auto&x:m) x=0; TRACE("clear"); }
    bool r=q->set(i,(T)v); TRACE("set "<<i<<"="<<v); REQUIRE(r==(i<n),"set("<<i<<") returned "<<r); if(i<n) m[i]=v; else REQUIRE(!q->get(i),"get beyond the size");
    if(two&&coin()) q=q==&b?&b2:&b;
    for(unsigned k=0;k<n;++k) REQUIRE((unsigned)b.get(k)==m[k],"cell "<<k<<" is "<<(unsigned)b.get(k)<<" want "<<m[k]);
  } }
}
void fz_case(){ shmstub::reset(); switch(below(7)){ case 0: go<1,bool>(); break; case 1: go<2,unsigned char>(); break; case 2: go<3,unsigned char>(); break; case 3: go<4,unsigned char>(); break; case 4: go<5,unsigned char>(); break; case 5: go<6,unsigned char>(); break; default: go<8,unsigned char>(); } }
