#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <arpa/inet.h>
#include "CPackageFilter.h"
#include "CH2ShortT3PackageFilter.h"
#include "CH2T3PackageFilter.h"
#include "CRawPackageFilter.h"
#include "fz.h"
using namespace fz;
void fz_case(){
  lce::CH2ShortT3PackageFilter x; lce::CH2T3PackageFilter y; lce::CRawPackageFilter z; unsigned k=below(3); lce::CPackageFilter*f=k==0?(lce::CPackageFilter*)&x:k==1?(lce::CPackageFilter*)&y:(lce::CPackageFilter*)&z; unsigned w=k==0?2:k==1?4:0, ov=w+2;
  unsigned pay=coin(4)?pick(0,66000):below(40); if(k==0&&pay>65531) pay=65531; std::string s;
  if(k<2){ uint64_t L=pay+ov; if(coin(5)) L+=(int)below(9)-4; if(coin(8)) L=below(8); if(coin(12)) L=word(); if(coin(6)) L=pick(0x7ffffff0u,0x80000010u); s+=char(coin(8)?(int)below(6):2); for(int i=w-1;i>=0;--i) s+=char(L>>(8*i)); s+=bytes(pay); s+=char(coin(6)?(int)below(6):3); }
  else s=bytes(pay);
  if(coin(3)) s+=bytes(below(20)); if(coin(3)) s.resize(below(s.size()+1)); if(coin(4)) s.resize(below(ov+2)<s.size()?below(ov+2):s.size());
  int n=s.size(); char*p=(char*)malloc(n?n:1); memcpy(p,s.data(),n); int real=-77,pkg=-77; int arg=coin(40)?-(int)below(3):n; if(arg<=0) n=0; TRACE("filter "<<k<<" size "<<arg<<" bytes "<<hex(s.substr(0,12)));
  int r=f->isWholePkg(p,arg,real,pkg); int want=-1; uint64_t L=0;
  if(k==2) want=n>0?0:-1, L=n; else if(n>0){ const unsigned char*u=(const unsigned char*)p; for(unsigned i=0;i<w&&1+i<(unsigned)n;++i) L=L<<8|u[1+i];
    if(u[0]!=2) want=-2; else if(n<(int)ov) want=-1; else if(L<ov||L>0x7fffffff) want=-2; else if(L>(uint64_t)n) want=-1; else want=u[L-1]==3?0:-2; }
  REQUIRE(r==want,"isWholePkg returned "<<r<<" want "<<want<<" declared "<<L<<" of "<<n);
  if(r==0){ REQUIRE(pkg==(int)L,"total "<<pkg<<" want "<<L); REQUIRE(real==(int)(L-(k==2?0:ov)),"payload length "<<real); REQUIRE(f->getRealPkgData(p,n)==p+(k==2?0:w+1),"payload position"); }
  REQUIRE(!memcmp(p,s.data(),n),"bytes changed"); free(p);
}
