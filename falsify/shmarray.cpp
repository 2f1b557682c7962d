#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include "CShmArray.h"
#include "fz.h"
#include "shmstub.h"
using namespace fz;
template<class T> void go(){
  unsigned long n=pick(1,200); int key=1+below(50); lce::CShmArray<T> a; TRACE("elements of "<<sizeof(T)<<" n="<<n); REQUIRE(a.init(key,n),"init"); REQUIRE(a.size()==n,"size "<<a.size());
  lce::CShmArray<T> b; bool two=coin(); if(two){ REQUIRE(b.init(key,n,coin()),"attach"); REQUIRE(b.size()==n,"attached size "<<b.size()); }
  std::vector<std::string> m(n,std::string(sizeof(T),0)); const lce::CShmArray<T>&ca=a;
  for(unsigned o=0;o<60;++o){ unsigned long i=pick(0,n-1); std::string s=bytes(sizeof(T)); T*p=two&&coin()?&b[i]:&a[i]; memcpy((void*)p,s.data(),sizeof(T)); m[i]=s; TRACE("write "<<i);
    REQUIRE(a.size()==n,"size after write"); if(two) REQUIRE(b.size()==n,"size after write");
    for(unsigned k=0;k<n;++k){ REQUIRE(!memcmp((void*)&a[k],m[k].data(),sizeof(T)),"element "<<k); REQUIRE(&ca[k]==&a[k],"const access"); if(two) REQUIRE(!memcmp((void*)&b[k],m[k].data(),sizeof(T)),"attached element "<<k); } }
  if(two){ lce::CShmArray<T> c; REQUIRE(c.init(key,n),"third attach"); REQUIRE(c.size()==n,""); for(unsigned k=0;k<n;++k) REQUIRE(!memcmp((void*)&c[k],m[k].data(),sizeof(T)),"third: element "<<k); }
}
struct A{char b[24];}; struct B{ char c; }; struct D{ double d; int x; }; struct F{ char b[7]; };
void fz_case(){ shmstub::reset(); switch(below(4)){ case 0: go<A>(); break; case 1: go<B>(); break; case 2: go<D>(); break; default: go<F>(); } }
