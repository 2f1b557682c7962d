#include <stdint.h>
#include <stddef.h>
#include "CCircleQueue.h"
#include "fz.h"
#include <deque>
#include <pthread.h>
using namespace fz;
struct E{ uint64_t a[5]; E(){memset(a,0,40);} };
static lce::CCircleQueue<E>*Q; static uint64_t N;
static void*prod(void*){ for(uint64_t i=0;i<N;){ E e; for(int k=0;k<5;++k) e.a[k]=i; if(Q->enque(e)) ++i; else sched_yield(); } return 0; }
void fz_case(){
  uint32_t cap=coin(6)?0:pick(1,60); lce::CCircleQueue<E> q; q.init(cap); if(!cap) cap=1000; std::deque<uint64_t> m; uint64_t nx=rnd(); TRACE("cap "<<cap);
  if(coin(60)){ Q=&q; N=20000; pthread_t t; pthread_create(&t,0,prod,0); uint64_t i=0; E e; while(i<N){ if(q.deque(e)){ for(int k=0;k<5;++k) REQUIRE(e.a[k]==i,"two threads: element "<<i<<" word "<<k<<" is "<<e.a[k]); ++i; } else sched_yield(); } pthread_join(t,0); REQUIRE(q.empty(),""); return; }
  unsigned n=1+below(cap==1000?4000:300); unsigned bias=1+below(9);
  for(unsigned i=0;i<n;++i){
    REQUIRE(q.empty()==m.empty(),"empty with "<<m.size()); REQUIRE(q.full()==(m.size()==cap),"full with "<<m.size()<<" of "<<cap);
    if(below(10)<bias){ E e; for(int k=0;k<5;++k) e.a[k]=nx+k; bool r=q.enque(e); TRACE("enque "<<r); REQUIRE(r==(m.size()<cap),"enque with "<<m.size()<<" of "<<cap); if(r) m.push_back(nx); ++nx; }
    else{ E e; e.a[0]=77; bool r=q.deque(e); TRACE("deque "<<r); REQUIRE(r==!m.empty(),"deque with "<<m.size()); if(r){ for(int k=0;k<5;++k) REQUIRE(e.a[k]==m.front()+k,"element differs"); m.pop_front(); } else REQUIRE(e.a[0]==77,"argument changed"); }
  }
}
