// Instantiates the class under contract; contains no logic.
#include "CBufferQueue.h"
using lce::CBufferQueue;
template<class T> struct keep{ static volatile T v; };
extern "C" void lv_roots(CBufferQueue&q,char*a,unsigned long&n,char*b,unsigned long&m,const char*c){
  q.attach(a,n); q.create(a,n); q.pop(a,n); q.push(c,n); q.pop(a,n,b,m); q.push(c,(unsigned)n,c,(unsigned)m); q.empty(); q.full(n); q.size();
}
