// SOURCES: src/CThread.cpp
#include <stdint.h>
#include <stddef.h>
#include <deque>
#include <queue>
#include <string>
#include "fz.h"
#include "locks.h"
#define private public
#define protected public
#include "CThread.h"
#include "CTask.h"
#include "../src/CTask.cpp"
#undef private
#undef protected
using namespace fz;
struct X{ int t; uint64_t d; bool operator==(const X&o)const{ return t==o.t&&d==o.d; } };
static std::deque<X> M,taken; static lce::CTask*Q; static lce::CTask::CTaskThread*TH; static int what,done; static X cur; static uint64_t n; static int left_;
static bool off(){ return !Q||std::uncaught_exception(); }
static std::deque<X> view(){ std::deque<X> r; std::queue<lce::CTask::STaskInfo> q=Q->m_queTaskQueue; while(!q.empty()){ X x={q.front().iTaskType,(uint64_t)q.front().pData}; r.push_back(x); q.pop(); } return r; }
static int disp(bool nested){ X x={(int)rnd(),rnd()}; int w=what,d=done; X c=cur; what=1; done=0; cur=x; size_t sz=M.size(); unsigned wk=lk::wakes+lk::sigs; int r=Q->dispatch(x.t,(void*)x.d);
  REQUIRE(lk::owner==0,"dispatch returned with the lock held"); REQUIRE(r==(done?0:-1),"dispatch returns "<<r<<" and queued "<<done); if(nested) REQUIRE((r==0)==(sz<=(size_t)(long)Q->m_iMaxSize),"dispatch with "<<sz<<" queued and limit "<<Q->m_iMaxSize<<" returns "<<r);
  if(r==0) REQUIRE((unsigned)(lk::wakes+lk::sigs)>wk,"dispatch wakes no worker"); what=w; done=d; cur=c; return r; }
namespace lk{
static void released(){ if(off()) return; std::deque<X> v=view(); if(v==M) return; 
  if(what==1){ REQUIRE(!done,"two tasks queued by one dispatch"); done=1; M.push_back(cur); REQUIRE(v==M,"dispatch did not append its task"); }
  else if(what==2){ REQUIRE(!M.empty(),""); REQUIRE(taken.empty(),"a second task is taken before the first was handled"); taken.push_back(M.front()); M.pop_front(); REQUIRE(v==M,"a worker did not take the oldest task"); }
  else REQUIRE(false,"the queue changed"); }
static void other(bool waiting){ if(off()) return; int s=self; self=3; unsigned k=below(3); if(what==2){ if(left_<=0){ TH->m_iStop=1; k=0; } else --left_; if(waiting&&waits>1000){ TH->m_iStop=1; REQUIRE(M.empty(),"a worker waits although tasks are queued"); } } for(unsigned i=0;i<k;++i) disp(true); self=s; }
}
struct W: lce::CTask{ void onWork(int t,void*d,int i){ REQUIRE(lk::owner==0,"a task is handled with the lock held"); REQUIRE(!taken.empty(),"a task is handled that was not taken from the queue"); X x=taken.front(); taken.pop_front(); REQUIRE(x.t==t&&x.d==(uint64_t)d,"a task is handled with another type or data"); REQUIRE(i==m_idx,"index"); ++n; if(coin(3)) disp(true); } int m_idx; };

void fz_case(){
  Q=0; lk::reset(); M.clear(); taken.clear(); n=0; what=0; W*q=new W; int lim=coin(20)?-1:(int)pick(0,6); q->init(0,lim); Q=q; unsigned k=below(20); left_=0; lk::wakes=0;
  for(unsigned i=0;i<k;++i){ size_t b=M.size(); lk::nested=coin(); bool solo=lk::nested; int r=disp(solo); lk::nested=false; TRACE("dispatch "<<r<<" at "<<b<<" of "<<lim); REQUIRE(view()==M,""); }
  lce::CTask::CTaskThread th; TH=&th; q->m_idx=below(9); th.init(q,q->m_idx); what=2; left_=below(60); lk::waits=0; TRACE("run"); th.run(); REQUIRE(taken.empty(),"a task was taken and not handled"); REQUIRE(lk::owner==0,"the worker ended with the lock held"); REQUIRE(view()==M,"");
  Q=0; delete q;
}
