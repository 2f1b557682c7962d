#include <stdint.h>
#include <stddef.h>
#include <deque>
#include "fz.h"
#include "locks.h"
struct E{ uint64_t a,b; E():a(0),b(0){} E(uint64_t x):a(x),b(~x){} E&operator=(const E&o){ lk::mine("an element is copied"); a=o.a; b=o.b; return *this; } };
#define private public
#include "CBlockQueue.h"
#undef private
using namespace fz;
static lce::CBlockQueue<E>*Q; static std::deque<uint64_t> M; static uint64_t nx; static int what,done; static uint64_t val,got; static bool announce;
static std::deque<uint64_t> view(){ std::deque<uint64_t> r; REQUIRE(Q->m_dwSize>=0&&Q->m_dwSize<=Q->m_dwMaxSize,"size "<<Q->m_dwSize); for(int i=0;i<Q->m_dwSize;++i) r.push_back(Q->m_pData[((int64_t)Q->m_dwFront+1+i)%Q->m_dwMaxSize].a); return r; }
namespace lk{
static void released(){
  if(!Q||std::uncaught_exception()) return;
  std::deque<uint64_t> v=view(); if(v==M) return; REQUIRE(self==1,"another thread changed the queue unexpectedly"); REQUIRE(!done,"an operation changed the queue twice"); done=1;
  if(what==1){ M.push_back(val); REQUIRE(v==M&&(int)M.size()<=Q->m_dwMaxSize,"push did not append one element"); announce=true; }
  else if(what==2){ REQUIRE(!M.empty(),"pop of nothing"); got=M.front(); M.pop_front(); REQUIRE(v==M,"pop did not remove the oldest element"); announce=true; }
  else if(what==3){ M.clear(); REQUIRE(v==M,"clear"); } else REQUIRE(false,"an observer changed the queue"); }
static void one(bool grow){ E e; int w=what,d=done; 
  if(grow){ if((int)M.size()>=Q->m_dwMaxSize) return; what=1; done=0; val=++nx; uint64_t sv=val; REQUIRE(Q->push(E(sv)),"push"); }
  else { if(M.empty()) return; what=2; done=0; uint64_t f=M.front(); REQUIRE(Q->pop(e),"pop"); REQUIRE(e.a==f&&e.b==~f,"pop yields "<<e.a<<" instead of "<<f); }
  what=w; done=d; }
static void other(bool waiting){ if(!Q||std::uncaught_exception()) return; uint64_t sv=val,sg=got; int w=what,d=done; self=1; // operations of others are checked with the same rules
  unsigned n=below(4); if(waiting&&waits>10){ if(d==0&&w==1) one(false); if(d==0&&w==2) one(true); } else for(unsigned i=0;i<n;++i) one(coin()); 
  self=2; val=sv; got=sg; what=w; done=d; }
}
#define N_ 2000
void fz_case(){
  Q=0; lk::reset(); M.clear(); nx=0; int cap=coin(8)?-(int)below(3):(int)pick(1,6); lce::CBlockQueue<E> q(cap); if(cap<=0) cap=1000; Q=&q; REQUIRE(q.max_size()==cap,""); lk::now_s=1000; 
  unsigned n=1+below(60);
  for(unsigned i=0;i<n;++i){
    lk::waits=0; lk::wakes=0; done=0; announce=false; lk::timed_out=false; E e(7); size_t sz=M.size(); int op=below(9); TRACE("op "<<op<<" size "<<sz<<"/"<<cap);
    switch(op){
    case 0: case 1: { what=1; val=++nx; uint64_t v=val; REQUIRE(q.push(E(v)),"push fails"); REQUIRE(done,"push returned without adding"); REQUIRE(lk::wakes>0,"push does not wake the waiters"); break; }
    case 2: case 3: { what=2; REQUIRE(q.pop(e),"pop fails"); REQUIRE(done,"pop returned without an element"); REQUIRE(e.a==got&&e.b==~got,"pop yields "<<e.a<<" instead of "<<got); REQUIRE(lk::wakes>0,"pop does not wake the waiters"); break; }
    case 4: { what=2; lk::now_us=pick(0,999999); int ms=(int)pick(0,coin()?5000:2000000000); lk::deadline.tv_sec=0; bool r=q.pop(e,ms);
      if(lk::deadline.tv_sec){ __int128 a=(__int128)(lk::deadline.tv_sec-lk::now_s)*1000000000+lk::deadline.tv_nsec-lk::now_us*1000; REQUIRE(a==(__int128)ms*1000000,"deadline of a timed pop of "<<ms<<" ms at usec "<<lk::now_us<<" is "<<(long)a<<" ns away"); }
      REQUIRE(r==(done!=0),"timed pop result"); if(r) REQUIRE(e.a==got&&e.b==~got,"timed pop yields "<<e.a<<" instead of "<<got); else REQUIRE(lk::timed_out,"timed pop fails before its time"); break; }
    case 5: what=3; q.clear(); REQUIRE(M.empty()||lk::waits||done||true,""); break;
    case 6: { what=0; std::deque<uint64_t> m=M; bool r=q.front(e); REQUIRE(r==!m.empty(),"front"); if(r) REQUIRE(e.a==m.front(),"front yields "<<e.a<<" instead of "<<m.front()); else REQUIRE(e.a==7,"front writes"); break; }
    case 7: { what=0; std::deque<uint64_t> m=M; bool r=q.back(e); REQUIRE(r==!m.empty(),"back"); if(r) REQUIRE(e.a==m.back(),"back yields "<<e.a<<" instead of "<<m.back()); else REQUIRE(e.a==7,"back writes"); break; }
    default: { what=0; size_t m=M.size(); REQUIRE(q.size()==(int)m,"size"); m=M.size(); REQUIRE(q.empty()==(m==0),"empty"); m=M.size(); REQUIRE(q.full()==((int)m==cap),"full"); }
    }
    REQUIRE(lk::owner==0,"the operation returned with the lock held"); REQUIRE(view()==M,"queue differs");
  }
  Q=0;
}
