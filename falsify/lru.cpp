// SOURCES: src/Utils.cpp
#include <sys/types.h>
#include <time.h>
#include <list>
#include <map>
#include <set>
#include <iostream>
#include <unordered_map>
#include <new>
#include "fz.h"
using namespace fz;
namespace lr{ static time_t now; static time_t f_time(time_t*p){ if(p) *p=now; return now; } static int held; static bool on; static int lock(){ REQUIRE(!held,"the lock is taken twice"); held=1; return 0; } static int unlock(){ held=0; return 0; } }
#define time(p) lr::f_time(p)
#define pthread_mutex_lock(m) lr::lock()
#define pthread_mutex_unlock(m) lr::unlock()
#define private public
#include "CLruCache.h"
#undef private
struct Key{ uint64_t k; Key(uint64_t x=0):k(x){} bool operator==(const Key&o)const{ if(lr::on) REQUIRE(lr::held,"keys compared without the lock"); return k==o.k; } };
namespace std{ template<>struct hash<Key>{ size_t operator()(const Key&k)const{ if(lr::on) REQUIRE(lr::held,"the index is used without the lock"); return k.k%7; } }; }
struct Ent{ uint64_t v; uint32_t ct,ex; };
// reference: most recent first
template<class K>struct Model{ size_t max; std::list<K> order; std::map<K,Ent> m; 
  void touch(const K&k){ order.remove(k); order.push_front(k); }
  void set(const K&k,uint64_t v,uint32_t ex){ if(m.size()>max) for(int i=0;i<50&&!order.empty();++i){ m.erase(order.back()); order.pop_back(); } Ent e={v,(uint32_t)lr::now,ex}; m[k]=e; touch(k); }
  bool get(const K&k,uint64_t&v){ typename std::map<K,Ent>::iterator i=m.find(k); if(i==m.end()) return false; if(i->second.ex&&(uint64_t)lr::now-i->second.ct>i->second.ex){ m.erase(i); order.remove(k); return false; } v=i->second.v; touch(k); return true; }
  void del(const K&k){ m.erase(k); order.remove(k); } void clear(){ m.clear(); order.clear(); } };
typedef lce::CLruCache<Key,uint64_t> L;
static void shape(L&c,Model<uint64_t>&m){ REQUIRE(c.m_mapCache.size()==m.m.size(),"index holds "<<c.m_mapCache.size()<<" entries instead of "<<m.m.size()); std::list<uint64_t>::iterator i=m.order.begin(); const void*prev=0; size_t n=0; lr::on=false;
  for(L::MAP_CACHE::iterator j=c.m_mapCache.begin();j!=c.m_mapCache.end();++j) REQUIRE(m.m.count(j->first.k)&&j->second->key.k==j->first.k,"index entry "<<j->first.k);
  for(auto*p=c.pstHead;p;prev=p,p=p->next,++i,++n){ REQUIRE(i!=m.order.end(),"the list is longer than the index"); REQUIRE(p->key.k==*i,"list position "<<n<<" holds key "<<p->key.k<<" instead of "<<*i); REQUIRE((const void*)p->prev==prev,"back link at "<<n); REQUIRE(c.m_mapCache.count(p->key)&&c.m_mapCache[p->key]==p,"index of key "<<*i); REQUIRE(p->data==m.m[*i].v,"value of "<<*i); }
  REQUIRE(i==m.order.end()&&(const void*)c.pstTail==prev,"the list is shorter than the index: "<<n); lr::on=true; }
static uint32_t life(){ return coin()?0:coin(8)?~0u-below(3):below(40); }
static void one(){
  size_t max=coin(3)?below(4):coin()?below(70):coin(3)?10000:50+below(20); lr::on=lr::held=0; L*c=new L(max); Model<uint64_t> m; m.max=max; lr::now=coin(4)?below(100):1+below(4000000000u); lr::on=true; REQUIRE(c->getMaxSize()==max,"getMaxSize"); uint64_t kr=coin()?5:coin()?max+60:2*max+3; unsigned n=coin(4)?600:1+below(max<100?2*max+120:200);
  for(unsigned i=0;i<n;++i){ uint64_t k=below(kr),v=word(); unsigned op=below(16); 
    if(coin(6)) lr::now+=below(45);
    if(coin(20)&&m.m.size()){ std::map<uint64_t,Ent>::iterator j=m.m.begin(); if(j->second.ex&&j->second.ex<50){ k=j->first; time_t t=j->second.ct+j->second.ex+below(2); if(t>=lr::now) lr::now=t; op=10; } }
    if(op<9){ uint32_t ex=life(); TRACE("set "<<k<<" life "<<ex<<" at "<<lr::now); bool r=c->set(Key(k),v,ex); REQUIRE(r,"set returns false"); m.set(k,v,ex); }
    else if(op<13){ uint64_t a=77,b=77; TRACE("get "<<k<<" at "<<lr::now); bool r=c->get(Key(k),a),q=m.get(k,b); REQUIRE(r==q,"get "<<k<<" returns "<<r); if(r) REQUIRE(a==b,"get "<<k<<" yields "<<a<<" instead of "<<b); }
    else if(op<15){ TRACE("del "<<k); c->del(Key(k)); m.del(k); }
    else if(coin(30)){ TRACE("clear"); c->clear(); m.clear(); }
    REQUIRE(!lr::held,"the lock is still held"); REQUIRE(c->getSize()==m.m.size(),"size "<<c->getSize()<<" instead of "<<m.m.size()); if(coin(12)||i+1==n) shape(*c,m); }
  lr::on=false; delete c; }
static void sharded(){
  typedef lce::CLruCacheV2<std::string,uint64_t> V; size_t max=coin()?below(100):below(3000); lr::on=lr::held=0; V*c=new V(max); std::vector<Model<std::string> > m(32); size_t tot=0; for(int i=0;i<32;++i){ m[i].max=max/32+(i==31?max%32:0); tot+=m[i].max; } REQUIRE(c->getMaxSize()==max,"getMaxSize"); lr::now=1000+below(100000); uint64_t kr=1+below(max*2+40); unsigned n=below(max*3+100);
  for(unsigned i=0;i<n;++i){ std::ostringstream o; o<<"k"<<below(kr); std::string k=o.str(); Model<std::string>&s=m[lce::Hash(k)%32]; unsigned op=below(16); if(coin(6)) lr::now+=below(45); uint64_t v=word();
    if(op<9){ uint32_t ex=life(); TRACE("set "<<k); REQUIRE(c->set(k,v,ex),""); s.set(k,v,ex); } else if(op<14){ uint64_t a=77,b=77; TRACE("get "<<k); bool r=c->get(k,a),q=s.get(k,b); REQUIRE(r==q,"get "<<k<<" returns "<<r); if(r) REQUIRE(a==b,"get "<<k<<" yields "<<a<<" instead of "<<b); } else if(op<15){ TRACE("del "<<k); c->del(k); s.del(k); } else if(coin(40)){ TRACE("clear"); c->clear(); for(int j=0;j<32;++j) m[j].clear(); }
    if(coin(10)||i+1==n){ size_t z=0; for(int j=0;j<32;++j) z+=m[j].m.size(); REQUIRE(c->getSize()==z,"size "<<c->getSize()<<" instead of "<<z); } }
  delete c; }
void fz_case(){ if(coin(4)) sharded(); else one(); }
