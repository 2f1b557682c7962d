// Any-value encoding, decoding, accessors and the any-package against a plain reference value.
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <map>
#include <deque>
#include <vector>
#include <list>
#include <set>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <stdexcept>
#include <byteswap.h>
#include "fz.h"
#define private public
#include "CAnyValue.h"
#include "CAnyPackage.h"
#undef private
using namespace fz; using namespace lce; typedef CAnyValue A;
struct R{ int k; uint64_t w; std::string s; std::vector<R> v; std::map<std::string,R> m; R():k(DType::Null),w(0){} };
static std::string key(){ size_t n=pick(0,coin(6)?300:20); return bytes(n).substr(0,255); }
static int64_t edge(){ int b=below(64); int64_t v=(int64_t)(1ULL<<b); v+=(int64_t)below(5)-2; return coin()?v:-v; }
static R gen(int d){ R r; switch(below(d>0?9:7)){ case 0: break; case 1: r.k=DType::Bool; r.w=below(2); break; case 2: case 3: r.k=DType::Integer; r.w=coin()?word():(uint64_t)edge(); break; case 4: r.k=DType::SInteger; r.w=coin()?word():(uint64_t)edge(); break; case 5: r.k=DType::Float; r.w=word(); break;
  case 6: { r.k=DType::String; size_t n=coin(6)?pick(250,260):coin(60)?pick(65530,65540):pick(0,40); r.s=bytes(n); break; }
  case 7: { r.k=DType::Vector; size_t n=below(5); for(size_t i=0;i<n;++i) r.v.push_back(gen(d-1)); break; } case 8: { r.k=DType::Map; size_t n=below(5); for(size_t i=0;i<n;++i) r.m[key()]=gen(d-1); break; } } return r; }
static void build(A&a,const R&r){ a.clear(); switch(r.k){ case DType::Vector: a.initAsVector(); for(size_t i=0;i<r.v.size();++i){ A x; build(x,r.v[i]); a.m_value.vec->push_back(x); } break; case DType::Map: a.initAsMap(); for(std::map<std::string,R>::const_iterator i=r.m.begin();i!=r.m.end();++i) build((*a.m_value.map)[i->first],i->second); break;
  case DType::String: a.initAsBuf(); *a.m_value.buf=r.s; break; default: a.m_ucType=r.k; a.m_value.integer=r.w; } }
static void same(const A&a,const R&r,const char*w){ REQUIRE(a.m_ucType==r.k,w<<": type "<<(int)a.m_ucType<<" instead of "<<r.k); switch(r.k){ case DType::Vector: REQUIRE(a.m_value.vec->size()==r.v.size(),w<<": "<<a.m_value.vec->size()<<" elements instead of "<<r.v.size()); for(size_t i=0;i<r.v.size();++i) same((*a.m_value.vec)[i],r.v[i],w); break;
  case DType::Map: { REQUIRE(a.m_value.map->size()==r.m.size(),w<<": "<<a.m_value.map->size()<<" entries instead of "<<r.m.size()); for(std::map<std::string,R>::const_iterator i=r.m.begin();i!=r.m.end();++i){ A::MapType::const_iterator j=a.m_value.map->find(i->first); REQUIRE(j!=a.m_value.map->end(),w<<": key "<<hex(i->first)<<" lost"); same(j->second,i->second,w); } break; }
  case DType::String: REQUIRE(*a.m_value.buf==r.s,w<<": string "<<hex(*a.m_value.buf)<<" instead of "<<hex(r.s)); break; case DType::Null: break; default: REQUIRE(a.m_value.integer==r.w,w<<": value "<<a.m_value.integer<<" instead of "<<r.w); } }
static void valid(const A&a){ switch(a.m_ucType){ case DType::Vector: REQUIRE(a.m_value.vec,"vector without storage"); for(size_t i=0;i<a.m_value.vec->size();++i) valid((*a.m_value.vec)[i]); break; case DType::Map: REQUIRE(a.m_value.map,"map without storage"); for(A::MapType::const_iterator i=a.m_value.map->begin();i!=a.m_value.map->end();++i) valid(i->second); break; case DType::String: REQUIRE(a.m_value.buf,"string without storage"); (void)a.m_value.buf->size(); break;
  case DType::Integer: case DType::SInteger: case DType::Float: case DType::Bool: case DType::Null: break; default: REQUIRE(false,"value of type "<<(int)a.m_ucType); } }
static void be(std::string&o,uint64_t v,int n){ for(int i=n-1;i>=0;--i) o+=(char)(v>>(8*i)); }
static void ref(std::string&o,const R&r){ int64_t s=(int64_t)r.w; switch(r.k){ case DType::Null: o+=(char)12; break; case DType::Bool: o+=(char)11; o+=(char)r.w; break; case DType::Float: o+=(char)10; be(o,r.w,8); break;
  case DType::Integer: if(r.w<=0xff){ o+=(char)0; be(o,r.w,1); } else if(r.w<=0xffff){ o+=(char)1; be(o,r.w,2); } else if(r.w<=0xffffffffULL){ o+=(char)2; be(o,r.w,4); } else { o+=(char)3; be(o,r.w,8); } break;
  case DType::SInteger: if(s==(int8_t)s){ o+=(char)13; be(o,r.w,1); } else if(s==(int16_t)s){ o+=(char)14; be(o,r.w,2); } else if(s==(int32_t)s){ o+=(char)15; be(o,r.w,4); } else { o+=(char)16; be(o,r.w,8); } break;
  case DType::String: if(r.s.size()<=0xff){ o+=(char)4; be(o,r.s.size(),1); } else if(r.s.size()<=0xffff){ o+=(char)5; be(o,r.s.size(),2); } else { o+=(char)6; be(o,r.s.size(),4); } o+=r.s; break;
  case DType::Vector: o+=(char)7; be(o,r.v.size(),4); for(size_t i=0;i<r.v.size();++i) ref(o,r.v[i]); break; case DType::Map: o+=(char)8; be(o,r.m.size(),4); for(std::map<std::string,R>::const_iterator i=r.m.begin();i!=r.m.end();++i){ be(o,i->first.size(),1); o+=i->first; ref(o,i->second); } } }
struct Buf{ char*p; size_t n; Buf(const std::string&s):p((char*)malloc(s.size()?s.size():1)),n(s.size()){ memcpy(p,s.data(),n); if(!n) p=p; } ~Buf(){ free(p); } };
static void roundtrip(){ R r=gen(3); A a; build(a,r); std::string pre=bytes(below(8)),t=pre,e; ref(e,r); a.encode(t); TRACE("value "<<hex(e)); REQUIRE(t==pre+e,"encoding is "<<hex(t.substr(std::min(t.size(),pre.size())))<<" instead of "<<hex(e)); same(a,r,"encoding changes the value"); REQUIRE(a.encode()==e,"encode() differs from encode(string)");
  R o=gen(1); A b; build(b,o); std::string all=t+bytes(below(6)); Buf z(all); size_t p=pre.size(); b.decode(p,z.p,z.n); REQUIRE(p==t.size(),"decoding consumed "<<p-pre.size()<<" of "<<e.size()<<" bytes"); same(b,r,"decoded"); Buf y(e); A c; build(c,o); if(coin()) c.decode(y.p,y.n); else c.decode((const unsigned char*)y.p,y.n); same(c,r,"decoded"); }
static void wild(){ std::string e; if(coin(400)){ size_t n=pick(1,300000); for(size_t i=0;i<n;++i){ e+=(char)(coin()?7:7); be(e,1,4); } TRACE("nest "<<n); } else if(coin(3)){ e=bytes(below(40)); if(!e.empty()) e[0]=(char)below(19); } else { ref(e,gen(3)); for(int i=below(4);i>0&&!e.empty();--i) switch(below(4)){ case 0: e[below(e.size())]=(char)rnd(); break; case 1: e.erase(below(e.size())); break; case 2: e[below(std::min<size_t>(e.size(),9))]=(char)below(19); break; case 3: { size_t q=below(e.size()); std::string f=e.substr(q,below(20)); e.insert(below(e.size()),f); } } }
  TRACE("input "<<hex(e)); Buf z(e); A b; build(b,gen(1)); size_t p=0; try{ b.decode(p,z.p,z.n); REQUIRE(p>0&&p<=z.n,"position "<<p<<" of "<<z.n); unsigned char t=e[0]; size_t h=t==0||t==11||t==13||t==4?1:t==1||t==14||t==5?2:t==2||t==15||t==6||t==7||t==8?4:t==3||t==16||t==10?8:0; REQUIRE(z.n>=1+h,"type "<<(int)t<<" decoded from "<<z.n<<" bytes"); }
  catch(std::runtime_error&){ } catch(std::bad_alloc&){ } REQUIRE(p<=z.n,"position "<<p<<" of "<<z.n); valid(b); }
#define THROWS(x) do{ bool t_=false; try{ x; }catch(std::runtime_error&){ t_=true; } REQUIRE(t_,#x " does not throw on type "<<r.k); same(a,r,#x " on another type"); }while(0)
template<class T> static void num(T x){ A a(x); REQUIRE((T)a==x,"converts back to another value"); REQUIRE((unsigned long long)a==(unsigned long long)x&&a.asInt64()==(int64_t)x&&a.asUInt64()==(uint64_t)x&&a.asInt()==(int)x&&a.asUInt()==(uint32_t)x&&a.asBool()==(x!=0),"numeric conversion of "<<(long long)x); bool neg=x<0; REQUIRE(a.m_ucType==(neg?DType::SInteger:DType::Integer),"type of "<<(long long)x); REQUIRE((double)a==0.0&&a.asString().empty()&&a.size()==0&&!a.data(),"other conversions of a number"); }
static void conv(){ switch(below(13)){ case 0: num((char)word()); break; case 1: num((unsigned char)word()); break; case 2: num((short)word()); break; case 3: num((unsigned short)word()); break; case 4: num((int)word()); break; case 5: num((unsigned)word()); break; case 6: num((long)word()); break; case 7: num((unsigned long)word()); break; case 8: num((long long)word()); break; case 9: num((unsigned long long)word()); break;
  case 10: { bool b=coin(); A a(b); REQUIRE(a.isBool()&&(bool)a==b&&(int)a==(int)b,"bool"); break; } case 11: { double d; uint64_t w=word(); memcpy(&d,&w,8); A a(d); double g=a; REQUIRE(a.isFloat()&&!memcmp(&g,&d,8),"double"); REQUIRE((int)a==0&&a.asInt64()==0&&!(bool)a,"a float is no integer"); float f=(float)((int64_t)word()); A b(f); REQUIRE((double)b==(double)f,"float"); break; }
  case 12: { std::string s=bytes(below(40)); A a(s); REQUIRE(a.isString()&&a.asString()==s&&(std::string)a==s&&a.size()==s.size()&&std::string(a.data(),a.size())==s,"string"); A b(s.c_str()); REQUIRE(b.asString()==std::string(s.c_str()),"C string"); REQUIRE((int)a==0&&(double)a==0.0,"a string is no number"); } } }
static void ops(){ R r=gen(2); A a; build(a,r); TRACE("type "<<r.k); const A&c=a; for(int i=below(12);i>=0;--i){ static const size_t LK[]={128,254,255,256,257,300}; std::string k=coin(6)?bytes(pick(250,300)):std::string(coin()?LK[below(6)]:1,(char)('a'+below(coin()?1:4))),t=k.substr(0,255); std::string z=k.c_str(); std::string zt=z.substr(0,255); R x=gen(1); A xa; build(xa,x); bool mapok=r.k==DType::Map||r.k==DType::Null,vecok=r.k==DType::Vector||r.k==DType::Null; int o=below(14); TRACE("op "<<o);
  switch(o){ case 0: if(mapok){ a.insert(k,xa); r.k=DType::Map; r.m[t]=x; } else THROWS(a.insert(k,xa)); break; case 1: if(mapok){ a[k]=xa; r.k=DType::Map; r.m[t]=x; } else THROWS(a[k]); break; case 2: if(mapok){ a[z.c_str()]=xa; r.k=DType::Map; r.m[zt]=x; } else THROWS(a[z.c_str()]); break;
  case 3: { const A&g=c[k]; if(r.k==DType::Map&&r.m.count(t)) same(g,r.m[t],"lookup"); else REQUIRE(g.isHasData()==false&&g.m_ucType==DType::Null,"lookup of a missing key"); break; } case 4: { const A&g=c[z.c_str()]; if(r.k==DType::Map&&r.m.count(zt)) same(g,r.m[zt],"lookup"); else REQUIRE(g.m_ucType==DType::Null,"lookup of a missing key"); break; }
  case 5: REQUIRE(c.hasKey(k)==(r.k==DType::Map&&r.m.count(t)),"hasKey"); break; case 6: a.erase(k); if(r.k==DType::Map) r.m.erase(t); break; case 7: if(vecok){ a.push_back(xa); r.k=DType::Vector; r.v.push_back(x); } else THROWS(a.push_back(xa)); break; case 8: if(vecok){ a.push_front(xa); r.k=DType::Vector; r.v.insert(r.v.begin(),x); } else THROWS(a.push_front(xa)); break;
  case 9: case 10: { bool f=o==9; if(r.k==DType::Vector&&!r.v.empty()){ if(f){ a.pop_front(); r.v.erase(r.v.begin()); } else { a.pop_back(); r.v.pop_back(); } } else { bool th=false; try{ if(f) a.pop_front(); else a.pop_back(); }catch(std::runtime_error&){ th=true; } REQUIRE(th,"pop on nothing does not throw"); if(r.k==DType::Null&&a.m_ucType==DType::Vector) r.k=DType::Vector; } break; }
  case 11: { int ix=coin(3)?-(int)below(4)-1:(int)below(6); if(r.k==DType::Vector&&ix>=0&&ix<(int)r.v.size()){ same(a[ix],r.v[ix],"index"); same(c[ix],r.v[ix],"index"); } else { THROWS(a[ix]); THROWS(c[ix]); } break; }
  case 12: { A b(a); same(b,r,"copy"); A d; build(d,gen(1)); d=a; same(d,r,"assignment"); a=a; if(coin()) b.clear(); else b=xa; same(a,r,"the original of a copy"); same(d,r,"the other copy"); break; }
  case 13: { if(r.k==DType::Vector&&!r.v.empty()){ size_t ix=below(r.v.size()); R y=r.v[ix]; a=a[(int)ix]; r=y; } else if(r.k==DType::Map&&!r.m.empty()){ std::string q=r.m.begin()->first; R y=r.m.begin()->second; a=(const A&)a[q]; r=y; } } }
  same(a,r,"after the operation"); REQUIRE(a.isObject()==(r.k==DType::Map)&&a.isArray()==(r.k==DType::Vector)&&a.isString()==(r.k==DType::String)&&a.isBool()==(r.k==DType::Bool)&&a.isNull()==(r.k==DType::Null)&&a.isUInt()==(r.k==DType::Integer)&&a.isInt()==(r.k==DType::SInteger)&&a.isFloat()==(r.k==DType::Float),"type report"); 
  if(r.k==DType::Map){ std::vector<std::string> ks=c.keys(); REQUIRE(ks.size()==r.m.size(),"keys"); size_t n=0; for(std::map<std::string,R>::iterator i=r.m.begin();i!=r.m.end();++i) REQUIRE(ks[n++]==i->first,"keys"); } else REQUIRE(c.keys().empty(),"keys of another type"); } }
static void pack(){ AnyHeader h; uint64_t v[11]; for(int i=0;i<11;++i) v[i]=word(); for(int i=below(30);i>=0;--i){ int f=below(11); v[f]=word(); }
  int off[]={0,1,5,7,11,15,19,23,31,35,39,43}; unsigned char im[43]; memset(im,0,43); im[0]=2; REQUIRE(sizeof(AnyHeader)==43,"header size"); REQUIRE(!memcmp(&h,im,43),"new header");
  for(int i=below(30);i>=0;--i){ int f=below(11); uint64_t x=word(); switch(f){ case 0: h.setStx(x); break; case 1: h.setLen(x); break; case 2: h.setVersion(x); break; case 3: h.setServiceId(x); break; case 4: h.setCmd(x); break; case 5: h.setSeq(x); break; case 6: h.setFormat(x); break; case 7: h.setUid(x); break; case 8: h.setClientIp(x); break; case 9: h.setErrno(x); break; case 10: h.setFlag(x); break; }
    int n=off[f+1]-off[f]; for(int b=0;b<n;++b) im[off[f]+b]=(unsigned char)(x>>(8*(n-1-b))); uint64_t m=n==8?~0ULL:(1ULL<<(8*n))-1,g=0; switch(f){ case 0: g=h.getStx(); break; case 1: g=h.getLen(); break; case 2: g=h.getVersion(); break; case 3: g=h.getServiceId(); break; case 4: g=h.getCmd(); break; case 5: g=h.getSeq(); break; case 6: g=h.getFormat(); break; case 7: g=h.getUid(); break; case 8: g=h.getClientIp(); break; case 9: g=h.getErrno(); break; case 10: g=h.getFlag(); break; } REQUIRE(g==(x&m),"field "<<f<<" reads "<<g<<" instead of "<<(x&m)); REQUIRE(!memcmp(&h,im,43),"field "<<f<<" is not at its place in network order"); }
  CAnyPackage p; R r=gen(2); A a; build(a,r); if(coin()) p.setHead(h),p.setRoot(a); else p.setRoot(a),p.setHead(h); p.encode(); std::string e; ref(e,r); std::string all((char*)im,43); all+=e; REQUIRE(std::string(p.data(),p.size())==all,"encoded package"); REQUIRE(std::string(p.getBodyData(),p.getBodySize())==e,"body"); unsigned char etx=rnd(); bool x=coin(); if(x) p.setEtx(etx); REQUIRE(std::string(p.data(),p.size())==(x?all+(char)etx:all),"end mark");
  Buf z(std::string(p.data(),p.size())); CAnyPackage q; A old; build(old,gen(1)); q.setRoot(old); if(coin()) q.decode(z.p,z.n); else q.decode((const unsigned char*)z.p,z.n); REQUIRE(!memcmp(&q.head(),im,43),"decoded header"); same(q.getRoot(),r,"decoded body");
  size_t k=below(z.n+1); Buf s(std::string(z.p,k)); try{ q.decode(s.p,s.n); REQUIRE(k>=43,"a package of "<<k<<" bytes was accepted"); if(k==43) REQUIRE(q.getRoot().isNull(),"root of an empty body"); }catch(std::runtime_error&){ }
  std::string bd=bytes(below(50)); q.setBodyData(bd.data(),bd.size()); REQUIRE(std::string(q.getBodyData(),q.getBodySize())==bd,"setBodyData"); q.clear(); REQUIRE(q.getBodySize()==0&&q.getRoot().isNull(),"clear"); }
// ---------------------------------------------------------------- JSON
static void jsonable(R&r){ if(r.k==DType::Float){ double d; do{ if(coin()) r.w=word(); else { double t=(double)edge()/(double)(1+below(1000)); memcpy(&r.w,&t,8); } memcpy(&d,&r.w,8); }while(!(d-d==0)); } if(r.k==DType::SInteger&&(int64_t)r.w>=0) r.w=(uint64_t)(-(int64_t)(r.w>>1)-1); for(size_t i=0;i<r.v.size();++i) jsonable(r.v[i]); for(std::map<std::string,R>::iterator i=r.m.begin();i!=r.m.end();++i) jsonable(i->second); }
static void ws(std::string&o){ if(coin(4)){ static const char W[]=" \t\r\n"; for(int i=below(4);i>0;--i) o+=W[below(4)]; } }
static void jstr(std::string&o,const std::string&s){ o+='"'; for(size_t i=0;i<s.size();++i){ unsigned char c=s[i]; char b[8]; if(c<0x80&&coin(12)){ snprintf(b,8,coin()?"\\u%04x":"\\u%04X",c); o+=b; } else switch(c){ case '"': o+="\\\""; break; case '\\': o+="\\\\"; break; case '\b': o+="\\b"; break; case '\f': o+="\\f"; break; case '\n': o+="\\n"; break; case '\r': o+="\\r"; break; case '\t': o+="\\t"; break; case '/': o+=coin()?"\\/":"/"; break; default: if(c<0x20){ snprintf(b,8,"\\u%04x",c); o+=b; } else o+=(char)c; } } o+='"'; }
static void jtext(std::string&o,const R&r){ char b[64]; ws(o); switch(r.k){ case DType::Null: o+="null"; break; case DType::Bool: o+=r.w?"true":"false"; break; case DType::Integer: snprintf(b,64,"%llu",(unsigned long long)r.w); o+=b; break; case DType::SInteger: snprintf(b,64,"%lld",(long long)r.w); o+=b; break; case DType::Float: { double d; memcpy(&d,&r.w,8); snprintf(b,64,"%#.17g",d); o+=b; break; }
  case DType::String: jstr(o,r.s); break; case DType::Vector: o+='['; for(size_t i=0;i<r.v.size();++i){ if(i) o+=','; jtext(o,r.v[i]); } ws(o); o+=']'; break; case DType::Map: { o+='{'; bool f=true; for(std::map<std::string,R>::const_iterator i=r.m.begin();i!=r.m.end();++i){ if(!f) o+=','; f=false; ws(o); jstr(o,i->first); ws(o); o+=':'; jtext(o,i->second); } ws(o); o+='}'; } } ws(o); }
static void jround(){ R r=gen(3); jsonable(r); A a; build(a,r); std::string pre=bytes(below(8)),t=pre; a.encodeJSON(t); TRACE("text "<<t.substr(pre.size())); REQUIRE(t.compare(0,pre.size(),pre)==0,"encodeJSON changes what was there"); same(a,r,"encodeJSON changes the value"); t.erase(0,pre.size()); REQUIRE(a.encodeJSON()==t,"encodeJSON() differs from encodeJSON(string)");
  for(int i=0;i<2;++i){ Buf z(t); A b; if(coin()) build(b,gen(1)); try{ b.decodeJSON(z.p,z.n); }catch(std::exception&x){ REQUIRE(false,"decodeJSON refuses "<<t<<": "<<x.what()); } same(b,r,"read back from JSON"); t.clear(); jtext(t,r); TRACE("text "<<t); } 
  if(coin(3)){ CAnyPackage p; p.setRoot(a); p.encodeJSON(); CAnyPackage q; Buf z(std::string(p.data(),p.size())); q.decodeJSON(z.p,z.n); same(q.getRoot(),r,"package body read back from JSON"); } }
static void jwild(){ std::string t; if(coin(400)){ size_t n=pick(1,300000); for(size_t i=0;i<n;++i) t+=coin(3)?"{\"a\":":"["; TRACE("nest "<<n); } else if(coin(3)){ static const char W[]="{}[]\":,\\utfn0-.e \t1a"; for(int i=below(30);i>0;--i) t+=coin(8)?(char)rnd():W[below(sizeof(W)-1)]; } else { R r=gen(3); jsonable(r); jtext(t,r); for(int i=below(4);i>0&&!t.empty();--i) switch(below(4)){ case 0: t[below(t.size())]=(char)rnd(); break; case 1: t.erase(below(t.size())); break; case 2: t[below(t.size())]="{}[]\":,\\u"[below(9)]; break; case 3: { size_t q=below(t.size()); std::string f=t.substr(q,below(20)); t.insert(below(t.size()),f); } } }
  TRACE("text "<<hex(t.substr(0,400))); Buf z(t); A b; if(coin(4)) build(b,gen(1)); try{ b.decodeJSON(z.p,z.n); }catch(std::exception&){ } valid(b); }
void fz_case(){
#if defined(FZ_PROP_C12)
  roundtrip();
#elif defined(FZ_PROP_C13)
  wild();
#elif defined(FZ_PROP_C14)
  if(coin()) conv(); else ops();
#elif defined(FZ_PROP_C16)
  pack();
#elif defined(FZ_PROP_C15)
  if(coin()) jround(); else jwild();
#endif
}
