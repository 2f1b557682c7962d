// SOURCES: src/CHttpWriter.cpp src/Utils.cpp
#include "CHttpWriter.h"
#include "fz.h"
#include <map>
#include <algorithm>
using namespace fz;
static time_t now_=1000;
extern "C" time_t time(time_t*p) throw(){ if(p) *p=now_; return now_; }
static std::string gmt(time_t t){ char b[64]; struct tm m; gmtime_r(&t,&m); strftime(b,sizeof b,"%a, %d %b %Y %H:%M:%S GMT",&m); return b; }
static std::string tok(int n){ std::string s; int k=1+below(coin(6)?2200:n); for(int i=0;i<k;++i) s+=(char)("abcXYZ019-_/;="[below(14)]); return s; }
static std::string val(int n){ return coin(4)?std::string():tok(n); }
struct Ck{ std::string v,d,p; time_t t; };
struct Resp{ int st; std::string con,ct,cc,loc,et,body; time_t mod,exp; unsigned long len; std::map<std::string,std::string> h; std::map<std::string,Ck> c;
  Resp():st(200),con("Close"),ct("text/html"),mod(0),exp(0),len(0){} };
static std::string num(unsigned long v){ std::ostringstream o; o<<v; return o.str(); }
static void check(lce::CHttpWriter&w,const Resp&r){
  std::string s(w.data(),w.size()); REQUIRE(s==std::string(w.getData(),w.getDataLen()),"getData");
  size_t e=s.find("\r\n\r\n"); REQUIRE(e!=std::string::npos,"no blank line");
  REQUIRE(s.substr(e+4)==r.body,"body of "<<s.size()-e-4<<" bytes, want "<<r.body.size());
  std::vector<std::string> l; size_t i=0; while(i<e+2){ size_t j=s.find("\r\n",i); l.push_back(s.substr(i,j-i)); i=j+2; }
  REQUIRE(l[0]=="HTTP/1.1 "+num(r.st)+" "+lce::CHttpWriter::getStatusCodeDesc(r.st),"status line "<<l[0]);
  std::vector<std::string> g(l.begin()+1,l.end()),x; 
  for(size_t k=0;k<g.size();++k){ if(g[k].compare(0,10,"Location: ")==0) g[k].erase(9,1); if(g[k].compare(0,12,"Set-Cookie: ")==0) g[k].erase(11,1); }
  x.push_back("Connection: "+r.con); x.push_back("Date: "+gmt(now_)); x.push_back("Content-Type: "+r.ct);
  if(r.mod>0) x.push_back("Last-Modified: "+gmt(r.mod)); if(r.exp>0) x.push_back("Expires: "+gmt(r.exp));
  if(r.cc.size()) x.push_back("Cache-Control: "+r.cc); if(r.et.size()) x.push_back("ETag: "+r.et); if(r.loc.size()) x.push_back("Location:"+r.loc);
  if(r.len) x.push_back("Content-Length: "+num(r.len)); else if(r.body.size()||!(r.st/100==1||r.st==204||r.st==304)) x.push_back("Content-Length: "+num(r.body.size()));
  for(std::map<std::string,std::string>::const_iterator k=r.h.begin();k!=r.h.end();++k) x.push_back(k->first+": "+k->second);
  for(std::map<std::string,Ck>::const_iterator k=r.c.begin();k!=r.c.end();++k){ std::string t="Set-Cookie:"+k->first+"="+k->second.v; if(k->second.d.size()) t+="; Domain="+k->second.d; if(k->second.t) t+="; Expires="+gmt(now_+k->second.t); if(k->second.p.size()) t+="; Path="+k->second.p; x.push_back(t); }
  std::sort(g.begin(),g.end()); std::sort(x.begin(),x.end());
  for(size_t k=0;k<g.size()||k<x.size();++k){ std::string a=k<g.size()?g[k]:"<none>",b=k<x.size()?x[k]:"<none>"; REQUIRE(a==b,"header line "<<a.substr(0,80)<<" want "<<b.substr(0,80)); }
}
void fz_case(){
  static char mem[sizeof(lce::CHttpWriter)] __attribute__((aligned(16))); memset(mem,(int)below(256),sizeof mem); lce::CHttpWriter&w=*new(mem) lce::CHttpWriter;
  int n=1+below(3); bool first=coin(6);   // without begin: the fields are those of a new writer
  for(int q=0;q<n;++q){
    Resp r; now_=1000+below(2000000000); if(first&&q==0){ r.con=r.ct=""; TRACE("new"); } else { w.begin(); TRACE("begin"); }
    int k=below(12);
    for(int i=0;i<k;++i) switch(below(13)){
      case 0: case 1: { std::string a=tok(8),b=val(20); w.setHead(a,b); r.h[a]=b; TRACE("head "<<a.size()<<" "<<b.size()); break; }
      case 2: { Ck c; std::string a=tok(6); c.v=val(9); c.d=val(5); c.p=val(5); c.t=coin()?0:1+below(100000); if(r.c.count(a)) break; if(coin()){ w.setCookie(a,c.v,c.d,c.p,c.t); } else { int v=(int)word(); std::ostringstream o; o<<v; c.v=o.str(); w.setCookie(a,v,c.d,c.p,c.t); } r.c[a]=c; TRACE("cookie"); break; }
      case 3: { static const int T[]={200,204,301,302,304,404,500,100,101,206,999,600,205}; r.st=T[below(13)]; w.setStatusCode(r.st); TRACE("status "<<r.st); break; }
      case 4: r.con=tok(9); w.setConnection(r.con); TRACE("con"); break;
      case 5: r.ct=tok(9); w.setContentType(r.ct); TRACE("ct"); break;
      case 6: r.cc=val(9); w.setCacheControl(r.cc); TRACE("cc"); break;
      case 7: r.loc=val(30); w.setLocation(r.loc); TRACE("loc"); break;
      case 8: r.et=val(9); w.setETag(r.et); TRACE("etag"); break;
      case 9: if(coin()) { r.mod=below(2000000000); w.setLastModified(r.mod); } else { r.exp=below(2000000000); w.setExpires(r.exp); } TRACE("date"); break;
      case 10: r.len=coin(3)?word():below(5); w.setBodyLen(r.len); TRACE("len "<<r.len); break;
      default: { std::string b=bytes(below(coin(5)?70000:40)); switch(below(5)){ case 0: w.write(b.data(),b.size()); break; case 1: w<<b; break; case 2: { unsigned long v=word(); w<<v; b=num(v); break; } default: b=b.c_str(); w<<b.c_str(); } r.body+=b; TRACE("body "<<b.size()); }
    }
    w.end(); check(w,r); if(coin(4)){ w.end(); check(w,r); }
  }
  w.~CHttpWriter();
}
