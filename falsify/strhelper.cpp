#include "StringHelper.h"
#include "fz.h"
using namespace fz;
static std::string word_(const char*al,int n){ std::string s; int m=strlen(al),k=below(n+1); for(int i=0;i<k;++i) s+=al[below(m)]; return s; }
void fz_case(){
  switch(below(5)){
  case 0: { std::string s=word_(coin()?" \t\r\nab":" \t\r\n",9); if(coin(8)) s+=std::string(1,'\0'); TRACE("trim "<<hex(s)); size_t a=0,b=s.size(); while(a<b&&strchr(" \t\r\n",s[a])&&s[a]) ++a; while(b>a&&strchr(" \t\r\n",s[b-1])&&s[b-1]) --b; std::string w=s.substr(a,b-a); lce::TrimStr(s); REQUIRE(s==w,hex(s)<<" want "<<hex(w)); break; }
  case 1: { std::string s=word_("ab,",12),p=coin()?word_(",a",3):","; TRACE("split "<<s<<" by "<<p); std::vector<std::string> v; int pre=below(2); if(pre) v.push_back("x"); alarm(20); lce::SplitStr(s,p,v); alarm(0); std::vector<std::string> w; if(pre) w.push_back("x"); size_t i=0,j; if(p.empty()) w.push_back(s); else { while((j=s.find(p,i))!=std::string::npos){ w.push_back(s.substr(i,j-i)); i=j+p.size(); } w.push_back(s.substr(i)); } REQUIRE(v==w,"got "<<v.size()<<" pieces, want "<<w.size()); break; }
  case 2: { std::string s=word_("aab",12),f=word_("ab",3),r=word_("abx",4); TRACE("replace "<<s<<" "<<f<<" "<<r); std::string w; size_t i=0; if(f.empty()) w=s; else while(i<s.size()){ if(s.compare(i,f.size(),f)==0){ w+=r; i+=f.size(); } else w+=s[i++]; } alarm(20); lce::ReplaceStr(s,f,r); alarm(0); REQUIRE(s==w,s<<" want "<<w); break; }
  case 3: { char c=coin()?':':"/a"[below(2)]; std::string s=word_("ab:/",8),h="h0",p="p0"; TRACE("hostport "<<s<<" "<<c); size_t i=s.find(c); bool r=lce::SplitHostPort(s,h,p,c); REQUIRE(r==(i!=std::string::npos),"returned "<<r); if(r) REQUIRE(h==s.substr(0,i)&&p==s.substr(i+1),h<<" | "<<p); else REQUIRE(h=="h0"&&p=="p0","changed"); break; }
  default: { std::string s=word_("ab<>",14),o="old",b=word_("<a",2),e=word_(">b",2); size_t from=pick(0,16); if(coin(20)) from=(size_t)-1; TRACE("middle "<<s<<" "<<b<<" "<<e<<" "<<from); bool sec=coin(); size_t a=from,j=std::string::npos; if(!sec){ a=from>s.size()?std::string::npos:s.find(b,from); if(a!=std::string::npos) a+=b.size(); } if(a!=std::string::npos&&a<=s.size()) j=s.find(e,a);
    size_t r=sec?lce::GetMiddleStr(below(9),s,o,from,e):lce::GetMiddleStr(from,s,o,b,e); if(j==std::string::npos) REQUIRE(r==j&&o=="old","returned "<<r<<" "<<o); else REQUIRE(r==j+e.size()&&o==s.substr(a,j-a),"returned "<<r<<" "<<o); }
  }
}
