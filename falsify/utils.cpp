// SOURCES: src/Utils.cpp
#include "Utils.h"
#include "fz.h"
using namespace fz;
static const char*PL="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.";
static std::string enc(const std::string&s){ std::string r; char b[4]; for(size_t i=0;i<s.size();++i){ unsigned char c=s[i]; if(c==' ') r+='+'; else if(c&&strchr(PL,c)) r+=c; else { snprintf(b,4,"%%%02X",c); r+=b; } } return r; }
static int hv(unsigned char c){ return c>='0'&&c<='9'?c-'0':c>='A'&&c<='F'?c-'A'+10:c>='a'&&c<='f'?c-'a'+10:-1; }
static std::string dec(const std::string&s){ std::string r; for(size_t i=0;i<s.size();++i){ if(s[i]=='+') r+=' '; else if(s[i]=='%'&&i+2<s.size()&&hv(s[i+1])>=0&&hv(s[i+2])>=0){ r+=(char)(hv(s[i+1])*16+hv(s[i+2])); i+=2; } else r+=s[i]; } return r; }
static uint64_t H(const std::string&s){ uint64_t h=0; for(size_t i=0;i<s.size();++i) h=5*h+(uint64_t)(int64_t)(signed char)s[i]; return h; }
void fz_case(){
  std::string s=bytes(pick(0,60)); TRACE(hex(s));
#ifdef FZ_PROP_C29
  char*p=(char*)malloc(s.size()+1); memcpy(p,s.data(),s.size()); REQUIRE(lce::Hash(p,s.size())==H(s),""); free(p); REQUIRE(lce::Hash(s)==H(s),"string");
  uint64_t v=word(); int i=v; unsigned u=v; long l=v; unsigned long ul=v; TRACE("v="<<v);
  REQUIRE(lce::Hash(i)==H(std::string((char*)&i,4)),"int"); REQUIRE(lce::Hash(u)==H(std::string((char*)&u,4)),"unsigned"); REQUIRE(lce::Hash(l)==H(std::string((char*)&l,8)),"long"); REQUIRE(lce::Hash(ul)==H(std::string((char*)&ul,8)),"unsigned long");
  char b[4]; snprintf(b,4,"%02X",(unsigned char)v); std::string x=lce::charToHex((char)v); REQUIRE(x==b,"charToHex "<<x<<" want "<<b); snprintf(b,4,coin()?"%02x":"%02X",(unsigned char)v); if(coin()&&b[0]>='A') b[0]=coin()?b[0]|32:b[0]&~32; REQUIRE(lce::hexToChar(b[0],b[1])==(char)v,"hexToChar "<<b);
#else
  std::string e=lce::FormUrlEncode(s); REQUIRE(e==enc(s),"encoded "<<e); std::string d=lce::FormUrlDecode(e); REQUIRE(d==s,"round trip gives "<<hex(d));
  std::string t; int k=below(20); for(int i=0;i<k;++i) switch(below(5)){ case 0: t+='%'; break; case 1: t+="+"; break; case 2: t+="0123456789abcdefABCDEFgGxX"[below(26)]; break; case 3: { char b[5]; snprintf(b,5,coin()?"%%%02x":"%%%02X",(unsigned)below(256)); t+=b; break; } default: t+=(char)rnd(); }
  TRACE("text "<<hex(t)); std::string g=lce::FormUrlDecode(t); REQUIRE(g==dec(t),"decoded "<<hex(g)<<" want "<<hex(dec(t)));
#endif
}
