#include <stdint.h>
#include <stdlib.h>
#include "CPackage.h"
struct Head{ char b[6]; };
typedef lce::CPackage<Head> P;
#define W(T) extern "C" void lv_w_##T(P&p,T v,T&o){ p.write(v); p.writePos(v,7); p<<v; p>>o; }
typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef unsigned long ulong; typedef unsigned long long ullong; typedef long long llong;
W(uchar) W(char) W(ushort) W(short) W(uint) W(int) W(ulong) W(long) W(ullong) W(llong)
extern "C" void lv_roots(P&p,const P&c,const char*s,const unsigned char*u,std::string&t,char*o,int n,Head&h){ p=c; p.setPkgData(s,n); p.setPkgData(u,n); p.setPkgData(t); p.write(s,n); p.write(u,n); p<<t; p<<s; p.read(o,n); p.read(t,n); p.readString(t); p.readString1(t); p.readString2(t); p.readString4(t);
 c.isEnd(n); p.seek(n,P::S_CUR); p.clear(); p.clearBody(); p.setPkgBody(s,n); p.setPkgBody(u,n); p.setPkgHead(h); c.getPkg(); c.data(); c.getPkgLen(); c.size(); c.getPkgBody(); c.getPkgBodyLen(); p.getPkgHead(); p.head(); }
extern "C" void lv_make(const P&c,const char*s,int n){ P a; P b(s,n); P d(c); }
