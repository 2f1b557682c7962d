#include "CConfig.h"
extern "C" void lv_roots(const std::string&s,std::string&o){ lce::CConfig c; c.loadConfig(s); int i; unsigned u; long l; unsigned short h; unsigned char b; unsigned long q; bool t; c.getValue(s,s,o,s); c.getValue(s,s,i,1); c.getValue(s,s,u,1); c.getValue(s,s,l,1); c.getValue(s,s,h,1); c.getValue(s,s,b,1); c.getValue(s,s,q,1); c.getValue(s,s,t,true); c.getIPAndPort(s,s,o,h,s,1); c.getErrMsg(); }
