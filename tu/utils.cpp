#include <stdint.h>
#include "Utils.h"
extern "C" void lv_roots(const char*p,size_t n,std::string&s,int i,unsigned u,long l,unsigned long ul){ lce::Hash(p,n); lce::Hash(s); lce::Hash(i); lce::Hash(u); lce::Hash(l); lce::Hash(ul); lce::charToHex((char)i); lce::hexToChar((char)i,(char)u); lce::FormUrlEncode(s); lce::FormUrlDecode(s); }
