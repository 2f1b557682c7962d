#include <stdint.h>
#include "StringHelper.h"
extern "C" void lv_roots(std::string&s,std::string&f,std::string&r,std::vector<std::string>&v,size_t i,char c){ lce::ReplaceStr(s,f,r); lce::SplitHostPort(s,f,r,c); lce::SplitStr(s,f,v); lce::GetMiddleStr(i,s,f,r,s); lce::GetMiddleStr(i,s,f,i,r); lce::TrimStr(s); }
