#include "CHttpWriter.h"
extern "C" void lv_roots(const std::string&s,const char*c,size_t n,int i){ lce::CHttpWriter w; w.begin(); w.setHead(s,s); w.setCookie(s,s,s,s,5); w.setCookie<int>(s,i,s,s,5); w.setStatusCode(5); w.setConnection(s); w.setContentType(s); w.setCacheControl(s); w.setBodyLen(n); w.setLocation(s); w.setLastModified(3); w.setExpires(3); w.setETag(s); w.write(c,n); w<<c; w<<s; w<<i; w<<n; w.end(); w.data(); w.size(); w.getData(); w.getDataLen(); }
