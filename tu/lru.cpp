#include <time.h>
#include <string>
#include "CLruCache.h"
typedef uint64_t U; typedef lce::CLruCache<U,U> L; typedef lce::CLruCacheV2<std::string,U> V;
extern "C" void lv_roots(U k,U v,const std::string&s){ { L c(7); c.set(k,v,1); c.get(k,v); c.del(k); c.clear(); c.getSize(); c.getMaxSize(); } { V c(7); c.set(s,v,1); c.get(s,v); c.del(s); c.clear(); c.getSize(); c.getMaxSize(); } }
