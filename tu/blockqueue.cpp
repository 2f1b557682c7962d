#include <stdint.h>
#include "CBlockQueue.h"
extern "C" void lv_roots(long&x,int n){ lce::CBlockQueue<long> q(n); q.clear(); q.full(); q.empty(); q.front(x); q.back(x); q.size(); q.max_size(); q.push(x); q.pop(x); q.pop(x,n); }
