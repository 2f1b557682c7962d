#include <stdint.h>
#include <stddef.h>
#include "CCircleQueue.h"
extern "C" void lv_roots(lce::CCircleQueue<uint64_t>&q,uint64_t&e,const uint64_t&c,unsigned n){ q.init(n); q.empty(); q.full(); q.enque(c); q.deque(e); }
extern "C" void lv_life(unsigned n){ lce::CCircleQueue<uint64_t> q; q.init(n); }
