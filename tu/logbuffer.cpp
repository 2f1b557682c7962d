#include <stdio.h>
#include <string.h>
#include "CLogBuffer.h"
extern "C" void lv_roots(const char*p,size_t n){ lce::CLogBuffer b; b.init(n); b.write(p,n); b.reset(); b.data(); b.size(); b.empty(); b.full(); }
