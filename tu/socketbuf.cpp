#include <stdio.h>
#include <stdlib.h>
#include "CSocketBuf.h"
using lce::CSocketBuf;
extern "C" void lv_roots(CSocketBuf&b,const CSocketBuf&c,const char*p,int n){ b.getData(); b.getSize(); b.getRealFreeSize(); b.getBufSize(); b.getBufMaxSize(); b.getFreeSize(); b.getFreeBuf(); b.addData(n); b.addFreeBuf(); b.eraseFreeBuf(); b.addData(p,n); b.removeData(n); b.reset(); b=c; }
extern "C" void lv_make(int a,int b){ CSocketBuf x(a,b); CSocketBuf y(x); CSocketBuf z; }
