#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include "CBitMap.h"
#define R(n,T) extern "C" void lv_roots##n(lce::CBitmap<n>&b,const lce::CBitmap<n>&c,unsigned long i,T v){ b.init(1,i,true,false); c.get(i); b.set(i,v); b.clear(); c.size(); c.data(); c.shm_size(); } \
 extern "C" void lv_make##n(){ lce::CBitmap<n> b; }
R(1,bool) R(2,unsigned char) R(3,unsigned char) R(4,unsigned char) R(5,unsigned char) R(6,unsigned char) R(8,unsigned char)
