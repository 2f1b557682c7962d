#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
#include "CShmArray.h"
struct Elem{ char b[24]; };
extern "C" void lv_roots(lce::CShmArray<Elem>&a,const lce::CShmArray<Elem>&c,unsigned long i){ a.init(1,i,true,false); a[i]; c[i]; c.size(); a.isCreate(); }
extern "C" void lv_make(){ lce::CShmArray<Elem> a; }
