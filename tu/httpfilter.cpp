#include <stdio.h>
#include <stdint.h>
#include "CPackageFilter.h"
#include "CHttpPackageFilter.h"
extern "C" void lv_roots(const char*p,int n,int&a,int&b){ lce::CHttpPackageFilter x; x.isWholePkg(p,n,a,b); x.getRealPkgData(p,n); }
