#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <arpa/inet.h>
#include "CPackageFilter.h"
#include "CH2ShortT3PackageFilter.h"
#include "CH2T3PackageFilter.h"
#include "CRawPackageFilter.h"
extern "C" void lv_roots(const char*p,int n,int&a,int&b){ lce::CH2ShortT3PackageFilter x; lce::CH2T3PackageFilter y; lce::CRawPackageFilter z; x.isWholePkg(p,n,a,b); y.isWholePkg(p,n,a,b); z.isWholePkg(p,n,a,b); x.getRealPkgData(p,n); y.getRealPkgData(p,n); z.getRealPkgData(p,n); }
