#include "CNetWorker.h"
#include "CCommMgr.h"
extern "C" { void lv_onRead(int,void*,const char*,int); void lv_onClose(int,void*); void lv_onConnect(int,void*,bool,void*); void lv_onError(int,void*,const char*,int); int lv_whole(const char*,int,int*,int*); }
struct LW: lce::CNetWorker { int init(){return 0;} void onRead(lce::StSession&s,const char*p,const int n); void onClose(lce::StSession&s); void onConnect(lce::StSession&s,bool b,void*d); void onError(lce::StSession&s,const char*m,int e); void onTimer(int,void*); void onMessage(int,void*); };
void LW::onRead(lce::StSession&s,const char*p,const int n){lv_onRead(s.iFd,&s,p,n);} void LW::onClose(lce::StSession&s){lv_onClose(s.iFd,&s);} void LW::onConnect(lce::StSession&s,bool b,void*d){lv_onConnect(s.iFd,&s,b,d);} void LW::onError(lce::StSession&s,const char*m,int e){lv_onError(s.iFd,&s,m,e);} void LW::onTimer(int,void*){} void LW::onMessage(int,void*){}
struct LP: lce::CProcessor { void onRead(lce::StSession&s,const char*p,const int n); void onClose(lce::StSession&s); void onConnect(lce::StSession&s,bool b,void*d); void onError(lce::StSession&s,const char*m,int e); };
void LP::onRead(lce::StSession&s,const char*p,const int n){lv_onRead(s.iFd,&s,p,n);} void LP::onClose(lce::StSession&s){lv_onClose(s.iFd,&s);} void LP::onConnect(lce::StSession&s,bool b,void*d){lv_onConnect(s.iFd,&s,b,d);} void LP::onError(lce::StSession&s,const char*m,int e){lv_onError(s.iFd,&s,m,e);}
struct LF: lce::CPackageFilter { int isWholePkg(const char*p,const int n,int&r,int&l); const char*getRealPkgData(const char*p,const int){return p;} };
int LF::isWholePkg(const char*p,const int n,int&r,int&l){return lv_whole(p,n,&r,&l);}
void lv_roots(){ LW w; LP p; LF f; (void)w; (void)p; (void)f; }
