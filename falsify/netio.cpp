// SOURCES: src/Utils.cpp src/CEvent.cpp src/CNetWorker.cpp src/CCommMgr.cpp src/CThread.cpp
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <deque>
#include <queue>
#include <map>
#include <set>
#include <unordered_map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <memory>
#include <functional>
#include <algorithm>
#include <atomic>
#include "fz.h"
#define private public
#define protected public
#include "CNetWorker.h"
#include "CCommMgr.h"
#undef private
#undef protected
using namespace fz; using namespace lce;
// one connection on a made-up descriptor; the socket calls act on it
static const int FD=900; static bool big; static bool open_; static int gen; static std::string in,out; static size_t R,D; static int why; static unsigned idle; static bool nowatch; static int watching;
extern "C" ssize_t send(int fd,const void*p,size_t n,int fl){ if(fd!=FD){ return syscall(SYS_sendto,fd,p,n,fl,0,0); } REQUIRE(open_,"bytes are sent on a closed connection"); std::string all((const char*)p,n); unsigned c=below(6); if(c==0&&idle<4){ ++idle; errno=coin()?EAGAIN:EINTR; return -1; } if(c==1&&coin(6)){ why=1; errno=EPIPE; return -1; } errno=coin()?EAGAIN:EPIPE; size_t k=n?(coin()?n:1+below(n)):0; out.append(all,0,k); return k; }
extern "C" ssize_t recv(int fd,void*p,size_t n,int fl){ if(fd!=FD){ return syscall(SYS_recvfrom,fd,p,n,fl,0,0); } REQUIRE(open_,"bytes are received on a closed connection"); REQUIRE(n>0,"recv into no space"); memset(p,1,n); if(coin(20)){ errno=coin()?EAGAIN:EINTR; return -1; } if(coin(60)){ why=1; errno=coin()?ECONNRESET:ETIMEDOUT; return -1; } if(R==in.size()){ why=2; return 0; } size_t k=coin()?n:1+below(n); if(k>in.size()-R) k=in.size()-R; memcpy(p,in.data()+R,k); R+=k; return k; }
extern "C" int close(int fd){ if(fd!=FD) return syscall(SYS_close,fd); REQUIRE(open_&&gen==0,"a closed or newer connection is closed"); REQUIRE(watching==0,"a closed connection is still watched"); open_=false; return 0; }
extern "C" int epoll_ctl(int e,int op,int fd,struct epoll_event*v){ if(fd!=FD) return syscall(SYS_epoll_ctl,e,op,fd,v); if(op!=EPOLL_CTL_DEL&&nowatch){ errno=ENOSPC; return -1; } watching=op==EPOLL_CTL_DEL?0:(v->events&EPOLLIN?1:0)|(v->events&EPOLLOUT?2:0); return 0; }
static std::vector<std::string> got; static int act; static bool told; static void (*again)();
// packages: one byte of length L, L bytes; 0xff is invalid
static int cut(const std::string&s,size_t&l){ if(s.empty()) return -1; unsigned L=(unsigned char)s[0]; if(L==255) return -2; if(s.size()<L+1) return -1; l=L+1; return 0; }
struct F:CPackageFilter{ int isWholePkg(const char*p,const int n,int&r,int&k){ std::string s(p,n); REQUIRE(s==in.substr(D,R-D),"the filter sees "<<n<<" bytes, "<<R-D<<" are waiting"); size_t l; int f=cut(s,l); r=k=f?77:(int)l; return f; } const char*getRealPkgData(const char*p,const int){ return p; } };
static void onread(StSession&s,const char*p,int n){ REQUIRE(open_&&gen==0,"the handler is called after the connection was closed"); REQUIRE(s.iFd==FD,"the handler is told descriptor "<<s.iFd); size_t l=0; REQUIRE(cut(in.substr(D,R-D),l)==0&&(size_t)n==l,"handed over "<<n<<" bytes, the next package has "<<l); REQUIRE(std::string(p,n)==in.substr(D,n),"wrong bytes handed over"); D+=n; if(act==0||!coin(big?300:4)) return; told=true; extern void hclose(const StSession&); hclose(s); if(act==2) again(); }
struct W:CNetWorker{ int init(){return 0;} void onRead(StSession&s,const char*p,const int n){ onread(s,p,n); } void onClose(StSession&s){ REQUIRE(s.iFd==FD,""); } void onConnect(StSession&,bool,void*){} void onError(StSession&s,const char*,int){ REQUIRE(s.iFd==FD,""); } };
struct P:CProcessor{ void onRead(StSession&s,const char*p,const int n){ onread(s,p,n); } void onClose(StSession&s){ REQUIRE(s.iFd==FD,""); } void onConnect(StSession&,bool,void*){} void onError(StSession&s,const char*,int){ REQUIRE(s.iFd==FD,""); } };
static W*w; static CCommMgr*c; static P proc; static StServerInfo*srv; static bool net; static F flt;
static void record(){ if(net){ StClientInfo*k=new StClientInfo; k->iFd=FD; k->pstServerInfo=srv; w->m_vecClients[FD]=k; } else { c->m_vecClients[FD].iFd=FD; c->m_vecClients[FD].iSrvId=0; } }
void hclose(const StSession&s){ if(net) w->close(s); else c->close(s); REQUIRE(!open_,"close leaves the descriptor open"); }
static void anew(){ gen=1; open_=true; record(); }
static bool gone(){ return net?!w->m_vecClients[FD]:!c->m_vecClients[FD].iFd; }
static CSocketBuf*sb(){ return net?w->m_vecClients[FD]->pSocketSendBuf:c->m_vecClients[FD].pSocketSendBuf; }
static CSocketBuf*rb(){ return net?w->m_vecClients[FD]->pSocketRecvBuf:c->m_vecClients[FD].pSocketRecvBuf; }
static void wipe(){ if(net){ delete w->m_vecClients[FD]; w->m_vecClients[FD]=0; w->m_oEvent.m_stFdEvents[FD].iEventType=0; } else { StClientInfo&k=c->m_vecClients[FD]; delete k.pSocketRecvBuf; delete k.pSocketSendBuf; k.pSocketRecvBuf=k.pSocketSendBuf=0; k.iFd=0; c->m_oCEvent.m_stFdEvents[FD].iEventType=0; } watching=0; }
static void c25(){
  std::string want; unsigned n=1+below(14); bool need=false; StSession s; s.iFd=FD; s.iSvrId=0; 
  for(unsigned i=0;i<n&&open_;++i){ why=0; idle=0; bool ev=(watching&2)!=0; size_t before=out.size();
    if(ev&&coin()){ TRACE("onWrite"); if(net) w->onWrite(FD,0); else c->onWrite(FD,0);
      REQUIRE(want.compare(0,out.size(),out)==0,"bytes sent are not the bytes written, after "<<before); REQUIRE(open_!=gone(),"closed and record disagree");
      if(open_){ size_t q=sb()?sb()->getSize():0; REQUIRE(out.size()+q==want.size()&&(!q||!memcmp(sb()->getData(),want.data()+out.size(),q)),"unsent bytes are lost"); REQUIRE(((watching&2)!=0)==(q!=0),"watched for writing with "<<q<<" bytes queued"); REQUIRE(!(q==0&&need),"not closed although everything is sent"); REQUIRE(!why,"a failed connection stays open"); }
      else REQUIRE(why==1||need&&out.size()==want.size(),"closed before everything was sent");
    } else { std::string d=bytes(coin(8)?0:big?pick(1,90000):pick(1,120)); bool bc=coin(4); nowatch=coin(30); char*p=(char*)malloc(d.size()); memcpy(p,d.data(),d.size()); int r=net?w->write(s,p,d.size(),bc):c->write(s,p,d.size(),bc); free(p); TRACE("write "<<d.size()<<" close "<<bc<<" = "<<r<<" sent "<<out.size()-before);
      REQUIRE(open_!=gone(),"closed and record disagree");
      if(open_){ if(r==0){ want+=d; need=bc||need; } size_t q=sb()?sb()->getSize():0; REQUIRE(out.size()+q==want.size()&&want.compare(0,out.size(),out)==0&&(!q||!memcmp(sb()->getData(),want.data()+out.size(),q)),"stream of "<<want.size()<<" accepted bytes: "<<out.size()<<" sent, "<<q<<" queued"); REQUIRE(!q||(watching&2),"waiting bytes are never sent"); if(r==0&&bc) REQUIRE(watching&2,"not closed although everything is sent"); if(!nowatch&&r==0&&q==0&&d.size()) REQUIRE(!(watching&2),"watched for writing with nothing queued"); if(r==0&&!bc) need=net?w->m_vecClients[FD]->bNeedClose:c->m_vecClients[FD].bNeedClose; if(r!=0) need=net?w->m_vecClients[FD]->bNeedClose:c->m_vecClients[FD].bNeedClose; }
      else { want+=d; REQUIRE(want.compare(0,out.size(),out)==0,"bytes sent are not the bytes written"); if(r==0) REQUIRE(bc&&out.size()==want.size(),"closed before everything was sent"); else REQUIRE(out.size()>want.size()-d.size()||why==1||nowatch,"closed without need"); }
      nowatch=false; }
  }
}
static void c26(){
  unsigned n=1+below(big?1000:12); in.clear(); for(unsigned i=0;i<n;++i){ unsigned L=coin(big?1000:20)?255:coin(15)?below(255):below(big?3:12); in+=(char)L; in+=bytes(L); } act=coin(3)?1+below(2):0; again=anew; bool first=true;
  for(unsigned i=0;i<40&&open_&&!gen;++i){ why=0; told=false; size_t r0=R; TRACE("read, "<<R<<" received "<<D<<" handed over of "<<in.size()); if(net) w->onTcpRead(FD,w->m_vecClients[FD]); else c->onTcpRead(FD,&c->m_vecClients[FD]);
    REQUIRE(open_!=gone(),"closed and record disagree"); if(gen){ REQUIRE(open_,"the newer connection was closed"); break; } size_t l; 
    if(open_){ size_t q=rb()?rb()->getSize():0; REQUIRE(q==R-D&&(!q||!memcmp(rb()->getData(),in.data()+D,q)),"kept "<<q<<" bytes of "<<R-D); int f=cut(in.substr(D,R-D),l); if(R!=r0) REQUIRE(f==-1,"a complete or invalid package is left"); REQUIRE(why!=2,"the end of the stream does not close the connection"); }
    else { int f=cut(in.substr(D,R-D),l); REQUIRE(told||why||f==-2||R-D>=(size_t)srv->dwMaxRecvBufLen,"closed without reason"); }
  }
}
void fz_case(){
  if(!w){ w=new W; w->m_oEvent.init(1000); w->m_vecClients.resize(1000,0); c=new CCommMgr; c->m_oCEvent.init(1000); c->m_vecClients.resize(1000); srv=new StServerInfo; c->m_vecServers.push_back(srv); srv->iType=CONN_TCP; srv->pProcessor=&proc; srv->iPkgType=PKG_EXT; srv->pPackageFilter=&flt; }
  net=coin(); big=coin(25); srv->dwInitRecvBufLen=1+below(big?8000:40); srv->dwMaxRecvBufLen=srv->dwInitRecvBufLen+(big?below(40000):coin()?400:below(100)); srv->dwInitSendBufLen=1+below(big?20000:40); srv->dwMaxSendBufLen=srv->dwInitSendBufLen+below(big?200000:300);
  w->m_vecClients[FD]=0; open_=true; gen=0; in.clear(); out.clear(); R=D=0; why=0; watching=1; nowatch=false; act=0; TRACE((net?"CNetWorker":"CCommMgr")); record(); (net?w->m_oEvent:c->m_oCEvent).m_stFdEvents[FD].iEventType=CEvent::EV_READ;
#ifdef FZ_PROP_C26
  c26();
#else
  c25();
#endif
  wipe();
}
