#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio.h>
#include <string>
#include "fz.h"
using namespace fz;
namespace sk{
static int openfd,connfd,pend,next; static std::string wire,stream; static size_t R; static int why; static long ss,su,rs,ru,lim; static int eintrs;
static std::string ip; static int port; static int mode; // connect: 0 at once, 1 in progress then ok, 2 refused, 3 time-out, 4 refused later, 5 no socket
static int f_socket(int,int,int){ REQUIRE(openfd==-1,"a descriptor is lost"); if(mode==5){ errno=EMFILE; return -1; } return openfd=next++; }
static int f_close(int fd){ if(fd==openfd&&fd!=-1){ openfd=connfd=pend=-1; return 0; } errno=EBADF; return -1; }
static int f_connect(int fd,const struct sockaddr*a,socklen_t n){ const sockaddr_in*s=(const sockaddr_in*)a; REQUIRE(fd==openfd&&n==16,"connect"); REQUIRE(s->sin_family==AF_INET&&s->sin_port==htons(port)&&s->sin_addr.s_addr==inet_addr(ip.c_str()),"wrong address"); if(mode==0){ connfd=fd; return 0; } errno=mode==2?ECONNREFUSED:EINPROGRESS; pend=fd; return -1; }
static int f_poll(struct pollfd*p,nfds_t,int){ if(p->fd!=openfd) return 0; p->revents=mode==3?0:POLLOUT; return mode==3?0:1; }
static int f_select(int,fd_set*,fd_set*,fd_set*,struct timeval*){ return mode==3?0:1; }
static int f_getsockopt(int fd,int,int,void*p,socklen_t*){ int e=mode==1?0:ECONNREFUSED; memcpy(p,&e,4); if(!e&&fd==pend) connfd=fd; return 0; }
static int f_setsockopt(int fd,int,int op,const void*p,socklen_t n){ if(op==SO_RCVTIMEO||op==SO_SNDTIMEO){ timeval tv; REQUIRE(n==sizeof tv,""); memcpy(&tv,p,n); if(fd==openfd){ if(op==SO_RCVTIMEO){ rs=tv.tv_sec; ru=tv.tv_usec; } else { ss=tv.tv_sec; su=tv.tv_usec; } } } return 0; }
static bool step(){ if(eintrs<6&&coin(6)){ ++eintrs; errno=EINTR; return false; } if(coin(14)){ why=1; errno=coin()?EAGAIN:ECONNRESET; return false; } return true; }
static ssize_t f_send(int fd,const void*p,size_t n,int fl){ REQUIRE(fl&MSG_NOSIGNAL,"send may raise SIGPIPE"); if(fd!=connfd||fd==-1){ why=1; errno=EBADF; return -1; } REQUIRE(ss==lim/1000&&su==lim%1000*1000,"send time limit"); std::string all((const char*)p,n); if(!step()) return -1; size_t k=n?1+below(n):0; wire.append(all,0,k); return k; }
static ssize_t f_recv(int fd,void*p,size_t n,int){ if(fd!=connfd||fd==-1){ why=1; errno=EBADF; return -1; } REQUIRE(rs==lim/1000&&ru==lim%1000*1000,"receive time limit"); if(!step()) return -1; if(R==stream.size()){ why=2; return 0; } size_t k=n>1000&&coin()?n:1+below(n); if(k>stream.size()-R) k=stream.size()-R; memcpy(p,stream.data()+R,k); R+=k; return k; }
}
#define socket sk::f_socket
#define close f_close
#define connect f_connect
#define poll(a,b,c) sk::f_poll(a,b,c)
#define select sk::f_select
#define getsockopt sk::f_getsockopt
#define setsockopt sk::f_setsockopt
#define send f_send
#define recv f_recv
#define fcntl(...) 0
using sk::f_close; using sk::f_connect; using sk::f_send; using sk::f_recv;
#include "CTcpConnector.h"
#include "../src/CTcpConnector.cpp"
using namespace sk;
void fz_case(){
  openfd=connfd=pend=-1; next=3+below(2)*2000; wire.clear(); stream=bytes(coin(100)?65000+below(2000):pick(0,400)); R=0; eintrs=0; ss=su=rs=ru=-1; lim=3000; 
  lce::CTcpConnector c; REQUIRE(strlen(c.getErrMsg())==0,"message of a new connector"); static const char*ips[]={"127.0.0.1","10.1.2.3","1.2.3.4"}; ip=""; port=0; unsigned n=1+below(8); bool con=false;
  bool known=false;
  for(unsigned i=0;i<n;++i){ why=0; eintrs=0; lim=pick(0,100000); unsigned op=i==0&&!coin(8)?0:below(7); mode=coin(3)?1+below(5):0; TRACE("op "<<op<<" mode "<<mode);
    if(op==0||!known&&op==1){ ip=ips[below(3)]; port=below(65536); known=true; bool r=c.connect(ip,port,lim); REQUIRE(r==(mode<2),"connect returns "<<r<<" in mode "<<mode); con=r; }
    else if(op<=2){ std::string d=bytes(pick(0,300)); char*p=(char*)malloc(d.size()+1); memcpy(p,d.data(),d.size()); size_t w=wire.size(); int r=c.write(p,d.size(),lim); free(p); std::string s=wire.substr(w); REQUIRE(r==(int)d.size()||r==-1,"write of "<<d.size()<<" returns "<<r); REQUIRE(d.compare(0,s.size(),s)==0,"wrong bytes sent"); if(r==(int)d.size()) REQUIRE(s.size()==d.size(),"write reports success after "<<s.size()<<" of "<<d.size()); else REQUIRE(why||openfd==-1,"write gives up without an error"); con=r==-1?false:con||openfd!=-1; }
    else if(op<=4){ int k=pick(0,200); char*p=(char*)malloc(k); size_t r0=R; bool was=con; int r=c.readn(p,k,lim); if(r>=0) REQUIRE(R-r0==(size_t)r&&!memcmp(p,stream.data()+r0,r),"readn "<<k<<" returns "<<r<<" after "<<R-r0); free(p); REQUIRE(r<=k,""); if(!was) REQUIRE(r==-1,""); else if(r!=k){ REQUIRE(why,"readn gives up without an error"); if(why==1) REQUIRE(r==-1,""); else con=false; } }
    else if(op==5){ int k=1+pick(0,200); char*p=(char*)malloc(k); size_t r0=R; bool was=con; int r=c.read(p,k,lim); REQUIRE(r<=k,""); if(r>0) REQUIRE(R-r0==(size_t)r&&!memcmp(p,stream.data()+r0,r),"read"); free(p); if(!was) REQUIRE(r==-1,""); else { REQUIRE((r==0)==(why==2),""); if(why==1) REQUIRE(r==-1,""); } if(r==0) con=false; }
    else if(coin(3)){ c.close(); con=false; }
    else { std::string b=bytes(below(5)); size_t r0=R; bool was=con; int r=c.read(b,lim); if(r>=0) REQUIRE(b==stream.substr(r0,r)&&R-r0==(size_t)r,"read(string) returns "<<r<<" with "<<b.size()<<" bytes"); if(!was) REQUIRE(r==-1,""); else REQUIRE((r==0)==(why==2),""); if(r==0) con=false; }
    REQUIRE(con==(connfd!=-1)&&(openfd==connfd),"descriptor "<<openfd<<" connected "<<connfd<<" believed "<<con);
  }
}
