// stand-ins for System V shared memory: exact-size heap blocks, so that ASan sees every stray byte
#include <map>
#include <sys/shm.h>
#include <errno.h>
namespace shmstub{ struct Seg{ char*p; size_t n; }; static std::map<int,Seg> seg; static std::map<int,int> key; static int next=1; static int failget=0,failat=0;
 static void reset(){ for(auto&s:seg) free(s.second.p); seg.clear(); key.clear(); failget=failat=0; } }
extern "C" int shmget(key_t k,size_t n,int f) throw(){ using namespace shmstub; if(failget>0&&--failget==0){ errno=EINVAL; return -1; }
  if(key.count(k)){ Seg&s=seg[key[k]]; if(n>s.n){ errno=EINVAL; return -1; } return key[k]; } if(!(f&IPC_CREAT)){ errno=ENOENT; return -1; }
  Seg s; s.p=(char*)calloc(1,n?n:1); s.n=n; seg[next]=s; key[k]=next; return next++; }
extern "C" void*shmat(int id,const void*,int) throw(){ using namespace shmstub; if(failat>0&&--failat==0){ errno=EACCES; return (void*)-1; } if(!seg.count(id)){ errno=EINVAL; return (void*)-1; } return seg[id].p; }
extern "C" int shmdt(const void*) throw(){ return 0; }
