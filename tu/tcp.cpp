#include <time.h>
#include "CTcpConnector.h"
extern "C" void lv_roots(char*p,int n,const std::string&a,std::string&b){ lce::CTcpConnector c; c.connect(a,1,2); c.write(p,n,3); c.read(p,n,3); c.read(b,3); c.readn(p,n,3); c.close(); c.getErrMsg(); }
