#include <stdint.h>
#include <string.h>
#include <byteswap.h>
#include "CAnyPackage.h"
using namespace lce;
template class lce::CAnyValuePackage<AnyHeader>;
void lv_header(AnyHeader&h,uint64_t v){ h.setStx(v); h.getStx(); h.setLen(v); h.getLen(); h.setVersion(v); h.getVersion(); h.setServiceId(v); h.getServiceId(); h.setCmd(v); h.getCmd(); h.setSeq(v); h.getSeq(); h.setFormat(v); h.getFormat(); h.setUid(v); h.getUid(); h.setClientIp(v); h.getClientIp(); h.setErrno(v); h.getErrno(); h.setFlag(v); h.getFlag(); AnyHeader x; }
void lv_roots(CAnyValue&a,const CAnyValue&c,std::string&s,const char*p,size_t n,const unsigned char*u){
  CAnyValue n0; CAnyValue n1(true),n2('a'),n3((unsigned char)1),n4((unsigned short)1),n5((short)1),n6(1),n7(1u),n8(1L),n9(1UL),na(1LL),nb(1ULL),nc(1.0f),nd(1.0),ne("a"),nf(s),ng(a);
  a=c; c.asInt(); c.asInt64(); c.asUInt(); c.asUInt64(); c.asBool(); c.asString(); (unsigned long long)c; (long long)c; (char)c; (unsigned char)c; (unsigned short)c; (short)c; (unsigned long)c; (long)c; (int)c; (unsigned int)c; (bool)c; (double)c; c.operator std::string();
  c.data(); c.size(); c[0]; a[0]; c[s]; c[p]; a[s]; a[p]; c.hasKey(s); c.keys(); a.insert(s,c); a.push_back(c); a.pop_back(); a.push_front(c); a.pop_front(); a.erase(s);
  a.isObject(); a.isArray(); a.isString(); a.isBool(); a.isNull(); a.isUInt(); a.isInt(); a.isFloat(); a.clear(); a.decodeJSON(p,n); a.encodeJSON(); a.encodeJSON(s); a.decode(p,n); a.decode(u,n); a.encode(); a.encode(s); a.~CAnyValue();
}
