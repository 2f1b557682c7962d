// Stand-ins for the pthread lock and condition functions: one real thread plays all threads.  At every
// point where the lock is free the harness may let "another thread" run whole operations (other()).
#ifndef LOCKS_H
#define LOCKS_H
#include <pthread.h>
#include <sys/time.h>
#include <errno.h>
namespace lk{
static int owner=0,self=1,waits=0; static bool nested=false; static timespec deadline; static long now_s=1000,now_us=0; static bool timed_out=false; static int wakes=0,sigs=0;
static void other(bool waiting);      // run operations of other threads (harness)
static void released();               // the lock has just been released (harness check)
static void run_other(bool w){ if(nested) return; nested=true; int s=self; self=2; other(w); self=s; nested=false; }
static int lock(){ if(std::uncaught_exception()){ owner=self; return 0; } REQUIRE(owner==0,"the lock is taken by thread "<<self<<" while thread "<<owner<<" holds it"); owner=self; return 0; }
static void drop(){ if(std::uncaught_exception()){ owner=0; return; } REQUIRE(owner==self,"thread "<<self<<" releases a lock it does not hold"); released(); owner=0; }
static int unlock(){ drop(); run_other(false); return 0; }
static int wait(){ REQUIRE(!nested,"an operation waits although it could proceed"); drop(); ++waits; run_other(true); REQUIRE(owner==0,""); owner=self; return 0; }
static int timedwait(const timespec*t){ deadline=*t; REQUIRE(t->tv_nsec>=0&&t->tv_nsec<1000000000L,"invalid deadline"); REQUIRE(!nested,"an operation waits although it could proceed"); drop(); ++waits; timed_out=waits>20||fz::coin(4); run_other(false); owner=self; return timed_out?ETIMEDOUT:0; }
static int zero(){ return 0; }
static int tod(timeval*t){ t->tv_sec=now_s; t->tv_usec=now_us; return 0; }
static int ctime(timespec*t){ t->tv_sec=now_s; t->tv_nsec=now_us*1000; return 0; }
static void mine(const char*w){ REQUIRE(owner==self,w<<" without holding the lock"); }
static void reset(){ owner=0; self=1; waits=0; nested=false; timed_out=false; wakes=sigs=0; deadline.tv_sec=0; }
}
#define pthread_mutex_lock(m) lk::lock()
#define pthread_mutex_unlock(m) lk::unlock()
#define pthread_cond_wait(c,m) lk::wait()
#define pthread_cond_timedwait(c,m,t) lk::timedwait(t)
#define pthread_cond_broadcast(c) (++lk::wakes,lk::zero())
#define pthread_cond_signal(c) (++lk::sigs,lk::zero())
#define pthread_mutex_init(m,a) lk::zero()
#define pthread_cond_init(c,a) lk::zero()
#define pthread_mutex_destroy(m) lk::zero()
#define pthread_cond_destroy(c) lk::zero()
#define gettimeofday(t,z) lk::tod(t)
#endif
