#include "CTask.h"
void lv_work(int,void*,int);
struct W: lce::CTask { void onWork(int t,void*d,int i){ lv_work(t,d,i); } };
void lv_roots(){ W w; lce::CTask::CTaskThread t; t.run(); w.dispatch(1,0); }
