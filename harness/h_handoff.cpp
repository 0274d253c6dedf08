// Runs RtHQPSolver with its two threads under a scheduler that this harness controls: every pthread
// synchronisation call of the solver is a scheduling point, one thread runs at a time, and the schedule
// comes from the specification. Blocking, waking and spurious wake-ups follow the POSIX semantics.
#include "vfh.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <atomic>
#include <map>
#include <vector>
#include "h_hqp.hpp"

namespace sch {
  enum State { RUN, LOCKW, CONDW, JOINW, DONE };
  struct T { int id; State st; void *mtx, *cnd; T* target; bool timed, timedout; sem_t sem; void* (*fn)(void*); void* arg; void* ret; pthread_t real; long ops; };
  static std::vector<T*> th;
  static std::map<void*, T*> owner;
  static thread_local T* self = nullptr;
  static bool on = false, armed = false, late = false;
  static std::atomic<bool> freerun(false);
  static std::atomic_flag sl = ATOMIC_FLAG_INIT;
  static std::atomic<long> steps(0);
  static std::string picks; static size_t pos; static long slips, misuse;
  struct Fine { int t; long at; }; static std::vector<Fine> fine;
  static std::string why;
  typedef std::vector<vfh::json> Evs;

  template <typename F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
  struct Guard { Guard() { while (sl.test_and_set(std::memory_order_acquire)) {} } ~Guard() { sl.clear(std::memory_order_release); } };

  static bool enabled(T* t)
  {
    switch (t->st) {
      case RUN: return true;
      case LOCKW: return !owner.count(t->mtx);
      case JOINW: return t->target->st==DONE;
      default: return false;
    }
  }
  static void fatal(const char* what)
  {
    vfh::emit(vfh::json{{"event",what},{"pos",pos},{"steps",(long)steps}});
    std::fflush(vfh::out()); _exit(7);
  }
  static T* latest() { for (size_t i=th.size(); i-->1;) if (th[i]->st!=DONE) return th[i]; return nullptr; }
  static T* choose(T* me, bool point, T* avoid=nullptr)
  {
    if (++steps > 60000) fatal("livelock");
    if (point && armed) while (pos<picks.size()) {
      char c=picks[pos++];
      T* t = (c=='M'||c=='m') ? th[0] : latest();
      if (c=='m'||c=='w') { if (t && t->st==CONDW) t->st=LOCKW; else slips++; continue; }
      if (t && enabled(t)) return t;
      slips++;
      break;
    }
    if (steps>5000 && steps%3==0) { size_t k=steps/3; for (size_t i=0;i<th.size();i++) { T* t=th[(k+i)%th.size()]; if (enabled(t)) return t; } }
    if (me && me!=avoid && enabled(me)) return me;
    for (T* t : th) if (t!=avoid && enabled(t)) return t;
    if (avoid && enabled(avoid)) return avoid;
    for (T* t : th) if (t->st==CONDW && t->timed) { t->timedout=true; t->st=LOCKW; if (enabled(t)) return t; }
    return nullptr;
  }
  // a thread that spins without any call we see would hold the others up for ever: let them go
  static void await(T* me)
  {
    if (freerun) { while (true) { { Guard g; if (enabled(me)) return; } sched_yield(); } }
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec+=4;
    while (true) {
      int rc=sem_timedwait(&me->sem, &ts);
      if (rc==0) { if (freerun) { while (true) { { Guard g; if (enabled(me)) return; } sched_yield(); } } return; }
      if (errno==EINTR) continue;
      freerun=true; for (T* t : th) sem_post(&t->sem);
      clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec+=4;
    }
  }
  // returns when this thread may go on with the operation described by its state
  static void schedule(bool point, T* avoid=nullptr)
  {
    if (freerun) { await(self); return; }
    T* t;
    { Guard g; t=choose(self, point, avoid); }
    if (!t) fatal("deadlock");
    if (t==self) return;
    sem_post(&t->sem);
    await(self);
  }
  // the choice is made before an operation, or ("late") after it
  static void before(bool point)
  {
    bool free; { Guard g; free=enabled(self); }
    schedule(point && (!late || !free));
  }
  static void after(bool point) { if (late && point) { self->st=RUN; schedule(true); } }
  static bool libboost(void* ra) { Dl_info i; return dladdr(ra,&i) && i.dli_fname && std::strstr(i.dli_fname,"libboost"); }
  static void acquire(void* m, bool point)
  {
    bool first=point;
    while (true) {
      self->mtx=m; self->st=LOCKW; before(first);
      { Guard g; if (!owner.count(m)) { owner[m]=self; self->st=RUN; break; } }
      first=false;
    }
    after(point);
  }
  static void release(void* m) { Guard g; auto it=owner.find(m); if (it==owner.end() || it->second!=self) misuse++; else owner.erase(it); }
  static void wake(void* c, bool all) { Guard g; for (T* t : th) if (t->st==CONDW && t->cnd==c) { t->st=LOCKW; if (!all) return; } }
  static int wait(void* c, void* m, bool timed, bool point)
  {
    self->st=RUN; before(point);
    { Guard g; auto it=owner.find(m); if (it==owner.end() || it->second!=self) misuse++; else owner.erase(it);
      self->cnd=c; self->mtx=m; self->timed=timed; self->timedout=false; self->st=CONDW; }
    acquire2: 
    schedule(true);
    { Guard g; if (!owner.count(m)) { owner[m]=self; self->st=RUN; goto got; } }
    goto acquire2;
    got: { int rc=self->timedout ? ETIMEDOUT : 0; after(point); return rc; }
  }
  static void* trampoline(void* p)
  {
    self=static_cast<T*>(p);
    await(self);
    self->ret=self->fn(self->arg);
    T* t=nullptr;
    { Guard g; self->st=DONE; if (!freerun) { for (auto it=owner.begin(); it!=owner.end();) { if (it->second==self) { misuse++; it=owner.erase(it); } else ++it; } t=choose(nullptr, true); } }
    if (!freerun) { if (!t) fatal("deadlock"); sem_post(&t->sem); }
    return self->ret;
  }
  static T* make(int id) { T* t=new T(); t->id=id; t->st=RUN; sem_init(&t->sem,0,0); t->ops=0; return t; }
  static void begin(const vfh::json& sc)
  {
    th.clear(); owner.clear(); freerun=false; steps=0; pos=0; slips=0; misuse=0; picks.clear(); fine.clear();
    for (auto& s : sc["sched"]) picks+=s.get<std::string>();
    for (auto& f : sc["fine"]) fine.push_back(Fine{f["t"],f["at"]});
    self=make(0); th.push_back(self); on=true; armed=false; late=sc["late"];
  }
  static void end() { on=false; self=nullptr; }
}
using sch::self;
void vf_point()
{
  sch::T* s=self; if (!s || !sch::on) return;
  s->ops++;
  for (auto& f : sch::fine) if (f.t==(s->id?1:0) && f.at==s->ops) { if (!sch::freerun) { s->st=sch::RUN; sch::schedule(false, s); } return; }
}
#define RA __builtin_return_address(0)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (!self) { static auto f=sch::real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } sch::acquire(m, !sch::libboost(RA)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!self) { static auto f=sch::real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
  self->st=sch::RUN; bool p=!sch::libboost(RA); sch::before(p);
  int rc=0; { sch::Guard g; if (sch::owner.count(m)) rc=EBUSY; else sch::owner[m]=self; }
  sch::after(p); return rc;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if (!self) { static auto f=sch::real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
  self->st=sch::RUN; bool p=!sch::libboost(RA); sch::before(p);
  sch::release(m); sch::after(p); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!self) { static auto f=sch::real<int(*)(pthread_cond_t*,pthread_mutex_t*)>("pthread_cond_wait"); return f(c,m); } return sch::wait(c,m,false,!sch::libboost(RA)); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!self) { static auto f=sch::real<int(*)(pthread_cond_t*,pthread_mutex_t*,const timespec*)>("pthread_cond_timedwait"); return f(c,m,t); } return sch::wait(c,m,true,!sch::libboost(RA)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!self) { static auto f=sch::real<int(*)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const timespec*)>("pthread_cond_clockwait"); return f(c,m,k,t); } return sch::wait(c,m,true,!sch::libboost(RA)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!self) { static auto f=sch::real<int(*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); } self->st=sch::RUN; bool p=!sch::libboost(RA); sch::before(p); sch::wake(c,false); sch::after(p); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!self) { static auto f=sch::real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); } self->st=sch::RUN; bool p=!sch::libboost(RA); sch::before(p); sch::wake(c,true); sch::after(p); return 0; }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
  static auto f=sch::real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create");
  if (!self) return f(p,a,fn,arg);
  self->st=sch::RUN; sch::before(true);
  sch::T* t=sch::make((int)sch::th.size()); t->fn=fn; t->arg=arg;
  int rc=f(&t->real,a,sch::trampoline,t);
  if (rc==0) { *p=t->real; sch::Guard g; sch::th.push_back(t); }
  sch::after(true);
  return rc;
}
int pthread_join(pthread_t p, void** r)
{
  static auto f=sch::real<int(*)(pthread_t,void**)>("pthread_join");
  if (!self) return f(p,r);
  for (sch::T* t : sch::th) if (t->id && pthread_equal(t->real,p)) { self->target=t; self->st=sch::JOINW; sch::before(true); self->st=sch::RUN; int rc=f(p,r); sch::after(true); return rc; }
  return f(p,r);
}
int sched_yield() { if (self && sch::on && !sch::freerun) { self->st=sch::RUN; sch::schedule(true,self); return 0; } static auto f=sch::real<int(*)()>("sched_yield"); return f(); }
int nanosleep(const timespec* a, timespec* b) { if (self && sch::on && !sch::freerun) { self->st=sch::RUN; sch::schedule(true,self); return 0; } static auto f=sch::real<int(*)(const timespec*,timespec*)>("nanosleep"); return f(a,b); }
int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b) { if (self && sch::on && !sch::freerun) { self->st=sch::RUN; sch::schedule(true,self); return 0; } static auto f=sch::real<int(*)(clockid_t,int,const timespec*,timespec*)>("clock_nanosleep"); return f(k,fl,a,b); }
int usleep(useconds_t u) { if (self && sch::on && !sch::freerun) { self->st=sch::RUN; sch::schedule(true,self); return 0; } static auto f=sch::real<int(*)(useconds_t)>("usleep"); return f(u); }
}
void handoff(const json& sc)
{
  typedef rt_solver::RtHQPSolver<8,4,6> S;
  sch::begin(sc);
  json out=json::array();
  {
    std::unique_ptr<S> s(new S{YAML::Node()});
    sch::armed=true;
    for (auto& p : sc["probs"]) {
      int n=p["n"];
      if (p["init"].get<bool>()) s->initialize();
      if (p["ranks"].empty()) continue;
      s->reset(n);
      bool ok=true; json nul=json::array();
      for (auto& r : p["ranks"]) {
        Eigen::MatrixXd B=hmat(r["B"],n), A=hmat(r["A"],n); Eigen::VectorXd b=hvec(r["b"]), a=hvec(r["a"]);
        ok &= s->solveNextTask(B,b,A,a);
        nul.push_back(s->nullspaceDimension());
      }
      Eigen::VectorXd x=s->solution();
      bool size = x.size()==n; if (!size) x=Eigen::VectorXd::Constant(n,NAN);
      out.push_back(json{{"event","solved"},{"ok",ok},{"size",size},{"x",nums(x,1e3)},{"nul",nul},{"ranks",residuals(p,x)}});
    }
  }
  int left=0; for (sch::T* t : sch::th) if (t->id && t->st!=sch::DONE) left++;
  json fin={{"event","end"},{"left",left},{"held",(int)sch::owner.size()},{"misuse",sch::misuse},{"threads",(int)sch::th.size()-1},
            {"slips",sch::slips},{"rest",(int)(sch::picks.size()-sch::pos)},{"free",(bool)sch::freerun}};
  json ops=json::array(); for (sch::T* t : sch::th) ops.push_back(t->ops); fin["ops"]=ops;
  sch::end();
  for (auto& o : out) emit(o);
  emit(fin);
  if (left) _exit(8);
}
int main(int argc, char** argv) { return run(argc, argv, 60, handoff); }
