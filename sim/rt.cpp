#include "rt.h"
#include <fenv.h>
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <dlfcn.h>
#include <link.h>
#include <cpuid.h>
#include <functional>
#include <unordered_map>

Shm* shm=nullptr; ShmCov* covm=nullptr;
const OpEntry* g_ops=nullptr; int g_nops=0;
bool g_scan=false;

// ---------------------------------------------------------------- simulated threads
enum State { RUNNABLE, BLOCKED, STALLED, KILLED, DONE };
struct Frame {
    int64_t stale=0; const Op* op; Frame* parent; uint64_t ticks, next; int64_t nextdec; uintptr_t sp0, splow; uint64_t stack_limit; jmp_buf jb; int depth;
    uint64_t alloc_seq; Rng noise;
    Frame(): noise(0) {}
};
struct SimTh {
    int id; State st; Frame* fr; int incall; uintptr_t stk_lo, stk_hi; std::atomic<int> go; pthread_t th;
    uint64_t blocked_at; const std::vector<Op>* ops; int64_t stall;
};
static SimTh T[MAXTH+1];
static int nT=0;
static __thread SimTh* self=nullptr;
static const Plan* plan=nullptr;
static Rng arng(0);             // adaptive decisions; never drawn from while replaying
static uint64_t g_progress=0;
static uint64_t g_budget=0;
static const uint64_t QUANTUM=100000;
static size_t g_next_handler=0;
static size_t g_next_pick=0;
static std::atomic<int> g_alldone(0);
static bool g_in_plan=false; static int g_fibers=0;
static uintptr_t ro_lo=0, ro_hi=0;
extern "C" { extern char __executable_start; extern char __data_start; extern char data_start; extern char _end; extern char etext; }

// decisions of a uid, in tick order
static std::vector<std::vector<std::pair<int64_t,int> > > decs_of; // uid -> (tick, index)

static void fx(std::atomic<int>* w,int op,int v){ syscall(SYS_futex,(int*)w,op|FUTEX_PRIVATE_FLAG,v,nullptr,nullptr,0); }
static void wait_go(SimTh* t){ while(t->go.load()==0) fx(&t->go,FUTEX_WAIT,0); t->go.store(0); }
static void give(SimTh* t){ t->go.store(1); fx(&t->go,FUTEX_WAKE,1); }

const char* viol_name(int v){ static const char* n[]={"none","value","deadlock","steps","stack","crash","fpenv","errno","io","hang","mode","internal","race","write"}; return v>=0&&v<14?n[v]:"?"; }

static void h(uint64_t x){ shm->hash = mix(shm->hash,x); }

static void access(uintptr_t p,bool wr,size_t n,int kind);
static void __attribute__((noreturn)) violate(int code,int uid,const char* msg){
    shm->viol=code; shm->viol_uid=uid; snprintf(shm->viol_msg,sizeof shm->viol_msg,"%s",msg);
    shm->finished=1; _exit(0);
}

static void log_dec(int uid,int64_t tick,int act,int64_t arg){
    if(shm->ndec<MAXDEC){ Dec& d=shm->dec[shm->ndec++]; d.uid=uid; d.tick=tick; d.act=act; d.arg=arg; }
    if(act<NFIRED) shm->fired[act]++;
    h(((uint64_t)uid<<40)^((uint64_t)tick<<8)^(act<<4)^(uint64_t)arg);
}

struct X87f { uint32_t cw,sw,tw,ip,cs,dp,ds; };
#include "mem.inc"
// ---- control transfer
static bool any_other_runnable(SimTh* t){ for(int i=0;i<nT;i++) if(&T[i]!=t && T[i].st==RUNNABLE) return true; return false; }

static ucontext_t UC[MAXTH+1], UC_main, UC_car[NCAR];
// coroutines that move: each operating-system thread (carrier) runs whichever coroutine it is handed
static std::atomic<int> car_go[NCAR]; static int g_car=0, g_car_next=0; static SimTh* g_car_run=nullptr;
static void car_give(int c){ car_go[c].store(1); fx(&car_go[c],FUTEX_WAKE,1); }
static void fiber_swap(SimTh* from,SimTh* to,int car){
    X87f x; unsigned mx; __asm__ volatile("fnstenv %0":"=m"(x)); __asm__ volatile("stmxcsr %0":"=m"(mx)); static unsigned fl, flx; fl=mx&0x3f; flx=x.sw&0x3f; 
    if(car==g_car){ self=to; swapcontext(&UC[from->id],&UC[to->id]); }
    else { shm->fired[A_MOVED]++; g_car_run=to; g_car_next=car; swapcontext(&UC[from->id],&UC_car[g_car]); }
    if(g_fibers&2){ __asm__ volatile("fnstenv %0":"=m"(x)); x.sw=(x.sw&~0x3fu)|flx; __asm__ volatile("fldenv %0"::"m"(x)); __asm__ volatile("stmxcsr %0":"=m"(mx)); mx=(mx&~0x3fu)|fl; __asm__ volatile("ldmxcsr %0"::"m"(mx)); } }
static void transfer(SimTh* from, SimTh* to, int car=-1){
    if(from==to&&(car<0||car==g_car)) return;
    if(g_fibers){ fiber_swap(from,to,car<0?g_car:car); return; }
    give(to); wait_go(from);
}
static int pick_logged(const std::vector<int>& cand){
    int k;
    if(plan->adaptive) k=cand[arng.below(cand.size())];
    else {
        k=cand[0];
        if(g_next_pick<plan->picks.size()){ int w=plan->picks[g_next_pick]; for(size_t i=0;i<cand.size();i++) if(cand[i]==w) k=w; }
    }
    g_next_pick++;
    if(shm->npick<MAXPICK) shm->picks[shm->npick++]=k;
    h(0xABCD0000u+k);
    return k;
}
// choose somebody else to run; returns null when nobody can
static SimTh* choose_next(SimTh* t,bool allow_blocked){
    std::vector<int> c;
    for(int i=0;i<nT;i++) if(&T[i]!=t && T[i].st==RUNNABLE) c.push_back(i);
    if(c.empty() && allow_blocked) for(int i=0;i<nT;i++) if(&T[i]!=t && T[i].st==BLOCKED && T[i].blocked_at!=g_progress) c.push_back(i);
    if(c.empty()){
        bool blocked=false; for(int i=0;i<nT;i++) if(T[i].st==BLOCKED) blocked=true;
        std::vector<int> s; for(int i=0;i<nT;i++) if(&T[i]!=t && T[i].st==STALLED) s.push_back(i);
        if(!s.empty()){
            if(blocked && plan->stall_is_fatal){ int b=0; for(int i=0;i<nT;i++) if(T[i].st==BLOCKED){b=i;break;} violate(V_DEADLOCK,T[b].fr?T[b].fr->op->uid:-1,"a call waits for a caller that is suspended inside the library"); }
            int k=pick_logged(s); T[k].st=RUNNABLE; return &T[k];
        }
        return nullptr;
    }
    return &T[pick_logged(c)];
}

static void exec_op(SimTh* t,const Op& op);

// a thread cannot go on right now (lock busy): let others run; returns when it should retry
static void block_yield(const char* what){
    SimTh* t=self; shm->lock_waits++; Rt rt(t);
    if(!g_in_plan) violate(V_DEADLOCK,t->fr?t->fr->op->uid:-1,what);
    t->st=BLOCKED; t->blocked_at=g_progress;
    SimTh* n=choose_next(t,true);
    if(!n){ violate(V_DEADLOCK,t->fr?t->fr->op->uid:-1,what); }
    h(0xB10C0000u+t->id);
    transfer(t,n);
    t->st=RUNNABLE;
}

// ---- program life: initialisers of the instrumented translation units (moved to sections of
// their own by build.sh), exit-time destructors and thread-exit destructors run when told to
#define GI(n) extern "C" { extern void (*__start_gceminit##n[])(int,char**,char**) __attribute__((weak)); extern void (*__stop_gceminit##n[])(int,char**,char**) __attribute__((weak)); extern void (*__start_gcemfini##n[])() __attribute__((weak)); extern void (*__stop_gcemfini##n[])() __attribute__((weak)); }
GI(0) GI(1) GI(2) GI(3) GI(4) GI(5) GI(6) GI(7)
typedef void (*InitFn)(int,char**,char**); typedef void (*FiniFn)();
static void section(int g,InitFn*& a,InitFn*& b,FiniFn*& c,FiniFn*& d){ switch(g){
#define GC(n) case n: a=__start_gceminit##n; b=__stop_gceminit##n; c=__start_gcemfini##n; d=__stop_gcemfini##n; break;
 GC(0) GC(1) GC(2) GC(3) GC(4) GC(5) GC(6) GC(7) } }
struct Dtor { void (*fn)(void*); void* arg; int th; bool plain, onexit; };
static Dtor exit_list[4096], th_list[4096]; static int n_exit=0, n_th=0; static bool init_done[NGROUP], fini_done[NGROUP]; static volatile int g_life=0;
struct Key { pthread_key_t k; void (*dtor)(void*); bool live; }; static Key keys[64]; static int n_keys=0; // thread-specific data of the code under test
static void life_init(int g){ if(g<0||g>=NGROUP||init_done[g]) return; init_done[g]=true; InitFn *a=nullptr,*b=nullptr; FiniFn *c,*d; section(g,a,b,c,d); g_life++; static char* none[]={nullptr}; for(;a<b;a++) (*a)(0,none,none); g_life--; }
static void life_exit(int64_t k){ g_life++; if(k<=0||k>n_exit) k=n_exit; while(k-->0&&n_exit>0){ Dtor d=exit_list[--n_exit]; if(d.plain) ((void(*)())d.fn)(); else if(d.onexit) ((void(*)(int,void*))(void*)d.fn)(0,d.arg); else d.fn(d.arg); }
    if(n_exit==0) for(int g=NGROUP;g-->0;){ InitFn *a,*b; FiniFn *c=nullptr,*e=nullptr; section(g,a,b,c,e); if(init_done[g]&&!fini_done[g]){ fini_done[g]=true; while(e>c) (*--e)(); } } g_life--; }
static void life_thread_exit(int id){ g_life++; for(int i=n_th;i-->0;) if(th_list[i].th==id){ Dtor d=th_list[i]; th_list[i].th=-1; d.fn(d.arg); }
    for(int again=1,n=0;again&&n<4;n++){ again=0; for(int i=0;i<n_keys;i++) if(keys[i].live&&keys[i].dtor){ void* v=pthread_getspecific(keys[i].k); if(v){ pthread_setspecific(keys[i].k,nullptr); keys[i].dtor(v); again=1; } } }
    g_life--; }
void rt_run_initialisers(){ for(int g=0;g<NGROUP;g++) life_init(g); }

// the kernel, a correct handler and another thread all leave the FP state and errno of the call alone
struct AsOther { SimTh* t; char fpenv[32]; unsigned mx; int e, ic;
    explicit AsOther(SimTh* t_): t(t_) { e=errno; __asm__ volatile("fnstenv %0":"=m"(fpenv)); __asm__ volatile("stmxcsr %0":"=m"(mx)); unsigned dm=0x1f80; __asm__ volatile("fninit"); __asm__ volatile("ldmxcsr %0"::"m"(dm)); ic=t->incall; t->incall=0; }
    ~AsOther(){ t->incall=ic; __asm__ volatile("fldenv %0"::"m"(fpenv)); __asm__ volatile("ldmxcsr %0"::"m"(mx)); errno=e; } };
static void do_action(SimTh* t,Frame* f,int act,int64_t arg){
    int uid=f->op->uid; int64_t tick=(int64_t)f->ticks;
    if(shm->ndec>=MAXDEC) return;
    switch(act){
    case A_SWITCH: {
        int car=-1; if(g_fibers&4){ car=(int)(arg>>16)-1; if(car>=NCAR) car=NCAR-1; if(car<0) car=-1; } arg&=0xffff; int64_t full=arg|(int64_t)(car+1)<<16;
        if(car>=0&&arg==t->id){ if(car==g_car) return; log_dec(uid,tick,act,full); transfer(t,t,car); break; } // the coroutine itself goes on over there
        if(arg>=nT||T[arg].st!=RUNNABLE||&T[arg]==t){ 
            // stale target: take the lowest runnable other thread
            arg=-1; for(int i=0;i<nT;i++) if(&T[i]!=t&&T[i].st==RUNNABLE){arg=i;break;}
            if(arg<0) return; full=arg|(int64_t)(car+1)<<16; }
        log_dec(uid,tick,act,full); transfer(t,&T[arg],car); break; }
    case A_INTR: {
        const Op* hop=nullptr; for(size_t i=0;i<plan->handlers.size();i++) if(plan->handlers[i].uid==arg) hop=&plan->handlers[i];
        if(!hop||shm->out[hop->uid].status!=ST_NONE||f->depth>=150) return;
        log_dec(uid,tick,act,arg);
        // a handler gets a fresh FP state and preserves errno, as the kernel and any correct handler do
        AsOther other(t);
        exec_op(t,*hop);
        break; }
    case A_INIT: case A_EXIT: case A_TEXIT: { // carried out by another thread, or between calls
        log_dec(uid,tick,act,arg); AsOther other(t); if(act==A_INIT) life_init((int)arg); else if(act==A_EXIT) life_exit(arg); else life_thread_exit(t->id); break; }
    case A_STALE: f->stale=arg; break; // taken by the atomic load at this step
    case A_ABANDON: log_dec(uid,tick,act,0); _longjmp(f->jb,1);
    case A_STALL: {
        if(!any_other_runnable(t)) return;
        log_dec(uid,tick,act,0); t->st=STALLED; SimTh* n=choose_next(t,false); transfer(t,n); t->st=RUNNABLE; break; }
    case A_FORK: { // the process forks: only the forking thread exists in the child, which goes on
        bool any=false; for(int i=0;i<nT;i++) if(&T[i]!=t&&T[i].st!=DONE&&T[i].st!=KILLED) any=true;
        if(!any) return;
        log_dec(uid,tick,act,0); for(int i=0;i<nT;i++) if(&T[i]!=t&&T[i].st!=DONE) T[i].st=KILLED;
        break; }
    case A_KILL: {
        if(!any_other_runnable(t)) return;
        log_dec(uid,tick,act,0); t->st=KILLED; SimTh* n=choose_next(t,false); give(n); for(;;) pause(); }
    }
}

static void set_next(Frame* f){
    uint64_t nx=g_budget+1;
    if(g_in_plan && nT>1){ uint64_t q=(f->ticks/QUANTUM+1)*QUANTUM; if(q<nx) nx=q; }
    if(g_in_plan && f->op->uid<(int)decs_of.size()){
        auto& v=decs_of[f->op->uid];
        if(f->nextdec<(int64_t)v.size()){ uint64_t k=(uint64_t)v[f->nextdec].first; if(k<nx) nx=k; }
    }
    f->next=nx;
}
static void __attribute__((noinline)) slow(SimTh* t,Frame* f){
    Rt rt(t);
    if(f->ticks>g_budget){ char b[160]; snprintf(b,sizeof b,"call still running after %llu steps",(unsigned long long)g_budget); violate(V_STEPS,f->op->uid,b); }
    if(g_in_plan && f->op->uid<(int)decs_of.size()){
        auto& v=decs_of[f->op->uid];
        while(f->nextdec<(int64_t)v.size() && (uint64_t)v[f->nextdec].first<=f->ticks){
            const Dec& d=plan->decs[v[f->nextdec].second]; f->nextdec++;
            do_action(t,f,d.act,d.arg);
        }
    }
    // fairness: a call that runs this long lets the next runnable caller in (fixed rule, not a decision)
    if(g_in_plan && nT>1 && f->ticks%QUANTUM==0){
        for(int k=1;k<nT;k++){ SimTh* o=&T[(t->id+k)%nT]; if(o->st==RUNNABLE){ h(0xFA110000u+o->id); transfer(t,o); break; } }
    }
    set_next(f);
}
// decisions at step 0: before the call begins
static void at_start(SimTh* t,Frame* f){ if(!g_in_plan||f->op->uid>=(int)decs_of.size()) return; auto& v=decs_of[f->op->uid]; while(f->nextdec<(int64_t)v.size()&&v[f->nextdec].first==0){ const Dec& d=plan->decs[v[f->nextdec].second]; f->nextdec++; do_action(t,f,d.act,d.arg); } }
static inline void tick(SimTh* t,Frame* f){ if(++f->ticks>=f->next) slow(t,f); }

static void __attribute__((noinline)) shared_event(SimTh* t,Frame* f,bool wr){
    shm->shared_events++;
    { OpOut& o=shm->out[f->op->uid]; uint32_t k=o.sh_w+o.sh_r; o.sh_at[k<NSHAT/2? k: NSHAT/2+k%(NSHAT/2)]=(uint32_t)f->ticks; if(wr) o.sh_w++; else o.sh_r++; }
    if(!g_in_plan||!plan->adaptive) return;
    Rt rt(t);
    if(shm->ndec>=MAXDEC/2) return; // enough for one run
    if(!arng.chance(plan->p_shared)) return;
    int acts[8],n=0; for(int a=1;a<=6;a++) if(plan->acts&(1u<<a)) acts[n++]=a;
    if(!n) return;
    int a=acts[arng.below(n)];
    int64_t arg=0;
    if(a==A_SWITCH){ std::vector<int> c; for(int i=0;i<nT;i++) if(&T[i]!=t&&T[i].st==RUNNABLE) c.push_back(i); if(g_fibers&4) c.push_back(t->id); if(c.empty()) return; arg=c[arng.below(c.size())]; if(g_fibers&4) arg|=(int64_t)arng.below(NCAR+1)<<16; }
    if(a==A_INTR){ if(g_next_handler>=plan->handlers.size()) return; arg=plan->handlers[g_next_handler++].uid; }
    if((a==A_KILL||a==A_STALL||a==A_FORK)&&!arng.chance(0.2)) return;
    if(a==A_ABANDON&&!arng.chance(0.3)) return;
    do_action(t,f,a,arg);
}
static bool g_readonly=false;
static void refuse_write(Frame* f,uintptr_t p,size_t n){ uintptr_t tp=(uintptr_t)__builtin_thread_pointer(); const char* w= !p? "of a lock, of the heap or of another object of the C library": p>=(uintptr_t)&__executable_start&&p<(uintptr_t)&_end? "of static data": p<tp+4096&&p+(1u<<20)>tp? "of thread-local data": "that is neither its stack nor static or thread-local data";
    char b[200]; snprintf(b,sizeof b,"the call writes memory that is not its own stack: %zu byte(s) %s",n,w); violate(V_WRITE,f->op->uid,b); }
static void access(uintptr_t p,bool wr,size_t n,int kind){
    SimTh* t=self; if(!t||!t->incall) return;
    Frame* f=t->fr;
    if(p>=t->stk_lo&&p<t->stk_hi) return;
    if(p>=ro_lo&&p<ro_hi) return;
    if(p==(uintptr_t)&environ) shm->out[f->op->uid].clock++;
    if(wr&&g_readonly) refuse_write(f,p,n);
    tick(t,f); shared_event(t,f,wr); if(g_mem) mem_access(t,p,n,kind|(wr?K_WRITE:K_READ));
}

// ---------------------------------------------------------------- compiler callbacks
#define HID extern "C" __attribute__((used,visibility("default")))
HID void __sanitizer_cov_trace_pc(){
    SimTh* t=self; if(!t||!t->incall) return;
    Frame* f=t->fr;
    uintptr_t sp=(uintptr_t)__builtin_frame_address(0);
    if(sp<f->splow){ f->splow=sp; if(f->sp0-sp>f->stack_limit){ char b[120]; snprintf(b,sizeof b,"call needs more than %llu KiB of stack",(unsigned long long)(f->stack_limit>>10)); violate(V_STACK,f->op->uid,b);} }
    if(g_scan){ uintptr_t pc=(uintptr_t)__builtin_return_address(0); covm->cov[(pc*0x9E3779B1u>>8)&(COVSZ-1)]=1; }
    g_progress++;
    tick(t,f);
}
static void cmpd(uint64_t pc,double a,double b){
    if(!g_scan) return;
    SimTh* t=self; if(!t||!t->incall) return;
    CmpSlot& s=covm->cmp[(pc*0x9E3779B97F4A7C15ull>>40)&(CMPSZ-1)];
    if(s.pc!=pc){ if(s.pc&&s.n>3) return; s.pc=pc; s.a=a; s.b=b; s.n=1; s.ca=s.cb=1; return; }
    if(s.n<1000) s.n++;
    if(!(s.a==a)) { s.ca=0; s.a=a; } if(!(s.b==b)) { s.cb=0; s.b=b; }
}
#define RA ((uint64_t)(uintptr_t)__builtin_return_address(0))
HID void __sanitizer_cov_trace_cmpd(double a,double b){ cmpd(RA,a,b); }
HID void __sanitizer_cov_trace_cmpf(float a,float b){ cmpd(RA,a,b); }
HID void __sanitizer_cov_trace_cmp1(uint8_t,uint8_t){}
HID void __sanitizer_cov_trace_cmp2(uint16_t,uint16_t){}
HID void __sanitizer_cov_trace_cmp4(uint32_t a,uint32_t b){ cmpd(RA,(int32_t)a,(int32_t)b); }
HID void __sanitizer_cov_trace_cmp8(uint64_t a,uint64_t b){ cmpd(RA,(double)(int64_t)a,(double)(int64_t)b); }
HID void __sanitizer_cov_trace_const_cmp1(uint8_t,uint8_t){}
HID void __sanitizer_cov_trace_const_cmp2(uint16_t,uint16_t){}
HID void __sanitizer_cov_trace_const_cmp4(uint32_t a,uint32_t b){ cmpd(RA,(int32_t)a,(int32_t)b); }
HID void __sanitizer_cov_trace_const_cmp8(uint64_t a,uint64_t b){ cmpd(RA,(double)(int64_t)a,(double)(int64_t)b); }
HID void __sanitizer_cov_trace_switch(uint64_t,uint64_t*){}
HID void __sanitizer_cov_trace_div4(uint32_t){} HID void __sanitizer_cov_trace_div8(uint64_t){} HID void __sanitizer_cov_trace_gep(uintptr_t){}
HID void __tsan_init(){} HID void __tsan_func_entry(void*){} HID void __tsan_func_exit(){}
#define RW(n) HID void __tsan_read##n(void*p){access((uintptr_t)p,false,n,0);} HID void __tsan_write##n(void*p){access((uintptr_t)p,true,n,0);} \
 HID void __tsan_unaligned_read##n(void*p){access((uintptr_t)p,false,n,0);} HID void __tsan_unaligned_write##n(void*p){access((uintptr_t)p,true,n,0);} \
 HID void __tsan_volatile_read##n(void*p){access((uintptr_t)p,false,n,0);} HID void __tsan_volatile_write##n(void*p){access((uintptr_t)p,true,n,0);} \
 HID void __tsan_read_write##n(void*p){access((uintptr_t)p,true,n,0);} HID void __tsan_unaligned_read_write##n(void*p){access((uintptr_t)p,true,n,0);}
RW(1) RW(2) RW(4) RW(8) RW(16)
HID void __tsan_read_range(void*p,long n){access((uintptr_t)p,false,n,0);} HID void __tsan_write_range(void*p,long n){access((uintptr_t)p,true,n,0);}
HID void __tsan_vptr_update(void**p,void*){access((uintptr_t)p,true,8,0);} HID void __tsan_vptr_read(void**p){access((uintptr_t)p,false,8,0);}
HID void* __tsan_memcpy(void*d,const void*s,size_t n){access((uintptr_t)s,false,n,0);access((uintptr_t)d,true,n,0);return memcpy(d,s,n);}
HID void* __tsan_memmove(void*d,const void*s,size_t n){access((uintptr_t)s,false,n,0);access((uintptr_t)d,true,n,0);return memmove(d,s,n);}
HID void* __tsan_memset(void*d,int c,size_t n){access((uintptr_t)d,true,n,0);return memset(d,c,n);}
// explicit copies and fills of the code under test come here too (moveinit.sh)
static inline void bulk(size_t n){ SimTh* t=self; if(t&&t->incall) t->fr->ticks+=n/32; } // large ones cost in proportion
HID void* sim_memcpy(void*d,const void*s,size_t n){bulk(n);access((uintptr_t)s,false,n,0);access((uintptr_t)d,true,n,0);return memcpy(d,s,n);}
HID void* sim_memmove(void*d,const void*s,size_t n){bulk(n);access((uintptr_t)s,false,n,0);access((uintptr_t)d,true,n,0);return memmove(d,s,n);}
HID void* sim_memset(void*d,int c,size_t n){bulk(n);access((uintptr_t)d,true,n,0);return memset(d,c,n);}
HID int sim_memcmp(const void*a,const void*b,size_t n){bulk(n);access((uintptr_t)a,false,n,0);access((uintptr_t)b,false,n,0);return memcmp(a,b,n);}
#define AT(n,ty) \
HID ty __tsan_atomic##n##_load(const volatile ty*a,int o){return at_load(a,o);} \
HID void __tsan_atomic##n##_store(volatile ty*a,ty v,int o){at_store(a,v,o);} \
HID ty __tsan_atomic##n##_exchange(volatile ty*a,ty v,int o){return at_rmw(a,o,[=](ty){return v;});} \
HID ty __tsan_atomic##n##_fetch_add(volatile ty*a,ty v,int o){return at_rmw(a,o,[=](ty w){return (ty)(w+v);});} \
HID ty __tsan_atomic##n##_fetch_sub(volatile ty*a,ty v,int o){return at_rmw(a,o,[=](ty w){return (ty)(w-v);});} \
HID ty __tsan_atomic##n##_fetch_and(volatile ty*a,ty v,int o){return at_rmw(a,o,[=](ty w){return (ty)(w&v);});} \
HID ty __tsan_atomic##n##_fetch_or(volatile ty*a,ty v,int o){return at_rmw(a,o,[=](ty w){return (ty)(w|v);});} \
HID ty __tsan_atomic##n##_fetch_xor(volatile ty*a,ty v,int o){return at_rmw(a,o,[=](ty w){return (ty)(w^v);});} \
HID ty __tsan_atomic##n##_fetch_nand(volatile ty*a,ty v,int o){return at_rmw(a,o,[=](ty w){return (ty)~(w&v);});} \
HID int __tsan_atomic##n##_compare_exchange_strong(volatile ty*a,ty*c,ty v,int o,int fo){return at_cas(a,c,v,o,fo);} \
HID int __tsan_atomic##n##_compare_exchange_weak(volatile ty*a,ty*c,ty v,int o,int fo){return at_cas(a,c,v,o,fo);} \
HID ty __tsan_atomic##n##_compare_exchange_val(volatile ty*a,ty c,ty v,int o,int fo){at_cas(a,&c,v,o,fo);return c;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
typedef unsigned __int128 u128; AT(128,u128)
HID void __tsan_atomic_thread_fence(int o){ SimTh* t=self; if(t&&t->incall) mem_fence(t,o); } HID void __tsan_atomic_signal_fence(int){}

// ---------------------------------------------------------------- seams: heap
static inline SimTh* incall(){ SimTh* t=self; return (t&&t->incall)?t:nullptr; }
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
static bool alloc_fails(SimTh* t){
    Frame* f=t->fr; if(g_readonly) refuse_write(f,0,0); OpOut& o=shm->out[f->op->uid]; o.allocs++; uint64_t k=f->alloc_seq++;
    bool fail=false; switch(f->op->env.alloc){ case 1: fail=true; break; case 2: fail=(k==0); break; case 3: fail=f->noise.chance(0.5); break; }
    if(fail){ o.alloc_failed++; shm->alloc_failed++; errno=ENOMEM; }
    return fail;
}
// Blocks the code under test gets come from an arena at a fixed address, so that neither
// addresses nor leftover contents depend on what the simulator itself did before.
static const uintptr_t HEAP0=0x31000000000ull; static const size_t HEAPSZ=8ull<<30;
static uintptr_t heap_top=0; static uintptr_t heap_free[40]; static bool heap_map=false;
static bool in_arena(const void* p){ return (uintptr_t)p>=HEAP0&&(uintptr_t)p<HEAP0+HEAPSZ; }
static int size_class(size_t n){ int c=5; while(((size_t)1<<c)<n) c++; return c; }
static uint32_t heap_dirt(SimTh* t){ return t&&t->fr? t->fr->op->env.dirty: 0; }
static void* arena_alloc(SimTh* t,size_t al,size_t n){
    if(!heap_map||n>(1ull<<34)) return nullptr;
    if(al<16) al=16; int c=size_class(n+al+16); uintptr_t b;
    if(c<40&&heap_free[c]){ b=heap_free[c]; heap_free[c]=*(uintptr_t*)b; }
    else { b=heap_top; if(b+((uintptr_t)1<<c)>HEAP0+HEAPSZ) return nullptr; heap_top+=(uintptr_t)1<<c; }
    uintptr_t p=(b+16+al-1)&~(uintptr_t)(al-1); ((uintptr_t*)p)[-1]=(uintptr_t)c; ((uintptr_t*)p)[-2]=b; if(t&&t->incall) mem_fresh(t,b,(size_t)1<<c);
    uint32_t d=heap_dirt(t); unsigned char* q=(unsigned char*)p; size_t m=std::min<size_t>(n,4096); Rng r(d*7919u+13);
    for(size_t i=0;i<m;i++) q[i]= !d?0: d%4==0?0xff: d%4==1?0x3f: d%4==2?0x00:(unsigned char)r.next();
    return (void*)p; }
static void arena_free(void* p){ uintptr_t c=((uintptr_t*)p)[-1], b=((uintptr_t*)p)[-2]; memset(p,0x77,std::min<size_t>(b+((uintptr_t)1<<c)-(uintptr_t)p,65536)); /* freed memory does not keep its contents */ *(uintptr_t*)b=heap_free[c]; heap_free[c]=b; }
static size_t arena_size(void* p){ uintptr_t c=((uintptr_t*)p)[-1], b=((uintptr_t*)p)[-2]; return b+((uintptr_t)1<<c)-(uintptr_t)p; }
HID void* malloc(size_t n){ SimTh* t=incall(); if(!t&&g_life&&heap_map) return arena_alloc(self,16,n); if(!t) return __libc_malloc(n); if(alloc_fails(t)) return nullptr; return arena_alloc(t,16,n); }
HID void free(void*p){ if(in_arena(p)) arena_free(p); else __libc_free(p); }
HID void* calloc(size_t a,size_t b){ SimTh* t=incall(); bool life=!t&&g_life&&heap_map; if(!t&&!life) return __libc_calloc(a,b); if(t&&alloc_fails(t)) return nullptr; size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; void* p=arena_alloc(t,16,n); if(p) memset(p,0,n); return p; }
HID void* realloc(void*p,size_t n){ SimTh* t=incall(); if(!t&&!in_arena(p)) return __libc_realloc(p,n); if(t&&alloc_fails(t)) return nullptr;
    void* q=(t||(g_life&&heap_map))?arena_alloc(t,16,n):__libc_malloc(n); if(!q) return nullptr; if(p){ if(in_arena(p)){ memcpy(q,p,std::min(n,arena_size(p))); } else memcpy(q,p,n); free(p); } return q; }
HID void* memalign(size_t a,size_t n){ SimTh* t=incall(); if(!t&&g_life&&heap_map) return arena_alloc(self,a,n); if(!t) return __libc_memalign(a,n); if(alloc_fails(t)) return nullptr; return arena_alloc(t,a,n); }
HID void* aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
HID int posix_memalign(void**o,size_t a,size_t n){ void* p=memalign(a,n); if(!p) return ENOMEM; *o=p; return 0; }

// ---------------------------------------------------------------- seams: locks
// resolved eagerly: no function-local statics through our own guard functions
static int (*r_mlock)(pthread_mutex_t*); static int (*r_mtry)(pthread_mutex_t*); static int (*r_munlock)(pthread_mutex_t*);
static int (*r_rdtry)(pthread_rwlock_t*); static int (*r_wrtry)(pthread_rwlock_t*); static int (*r_rd)(pthread_rwlock_t*); static int (*r_wr)(pthread_rwlock_t*);
static int (*r_spin)(pthread_spinlock_t*); static int (*r_spintry)(pthread_spinlock_t*);
static int (*r_once)(pthread_once_t*,void(*)());
static int (*r_cgt)(clockid_t,struct timespec*); static int (*r_gtod)(struct timeval*,void*); static time_t (*r_time)(time_t*); static clock_t (*r_clock)();
static int (*r_nanosleep)(const struct timespec*,struct timespec*); static int (*r_cnanosleep)(clockid_t,int,const struct timespec*,struct timespec*); static int (*r_usleep)(useconds_t); static unsigned (*r_sleep)(unsigned); static int (*r_yield)();
static int (*r_rand)(); static long (*r_random)(); static char* (*r_getenv)(const char*); static char* (*r_sgetenv)(const char*); static ssize_t (*r_getrandom)(void*,size_t,unsigned); static int (*r_getentropy)(void*,size_t);
template<class F> static void res(F& f,const char* n){ f=(F)dlsym(RTLD_NEXT,n); }
static void resolve(){
    res(r_mlock,"pthread_mutex_lock"); res(r_mtry,"pthread_mutex_trylock"); res(r_munlock,"pthread_mutex_unlock");
    res(r_rdtry,"pthread_rwlock_tryrdlock"); res(r_wrtry,"pthread_rwlock_trywrlock"); res(r_rd,"pthread_rwlock_rdlock"); res(r_wr,"pthread_rwlock_wrlock");
    res(r_spin,"pthread_spin_lock"); res(r_spintry,"pthread_spin_trylock"); res(r_once,"pthread_once");
    res(r_cgt,"clock_gettime"); res(r_gtod,"gettimeofday"); res(r_time,"time"); res(r_clock,"clock");
    res(r_nanosleep,"nanosleep"); res(r_cnanosleep,"clock_nanosleep"); res(r_usleep,"usleep"); res(r_sleep,"sleep"); res(r_yield,"sched_yield");
    res(r_rand,"rand"); res(r_random,"random"); res(r_getenv,"getenv"); res(r_sgetenv,"secure_getenv"); res(r_getrandom,"getrandom"); res(r_getentropy,"getentropy");
}
// a lock operation is a scheduling point, then the lock is taken without ever blocking the real thread
static void lock_point(SimTh* t,bool wr){ if(wr&&g_readonly) refuse_write(t->fr,0,0); shm->out[t->fr->op->uid].locks++; tick(t,t->fr); shared_event(t,t->fr,wr); }
HID int pthread_mutex_trylock(pthread_mutex_t*m){ SimTh* t=incall(); if(t) lock_point(t,true); if(!r_mtry) res(r_mtry,"pthread_mutex_trylock"); int r=r_mtry(m); if(t&&!r) mem_acquire(t,m); return r; }
HID int pthread_mutex_lock(pthread_mutex_t*m){ SimTh* t=incall(); if(!t){ if(!r_mlock) res(r_mlock,"pthread_mutex_lock"); return r_mlock(m);} lock_point(t,true); for(;;){ int r=r_mtry(m); if(r!=EBUSY){ mem_acquire(t,m); return r; } block_yield("a call waits for a lock held by a caller that cannot release it"); } }
HID int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*) { return pthread_mutex_lock(m); }
HID int pthread_mutex_unlock(pthread_mutex_t*m){ SimTh* t=incall(); if(t){ lock_point(t,true); mem_release(t,m); } if(!r_munlock) res(r_munlock,"pthread_mutex_unlock"); return r_munlock(m); }
HID int pthread_rwlock_tryrdlock(pthread_rwlock_t*m){ SimTh* t=incall(); if(t) lock_point(t,true); if(!r_rdtry) res(r_rdtry,"pthread_rwlock_tryrdlock"); int r=r_rdtry(m); if(t&&!r) mem_acquire(t,m); return r; }
HID int pthread_rwlock_trywrlock(pthread_rwlock_t*m){ SimTh* t=incall(); if(t) lock_point(t,true); if(!r_wrtry) res(r_wrtry,"pthread_rwlock_trywrlock"); int r=r_wrtry(m); if(t&&!r) mem_acquire(t,m); return r; }
HID int pthread_rwlock_rdlock(pthread_rwlock_t*m){ SimTh* t=incall(); if(!t){ if(!r_rd) res(r_rd,"pthread_rwlock_rdlock"); return r_rd(m);} lock_point(t,true); for(;;){ int r=r_rdtry(m); if(r!=EBUSY&&r!=EAGAIN){ mem_acquire(t,m); return r; } block_yield("a call waits for a read lock"); } }
HID int pthread_rwlock_wrlock(pthread_rwlock_t*m){ SimTh* t=incall(); if(!t){ if(!r_wr) res(r_wr,"pthread_rwlock_wrlock"); return r_wr(m);} lock_point(t,true); for(;;){ int r=r_wrtry(m); if(r!=EBUSY){ mem_acquire(t,m); return r; } block_yield("a call waits for a write lock"); } }
static int (*r_rwun)(pthread_rwlock_t*); HID int pthread_rwlock_unlock(pthread_rwlock_t*m){ SimTh* t=incall(); if(t){ lock_point(t,true); mem_release(t,m); } if(!r_rwun) res(r_rwun,"pthread_rwlock_unlock"); return r_rwun(m); }
HID int pthread_spin_lock(pthread_spinlock_t*m){ SimTh* t=incall(); if(!t){ if(!r_spin) res(r_spin,"pthread_spin_lock"); return r_spin(m);} lock_point(t,true); for(;;){ int r=r_spintry(m); if(r!=EBUSY){ mem_acquire(t,(const void*)m); return r; } block_yield("a call spins on a lock"); } }
HID int pthread_spin_trylock(pthread_spinlock_t*m){ SimTh* t=incall(); if(t) lock_point(t,true); if(!r_spintry) res(r_spintry,"pthread_spin_trylock"); int r=r_spintry(m); if(t&&!r) mem_acquire(t,(const void*)m); return r; }
static int (*r_spinun)(pthread_spinlock_t*); HID int pthread_spin_unlock(pthread_spinlock_t*m){ SimTh* t=incall(); if(t){ lock_point(t,true); mem_release(t,(const void*)m); } if(!r_spinun) res(r_spinun,"pthread_spin_unlock"); return r_spinun(m); }
static int (*r_cw)(pthread_cond_t*,pthread_mutex_t*); static int (*r_ctw)(pthread_cond_t*,pthread_mutex_t*,const struct timespec*);
static int cond_point(SimTh* t,pthread_mutex_t*m){ // a spurious wake-up is always allowed
    lock_point(t,true); mem_release(t,m); r_munlock(m); block_yield("a call waits for a condition nobody will signal"); for(;;){ int r=r_mtry(m); if(r!=EBUSY){ mem_acquire(t,m); return r; } block_yield("a call waits for a lock held by a caller that cannot release it"); } }
HID int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ SimTh* t=incall(); if(!t){ if(!r_cw) res(r_cw,"pthread_cond_wait"); return r_cw(c,m);} return cond_point(t,m); }
HID int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*ts){ SimTh* t=incall(); if(!t){ if(!r_ctw) res(r_ctw,"pthread_cond_timedwait"); return r_ctw(c,m,ts);} cond_point(t,m); return ETIMEDOUT; }
// large atomics go through these; one simulated step each
extern "C" {
void sim_aload(size_t n,const void* p,void* o,int) __asm__("__atomic_load"); void sim_astore(size_t n,void* p,const void* v,int) __asm__("__atomic_store");
void sim_axchg(size_t n,void* p,const void* v,void* o,int) __asm__("__atomic_exchange"); bool sim_acas(size_t n,void* p,void* e,const void* v,int,int) __asm__("__atomic_compare_exchange");
unsigned __int128 sim_aload16(const void* p,int) __asm__("__atomic_load_16"); void sim_astore16(void* p,unsigned __int128 v,int) __asm__("__atomic_store_16"); unsigned __int128 sim_axchg16(void* p,unsigned __int128 v,int) __asm__("__atomic_exchange_16"); bool sim_acas16(void* p,void* e,unsigned __int128 v,int,int) __asm__("__atomic_compare_exchange_16"); }
static SimTh* big_point(const void* p,bool wr,size_t n){ access((uintptr_t)p,wr,n,K_ATOMIC); SimTh* t=self; if(!g_mem||!t||!t->incall) return nullptr; mem_acquire(t,p); if(wr) mem_release(t,p); return t; }
HID void sim_aload(size_t n,const void* p,void* o,int){ big_point(p,false,n); memcpy(o,p,n); }
HID void sim_astore(size_t n,void* p,const void* v,int){ big_point(p,true,n); memcpy(p,v,n); }
HID void sim_axchg(size_t n,void* p,const void* v,void* o,int){ big_point(p,true,n); memcpy(o,p,n); memcpy(p,v,n); }
HID bool sim_acas(size_t n,void* p,void* e,const void* v,int,int){ big_point(p,true,n); if(!memcmp(p,e,n)){ memcpy(p,v,n); return true; } memcpy(e,p,n); return false; }
HID unsigned __int128 sim_aload16(const void* p,int o){ return at_load((const volatile u128*)p,o); }
HID void sim_astore16(void* p,unsigned __int128 v,int o){ at_store((volatile u128*)p,(u128)v,o); }
HID unsigned __int128 sim_axchg16(void* p,unsigned __int128 v,int o){ return at_rmw((volatile u128*)p,o,[=](u128){ return (u128)v; }); }
HID bool sim_acas16(void* p,void* e,unsigned __int128 v,int o,int fo){ return at_cas((volatile u128*)p,(u128*)e,(u128)v,o,fo); }
// once / guards: 0 untouched, running, done
HID int pthread_once(pthread_once_t*c,void(*f)()){
    SimTh* t=incall(); if(!t){ if(!r_once) res(r_once,"pthread_once"); return r_once(c,f); }
    lock_point(t,true); volatile int* v=(volatile int*)c;
    while((*v&3)==1) block_yield("a call waits for a one-time initialisation that is not finishing");
    if((*v&2)){ mem_acquire(t,c); return 0; }
    *v=1; f(); lock_point(t,true); mem_release(t,c); *v=2; return 0; }
HID int __cxa_guard_acquire(uint64_t* g){ unsigned char* b=(unsigned char*)g; SimTh* t=incall();
    if(t) lock_point(t,true);
    if(__atomic_load_n(&b[0],__ATOMIC_ACQUIRE)){ if(t) mem_acquire(t,g); return 0; }
    while(b[1]){ if(!t) abort(); block_yield("a call waits for a static initialisation that is not finishing"); if(b[0]){ mem_acquire(t,g); return 0; } }
    b[1]=1; if(t) mem_acquire(t,g); return 1; }
HID void __cxa_guard_release(uint64_t* g){ unsigned char* b=(unsigned char*)g; SimTh* t=incall(); if(t){ lock_point(t,true); mem_release(t,g); if(g_mem) mem_astore(t,(uintptr_t)g,0,1,3,false); } b[1]=0; __atomic_store_n(&b[0],1,__ATOMIC_RELEASE); }
HID void __cxa_guard_abort(uint64_t* g){ ((unsigned char*)g)[1]=0; }

// ---------------------------------------------------------------- seams: exit-time and thread-exit destructors
extern "C" int __cxa_thread_atexit_impl(void(*)(void*),void*,void*);
static int (*r_catexit)(void(*)(void*),void*,void*); static int (*r_atexit)(void(*)());
static int keep_exit(void(*f)(void*),void* a,bool plain){ if(n_exit>=4096) return -1; Dtor& d=exit_list[n_exit++]; d.fn=f; d.arg=a; d.plain=plain; d.onexit=false; d.th=-1; return 0; }
HID int __cxa_atexit(void(*f)(void*),void* a,void* dso) noexcept { if(g_life||incall()) return keep_exit(f,a,false); if(!r_catexit) res(r_catexit,"__cxa_atexit"); return r_catexit(f,a,dso); }
HID int atexit(void(*f)()) noexcept { if(g_life||incall()) return keep_exit((void(*)(void*))f,nullptr,true); return __cxa_atexit((void(*)(void*))f,nullptr,nullptr); }
HID int __cxa_thread_atexit(void(*f)(void*),void* a,void* dso) noexcept { if(g_life||incall()){ if(n_th>=4096) return -1; Dtor& d=th_list[n_th++]; d.fn=f; d.arg=a; d.plain=false; d.th=self?self->id:-1; return 0; } return __cxa_thread_atexit_impl(f,a,dso); }

static int (*r_onexit)(void(*)(int,void*),void*); extern "C" { __attribute__((used,visibility("default"))) int sim_onexit(void(*f)(int,void*),void* a) __asm__("on_exit"); }
int sim_onexit(void(*f)(int,void*),void* a){ if((g_life||incall())&&n_exit<4096){ Dtor& d=exit_list[n_exit++]; d.fn=(void(*)(void*))(void*)f; d.arg=a; d.plain=false; d.onexit=true; d.th=-1; return 0; } if(!r_onexit) res(r_onexit,"on_exit"); return r_onexit?r_onexit(f,a):-1; }
static int (*r_key)(pthread_key_t*,void(*)(void*)); static int (*r_keydel)(pthread_key_t); static int (*r_qexit)(void(*)());
HID int pthread_key_create(pthread_key_t* k,void(*f)(void*)) noexcept { if(!r_key) res(r_key,"pthread_key_create"); if(!(g_life||incall())||n_keys>=64) return r_key(k,f); int r=r_key(k,nullptr); if(!r){ keys[n_keys].k=*k; keys[n_keys].dtor=f; keys[n_keys].live=true; n_keys++; } return r; }
HID int pthread_key_delete(pthread_key_t k) noexcept { for(int i=0;i<n_keys;i++) if(keys[i].live&&keys[i].k==k) keys[i].live=false; if(!r_keydel) res(r_keydel,"pthread_key_delete"); return r_keydel(k); }
extern "C" { __attribute__((used,visibility("default"))) int sim_qexit(void(*f)()) __asm__("at_quick_exit"); }
int sim_qexit(void(*f)()) { if(g_life||incall()) return keep_exit((void(*)(void*))f,nullptr,true); if(!r_qexit) res(r_qexit,"at_quick_exit"); return r_qexit?r_qexit(f):-1; }

// ---------------------------------------------------------------- seams: clock, sleep, randomness, environment
static uint64_t sim_clock(SimTh* t){ Frame* f=t->fr; shm->out[f->op->uid].clock++; shm->clock_reads++;
    uint32_t n=f->op->env.noise; if(!n) return 1700000000ull*1000000000ull + f->ticks;
    // jumps forwards and backwards
    return 946684800ull*1000000000ull + f->noise.below(1000000000ull)*1000000000ull + f->noise.below(1000000000ull); }
HID int clock_gettime(clockid_t c,struct timespec* ts){ SimTh* t=incall(); if(!t){ if(!r_cgt) res(r_cgt,"clock_gettime"); return r_cgt(c,ts);} uint64_t v=sim_clock(t); ts->tv_sec=v/1000000000ull; ts->tv_nsec=v%1000000000ull; return 0; }
HID int gettimeofday(struct timeval* tv,void* z) noexcept { SimTh* t=incall(); if(!t) return r_gtod(tv,z); uint64_t v=sim_clock(t); tv->tv_sec=v/1000000000ull; tv->tv_usec=v%1000000000ull/1000; return 0; }
HID time_t time(time_t* o) noexcept { SimTh* t=incall(); if(!t) return r_time(o); time_t v=sim_clock(t)/1000000000ull; if(o)*o=v; return v; }
HID clock_t clock() noexcept { SimTh* t=incall(); if(!t) return r_clock(); return (clock_t)(sim_clock(t)/1000); }
static void sim_sleep(SimTh* t){ shm->out[t->fr->op->uid].clock++; lock_point(t,true); if(g_in_plan&&any_other_runnable(t)){ SimTh* n=choose_next(t,false); if(n) transfer(t,n); } }
HID int nanosleep(const struct timespec*a,struct timespec*b){ SimTh* t=incall(); if(!t) return r_nanosleep(a,b); sim_sleep(t); return 0; }
HID int clock_nanosleep(clockid_t c,int f,const struct timespec*a,struct timespec*b){ SimTh* t=incall(); if(!t) return r_cnanosleep(c,f,a,b); sim_sleep(t); return 0; }
HID int usleep(useconds_t u){ SimTh* t=incall(); if(!t) return r_usleep(u); sim_sleep(t); return 0; }
HID unsigned sleep(unsigned u){ SimTh* t=incall(); if(!t) return r_sleep(u); sim_sleep(t); return 0; }
HID int sched_yield() noexcept { SimTh* t=incall(); if(!t) return r_yield(); sim_sleep(t); return 0; }
static uint64_t sim_rand(SimTh* t){ Frame* f=t->fr; if(g_readonly) refuse_write(f,0,0); shm->out[f->op->uid].clock++; return f->noise.next(); }
HID int rand() noexcept { SimTh* t=incall(); if(!t) return r_rand(); return (int)(sim_rand(t)&0x7fffffff); }
HID long random() noexcept { SimTh* t=incall(); if(!t) return r_random(); return (long)(sim_rand(t)&0x7fffffff); }
HID ssize_t getrandom(void* p,size_t n,unsigned fl){ SimTh* t=incall(); if(!t) return r_getrandom(p,n,fl); for(size_t i=0;i<n;i++) ((char*)p)[i]=(char)sim_rand(t); return n; }
HID int getentropy(void* p,size_t n) noexcept { SimTh* t=incall(); if(!t) return r_getentropy(p,n); for(size_t i=0;i<n;i++) ((char*)p)[i]=(char)sim_rand(t); return 0; }
static char* sim_getenv(SimTh* t){ shm->out[t->fr->op->uid].clock++; static char vals[4][8]={"1","0","yes","debug"}; if(!t->fr->op->env.noise) return nullptr; return vals[t->fr->noise.below(4)]; }
HID char* getenv(const char* n) noexcept { SimTh* t=incall(); if(!t){ if(!r_getenv) res(r_getenv,"getenv"); return r_getenv(n);} return sim_getenv(t); }
HID char* secure_getenv(const char* n) noexcept { SimTh* t=incall(); if(!t){ if(!r_sgetenv) res(r_sgetenv,"secure_getenv"); return r_sgetenv(n);} return sim_getenv(t); }

// process identity and placement, the C++ random device
static pid_t (*r_getpid)(); static pid_t (*r_gettid)(); static int (*r_getcpu)();
HID pid_t getpid() noexcept { SimTh* t=incall(); if(!t){ if(!r_getpid) res(r_getpid,"getpid"); return r_getpid(); } shm->out[t->fr->op->uid].clock++; uint32_t n=t->fr->op->env.noise; return n? (pid_t)(2+mix(n,77)%30000): 4242; }
HID pid_t gettid() noexcept { SimTh* t=incall(); if(!t){ if(!r_gettid) res(r_gettid,"gettid"); return r_gettid(); } shm->out[t->fr->op->uid].clock++; uint32_t n=t->fr->op->env.noise; return n? (pid_t)(2+mix(n,78)%30000): 4242+(g_fibers?g_car:t->id); }
HID int sched_getcpu() noexcept { SimTh* t=incall(); if(!t){ if(!r_getcpu) res(r_getcpu,"sched_getcpu"); return r_getcpu(); } shm->out[t->fr->op->uid].clock++; uint32_t n=t->fr->op->env.noise; return n? (int)(t->fr->noise.below(64)): g_fibers?g_car:t->id; }
// whoever asks who, where and how loaded the process is gets an answer from the seed
static uint64_t sim_ident(SimTh* t,uint64_t tag,uint64_t usual,uint64_t lo,uint64_t span){ shm->out[t->fr->op->uid].clock++; uint32_t n=t->fr->op->env.noise; return n? lo+mix(n,tag)%span: usual; }
// the floating-point environment is read and changed in steps of their own (moveinit.sh, fenvseam.h):
// something else can run between any two of them, and between them and the arithmetic
struct FePoint { SimTh* t; FePoint(){ go(); } ~FePoint(){ go(); } void go(){ t=incall(); if(t){ tick(t,t->fr); shared_event(t,t->fr,true); } } };
#define FE1(ret,name,ty) HID ret sim_##name(ty a){ FePoint p; return name(a); }
FE1(int,feclearexcept,int) FE1(int,feraiseexcept,int) FE1(int,fetestexcept,int) FE1(int,fesetround,int) FE1(int,fegetenv,fenv_t*) FE1(int,feholdexcept,fenv_t*) FE1(int,fesetenv,const fenv_t*) FE1(int,feupdateenv,const fenv_t*) FE1(int,feenableexcept,int) FE1(int,fedisableexcept,int) FE1(int,fesetexcept,int) FE1(int,fegetmode,femode_t*) FE1(int,fesetmode,const femode_t*)
HID int sim_fegetround(){ FePoint p; return fegetround(); }
HID int sim_fegetexcept(){ FePoint p; return fegetexcept(); }
HID int sim_fegetexceptflag(fexcept_t* f,int e){ FePoint p; return fegetexceptflag(f,e); }
HID int sim_fesetexceptflag(const fexcept_t* f,int e){ FePoint p; return fesetexceptflag(f,e); }
HID int sim_fetestexceptflag(const fexcept_t* f,int e){ FePoint p; return fetestexceptflag(f,e); }
HID unsigned sim_getcsr(){ FePoint p; unsigned m; __asm__ volatile("stmxcsr %0":"=m"(m)); return m; }
HID void sim_setcsr(unsigned m){ FePoint p; __asm__ volatile("ldmxcsr %0"::"m"(m)); }

#define IDENT(ret,name,tag,usual,lo,span) static ret (*r_##name)(); HID ret name() noexcept { SimTh* t=incall(); if(!t){ if(!r_##name) res(r_##name,#name); return r_##name(); } return (ret)sim_ident(t,tag,usual,lo,span); }
IDENT(pid_t,getppid,81,4241,1,30000) IDENT(uid_t,getuid,82,1000,0,70000) IDENT(uid_t,geteuid,83,1000,0,70000) IDENT(gid_t,getgid,84,1000,0,70000) IDENT(gid_t,getegid,85,1000,0,70000)
IDENT(int,get_nprocs,86,8,1,128) IDENT(int,get_nprocs_conf,87,8,1,128) IDENT(int,getpagesize,88,4096,1,65536)
static long (*r_sysconf)(int); HID long sysconf(int k) noexcept { SimTh* t=incall(); if(!t){ if(!r_sysconf) res(r_sysconf,"sysconf"); return r_sysconf(k); } return (long)sim_ident(t,1000+(uint64_t)k,4,1,100000); }
static unsigned long (*r_getauxval)(unsigned long); HID unsigned long getauxval(unsigned long k) noexcept { SimTh* t=incall(); if(!t){ if(!r_getauxval) res(r_getauxval,"getauxval"); return r_getauxval(k); } static uint64_t rnd[2]; if(k==25){ rnd[0]=sim_ident(t,98,7,0,~0ull); rnd[1]=~rnd[0]; return (unsigned long)rnd; } return (unsigned long)sim_ident(t,99+k,k==6?4096:0,0,1u<<20); }
static int (*r_uname)(struct utsname*); HID int uname(struct utsname* u) noexcept { SimTh* t=incall(); if(!t){ if(!r_uname) res(r_uname,"uname"); return r_uname(u); } memset(u,0,sizeof *u); snprintf(u->sysname,sizeof u->sysname,"sim%llu",(unsigned long long)sim_ident(t,89,1,0,1000)); snprintf(u->nodename,sizeof u->nodename,"host%llu",(unsigned long long)sim_ident(t,90,1,0,1000)); return 0; }
static int (*r_gethostname)(char*,size_t); HID int gethostname(char* p,size_t n) noexcept { SimTh* t=incall(); if(!t){ if(!r_gethostname) res(r_gethostname,"gethostname"); return r_gethostname(p,n); } snprintf(p,n,"host%llu",(unsigned long long)sim_ident(t,90,1,0,1000)); return 0; }
static clock_t (*r_times)(struct tms*); HID clock_t times(struct tms* b) noexcept { SimTh* t=incall(); if(!t){ if(!r_times) res(r_times,"times"); return r_times(b); } if(b){ b->tms_utime=(clock_t)(sim_clock(t)/10000000); b->tms_stime=b->tms_cutime=b->tms_cstime=0; } return (clock_t)(sim_clock(t)/10000000); }
static int (*r_getrusage)(int,struct rusage*); HID int sim_getrusage(int w,struct rusage* u) __asm__("getrusage"); HID int sim_getrusage(int w,struct rusage* u){ SimTh* t=incall(); if(!t){ if(!r_getrusage) res(r_getrusage,"getrusage"); return r_getrusage(w,u); } memset(u,0,sizeof *u); u->ru_utime.tv_sec=(time_t)(sim_clock(t)%100000); u->ru_maxrss=(long)sim_ident(t,91,1000,0,1000000); return 0; }
static int (*r_getloadavg)(double*,int); HID int getloadavg(double* a,int n) noexcept { SimTh* t=incall(); if(!t){ if(!r_getloadavg) res(r_getloadavg,"getloadavg"); return r_getloadavg(a,n); } for(int i=0;i<n;i++) a[i]=(double)sim_ident(t,92+(uint64_t)i,1,0,100); return n; }
#define RNDD(name) static double (*r_##name)(); HID double name() noexcept { SimTh* t=incall(); if(!t){ if(!r_##name) res(r_##name,#name); return r_##name(); } return (double)(sim_rand(t)>>11)*(1.0/9007199254740992.0); }
RNDD(drand48)
#define RNDL(ret,name,mask) static ret (*r_##name)(); HID ret name() noexcept { SimTh* t=incall(); if(!t){ if(!r_##name) res(r_##name,#name); return r_##name(); } return (ret)(sim_rand(t)&mask); }
RNDL(long,lrand48,0x7fffffff) RNDL(uint32_t,arc4random,0xffffffffu)
static long (*r_mrand48)(); HID long mrand48() noexcept { SimTh* t=incall(); if(!t){ if(!r_mrand48) res(r_mrand48,"mrand48"); return r_mrand48(); } return (long)(int32_t)sim_rand(t); }
static int (*r_timespec_get)(struct timespec*,int); HID int timespec_get(struct timespec* ts,int b) noexcept { SimTh* t=incall(); if(!t){ if(!r_timespec_get) res(r_timespec_get,"timespec_get"); return r_timespec_get(ts,b); } uint64_t v=sim_clock(t); ts->tv_sec=(time_t)(v/1000000000ull); ts->tv_nsec=(long)(v%1000000000ull); return b; }
extern "C" { void sim_rd_init(void*,const void*) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void sim_rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv"); unsigned sim_rd_get(void*) __asm__("_ZNSt13random_device9_M_getvalEv"); }
HID void sim_rd_init(void*,const void*){} HID void sim_rd_fini(void*){} HID unsigned sim_rd_get(void*){ SimTh* t=incall(); return t? (unsigned)sim_rand(t): 4u; }
static volatile bool g_sys_armed=false;
// the time-stamp counter: the instruction traps (PR_SET_TSC) and gets the simulated clock
// which processor the call finds itself on: cpuid traps where the kernel allows, and the compilers' own
// feature words are ours; noise takes away features, it never invents them
struct CpuModel { unsigned vendor, type, subtype, features[1]; };
extern "C" { extern CpuModel __cpu_model; CpuModel __cpu_model; extern unsigned __cpu_features2[8]; unsigned __cpu_features2[8]; int __cpu_indicator_init(); int __cpu_indicator_init(){ return 0; } }
static unsigned cpu_words=0, leaf1c=0, leaf7b=0; static bool cpuid_traps=false;
static void cpu_init(){ unsigned a,b,c,d; if(__get_cpuid(1,&a,&b,&c,&d)) leaf1c=c; if(__get_cpuid_count(7,0,&a,&b,&c,&d)) leaf7b=b;
    unsigned w=(1u<<0)|(1u<<1)|(1u<<3)|(1u<<4); if(leaf1c&1) w|=1u<<5; if(leaf1c&(1u<<9)) w|=1u<<6; if(leaf1c&(1u<<19)) w|=1u<<7; if(leaf1c&(1u<<20)) w|=1u<<8; if(leaf1c&(1u<<23)) w|=1u<<2; if(leaf1c&(1u<<28)) w|=1u<<9; if(leaf1c&(1u<<12)) w|=1u<<14; if(leaf7b&(1u<<5)) w|=1u<<10; if(leaf7b&(1u<<3)) w|=1u<<16; if(leaf7b&(1u<<8)) w|=1u<<17;
    cpu_words=w; __cpu_model.vendor=1; __cpu_model.type=1; __cpu_model.features[0]=w; }
static void cpu_place(uint32_t n){ __cpu_model.features[0]= n&&mix(n,91)%3? cpu_words&~((unsigned)mix(n,92)&0x3ffe4u): cpu_words; __cpu_model.vendor= n? 1+(unsigned)(mix(n,93)%2): 1; __cpu_model.type= n? 1+(unsigned)(mix(n,94)%12): 1; }
static void emulate_cpuid(SimTh* t,greg_t* g){ unsigned a=(unsigned)g[REG_RAX], c=(unsigned)g[REG_RCX], ea=0,eb=0,ec=0,ed=0; 
    if(!t||!g_sys_armed){ syscall(SYS_arch_prctl,0x1012,1); __cpuid_count(a,c,ea,eb,ec,ed); syscall(SYS_arch_prctl,0x1012,0); }
    else if(a==1) ec=leaf1c; else if(a==7) eb=leaf7b; else if(a==0) ea=7;
    if(t){ uint32_t n=t->fr->op->env.noise; if(a==1){ ea=0x806c1; eb=0; if(n&&mix(n,91)%3){ ec&=~((unsigned)mix(n,95)&0x10981201u); ea=(unsigned)mix(n,96)&0x0fff0fff; } } if(a==7&&n&&mix(n,91)%3) eb&=~((unsigned)mix(n,97)); }
    g[REG_RAX]=ea; g[REG_RBX]=eb; g[REG_RCX]=ec; g[REG_RDX]=ed; }
static struct sigaction old_segv;
// the writable data of the C, C++ and math libraries, write-protected for real
static std::pair<uintptr_t,uintptr_t> ro_lib[64]; static int n_ro=0;
static int ro_one(struct dl_phdr_info* i,size_t,void*){ const char* n=i->dlpi_name; if(!n||!strstr(n,".so")||strstr(n,"ld-linux")||strstr(n,"vdso")) return 0; uintptr_t rel_lo=0,rel_hi=0;
    for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO){ rel_lo=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; rel_hi=(rel_lo+i->dlpi_phdr[k].p_memsz+4095)&~4095ul; }
    for(int k=0;k<i->dlpi_phnum;k++){ const ElfW(Phdr)& q=i->dlpi_phdr[k]; if(q.p_type!=PT_LOAD||!(q.p_flags&PF_W)) continue; uintptr_t a=(i->dlpi_addr+q.p_vaddr)&~4095ul, b=(i->dlpi_addr+q.p_vaddr+q.p_memsz+4095)&~4095ul; if(a>=(rel_lo&~4095ul)&&a<rel_hi) a=rel_hi; if(a<b&&n_ro<64){ ro_lib[n_ro].first=a; ro_lib[n_ro++].second=b; } }
    return 0; }
void rt_readonly(){ g_readonly=true; n_ro=0; dl_iterate_phdr(ro_one,nullptr); for(int i=0;i<n_ro;i++) mprotect((void*)ro_lib[i].first,ro_lib[i].second-ro_lib[i].first,PROT_READ); }
static void on_segv(int,siginfo_t* si,void* uc){ ucontext_t* u=(ucontext_t*)uc;
    for(int i=0;i<n_ro;i++) if((uintptr_t)si->si_addr>=ro_lib[i].first&&(uintptr_t)si->si_addr<ro_lib[i].second&&self&&self->incall){ for(int k=0;k<n_ro;k++) mprotect((void*)ro_lib[k].first,ro_lib[k].second-ro_lib[k].first,PROT_READ|PROT_WRITE); refuse_write(self->fr,0,1); }
    const unsigned char* ip=(const unsigned char*)u->uc_mcontext.gregs[REG_RIP]; SimTh* t=self;
    if(ip[0]==0x0f&&ip[1]==0xa2){ emulate_cpuid(t&&t->incall?t:nullptr,u->uc_mcontext.gregs); u->uc_mcontext.gregs[REG_RIP]+=2; return; }
    int len=0; if(t&&t->incall&&(uintptr_t)ip>=(uintptr_t)&__executable_start&&(uintptr_t)ip<(uintptr_t)&etext){ if(ip[0]==0x0f&&ip[1]==0x31) len=2; else if(ip[0]==0x0f&&ip[1]==0x01&&ip[2]==0xf9) len=3; }
    if(!len){ signal(SIGSEGV,SIG_DFL); return; } // a genuine fault: the instruction faults again and ends the process
    uint64_t v=sim_clock(t); u->uc_mcontext.gregs[REG_RAX]=(uint32_t)v; u->uc_mcontext.gregs[REG_RDX]=v>>32; if(len==3) u->uc_mcontext.gregs[REG_RCX]=0; u->uc_mcontext.gregs[REG_RIP]+=len; }
static void own_altstack(){ stack_t ss; memset(&ss,0,sizeof ss); ss.ss_size=65536; ss.ss_sp=mmap(nullptr,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); sigaltstack(&ss,nullptr); }
static void trap_tsc(){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; sigaction(SIGSEGV,&sa,nullptr); own_altstack(); prctl(PR_SET_TSC,PR_TSC_SIGSEGV,0,0,0); cpuid_traps=!syscall(SYS_arch_prctl,0x1012,0); }

// ---------------------------------------------------------------- seams: system calls (single-threaded runs only)
static bool is_output(long nr){ switch(nr){ case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_sendto: case SYS_sendmsg: case SYS_kill: case SYS_tgkill: case SYS_tkill: case SYS_unlink: case SYS_unlinkat: case SYS_rename: case SYS_renameat: case SYS_mkdir: case SYS_mkdirat: case SYS_creat: case SYS_open: case SYS_openat: case SYS_socket: case SYS_connect: case SYS_execve: case SYS_fork: case SYS_vfork: case SYS_clone: case SYS_clone3: case SYS_setrlimit: case SYS_prctl: case SYS_rt_sigaction: case SYS_setitimer: case SYS_alarm: return true; } return false; }
static void on_sigsys(int,siginfo_t* si,void* uc){
    ucontext_t* u=(ucontext_t*)uc; SimTh* t=self; long nr=si->si_syscall;
    int e=EIO;
    if(t&&t->fr){ OpOut& o=shm->out[t->fr->op->uid]; o.sys++; shm->sys_failed++; if(is_output(nr)) o.io++; static const int errs[]={EIO,EINTR,ENOMEM,ENOSPC,EPERM,EBADF}; e=errs[t->fr->noise.below(6)]; if(t->fr->op->env.sys>1&&t->fr->noise.chance(.6)) e=-(int)(t->fr->noise.chance(.3)?0:t->fr->noise.below(100)); }
    u->uc_mcontext.gregs[REG_RAX]=-e;
}
bool rt_seccomp(){
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sigsys; sa.sa_flags=SA_SIGINFO|SA_NODEFER; sigaction(SIGSYS,&sa,nullptr);
    // ending the process stays real, everything else traps
    static const int allow[]={SYS_exit_group,SYS_exit,SYS_rt_sigreturn};
    struct sock_filter fl[64]; int n=0;
    fl[n++]=BPF_STMT(BPF_LD|BPF_W|BPF_ABS,offsetof(struct seccomp_data,nr));
    for(int a:allow){ fl[n++]=BPF_JUMP(BPF_JMP|BPF_JEQ|BPF_K,(unsigned)a,0,1); fl[n++]=BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_ALLOW); }
    fl[n++]=BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_TRAP);
    struct sock_fprog pr={(unsigned short)n,fl};
    if(prctl(PR_SET_NO_NEW_PRIVS,1,0,0,0)) return false;
    if(prctl(PR_SET_SECCOMP,SECCOMP_MODE_FILTER,&pr)) return false;
    g_sys_armed=true; return true;
}

// ---------------------------------------------------------------- one call in its ambient environment
static inline unsigned get_mx(){ unsigned m; __asm__ volatile("stmxcsr %0":"=m"(m)); return m; }
static inline void set_mx(unsigned m){ __asm__ volatile("ldmxcsr %0"::"m"(m)); }
static inline uint16_t get_cw(){ uint16_t c; __asm__ volatile("fnstcw %0":"=m"(c)); return c; }
static inline uint16_t get_sw(){ uint16_t c; __asm__ volatile("fnstsw %0":"=m"(c)); return c; }
typedef X87f X87;
static void set_env(const Env& e){
    static const int rc[4]={0,1,2,3};
    unsigned mx=0x1f80; mx|=(unsigned)rc[e.rm&3]<<13; if(e.ftz) mx|=0x8000; if(e.daz) mx|=0x40; mx|=(e.flags&0x3d); mx&=~((unsigned)(e.traps&0x3d)<<7);
    uint16_t pcb= e.pc==0?3:e.pc==1?2:0;
    uint16_t cw=0x3f|(pcb<<8)|(rc[(e.rm+(e.rm>>2))&3]<<10); cw&=~(uint16_t)(e.traps&0x3d); cw|=0x40;
    __asm__ volatile("fninit");
    X87 x; __asm__ volatile("fnstenv %0":"=m"(x)); x.cw=(x.cw&0xffff0000u)|cw; x.sw=(x.sw&0xffffffc0u)|(e.flags&0x3d&~e.traps); __asm__ volatile("fldenv %0"::"m"(x));
    if(e.traps) mx&=~(unsigned)(e.traps&0x3d); 
    set_mx(mx);
}
static void default_env(){ unsigned mx=0x1f80; __asm__ volatile("fninit"); set_mx(mx); }
static void __attribute__((noinline)) dirty_stack(uint32_t d){
    volatile unsigned char buf[24576]; Rng r(d); int style=d%5; uint64_t w=r.next();
    for(size_t i=0;i<sizeof buf;i+=8){ uint64_t v= style==0?~0ull: style==1?0x3ff0000000000000ull: style==2?w: style==3?0x7ff0000000000000ull: r.next(); *(volatile uint64_t*)(buf+i)=v; }
}
static void __attribute__((noinline)) zero_stack(){ volatile unsigned char buf[8192]; for(size_t i=0;i<sizeof buf;i+=8) *(volatile uint64_t*)(buf+i)=0; }

// which variables the process was started with, and where the next heap block lies
static void place(const Env& e){
    static char v0[]="HOME=/",v1[]="GCEM=1",v2[]="DEBUG=yes",v3[]="LC_ALL=C",v4[]="MODE=fast"; static char* sets[5][4]={{v0,nullptr},{v1,v0,nullptr},{v2,nullptr},{nullptr},{v3,v4,v1,nullptr}};
    cpu_place(e.noise); environ=sets[e.noise?e.noise%5:0]; if(e.disp&&heap_map) heap_top+=(uintptr_t)(e.disp&~3u)*16; }
static inline uint64_t bits_lo(const Res& r){ uint64_t v; memcpy(&v,&r.f,8); return v; }
static void canon(Res& o,const Res& r){
    memset(&o,0,sizeof o); o.kind=r.kind; o.i=r.i;
    if(r.kind=='f'||r.kind=='d'||r.kind=='l'){ if(r.f!=r.f){ long double q=__builtin_nanl(""); memcpy(&o.f,&q,10); } else memcpy(&o.f,&r.f,10); }
}
// the i-th of a row of calls whose arguments move: 1 by one unit in the last place each, 2 over a range; 4 only the first
static void drift_args(Arg* a,const Op& op,int i){
    const char* k=g_ops[op.entry].kinds;
    for(int j=0;j<3&&k[j];j++){ if(k[j]!='f'&&k[j]!='d'&&k[j]!='l') continue;
        long double e= k[j]=='f'? 0x1p-23L: k[j]=='d'? 0x1p-52L: 0x1p-63L, v=a[j].f*(op.drift&2? 1-(long double)((i*37)%61)/128: 1-e*i);
        if(v==v&&v-v==0&&(v>1e-300L||v< -1e-300L)) a[j].f= k[j]=='f'? (float)v: k[j]=='d'? (double)v: v;
        if(op.drift&4) return; } }
static void __attribute__((noinline)) exec_op_in(SimTh* t,const Op& op){
    Frame f; f.op=&op; f.parent=t->fr; f.ticks=0; f.nextdec=0; f.depth=t->fr?t->fr->depth+1:0; f.alloc_seq=0; f.noise=Rng(op.env.noise? op.env.noise: 12345);
    OpOut& o=shm->out[op.uid]; 
    o.status=ST_STARTED; shm->cur_uid=op.uid;
    Arg a[3]; Res r; volatile int left=op.rep>1?op.rep:1; volatile bool first=true;
    OpFn call=g_ops[op.entry].call;
    if(_setjmp(f.jb)==0){
        set_next(&f); f.sp0=f.splow=(uintptr_t)__builtin_frame_address(0); f.stack_limit= op.env.stack_kb? (uint64_t)op.env.stack_kb<<10 : (1ull<<40);
        t->fr=&f; uint64_t maxt=0;
        at_start(t,&f); set_next(&f);
        while(left>0){ uint64_t was=f.ticks;
            left=left-1; memcpy(a,op.a,sizeof a); memset(&r,0,sizeof r);
            if(op.drift&&f.ticks>g_budget/8*3) left=0; // calls with moved arguments may cost more
            volatile bool moved= op.drift&&left>0&&(op.rep-left)%16!=1; uintptr_t low=f.splow; if(moved) drift_args(a,op,op.rep-left);
            if(op.env.dirty) dirty_stack(op.env.dirty); else if(!f.parent) zero_stack();
            place(op.env); set_env(op.env); o.mxcsr0=get_mx(); o.cw0=get_cw(); o.sw0=get_sw();
            errno=op.env.err;
            t->incall=1;
            __asm__ volatile(""::: "memory");
            call(a,&r);
            __asm__ volatile(""::: "memory");
            t->incall=0;
            o.err1=errno; o.mxcsr1=get_mx(); o.cw1=get_cw(); o.sw1=get_sw();
            default_env();
            if(!moved&&f.ticks-was>maxt){ maxt=f.ticks-was; o.maxticks=maxt; }
            if(op.env.sys) fflush(nullptr); // shows output the call left in a buffer
            Res k; canon(k,r);
            if(moved){ f.splow=low; continue; }
            if(first) o.r=k; else if(memcmp(&o.r,&k,sizeof k)){ if(o.differs<0) { o.differs=op.rep-left; o.r2=k; } left=0; }
            first=false;
        }
        o.status=ST_DONE;
        h(mix(bits_lo(o.r),(uint64_t)o.r.i)+op.uid);
    } else {
        t->incall=0; o.err1=errno; o.mxcsr1=get_mx(); o.cw1=get_cw(); o.sw1=get_sw(); default_env(); o.status=ST_ABANDONED; h(0xAB00+op.uid);
    }
    o.ticks=f.ticks; o.stack=f.sp0-f.splow; shm->total_ticks+=f.ticks;
    t->fr=f.parent; shm->cur_uid=t->fr?t->fr->op->uid:-1;
}
static void __attribute__((noinline)) exec_op(SimTh* t,const Op& op){
    shm->out[op.uid].differs=-1;
    if(op.env.disp){ volatile char* p=(volatile char*)__builtin_alloca(16*(size_t)op.env.disp); p[0]=0; exec_op_in(t,op); p[0]=1; }
    else exec_op_in(t,op);
}

// ---------------------------------------------------------------- runs
static void* th_main(void* p){
    SimTh* t=(SimTh*)p; self=t;
    t->stk_hi=(uintptr_t)__builtin_frame_address(0)+256; // thread-local storage above this is not stack
    if(!g_fibers){ own_altstack(); wait_go(t); }
    for(size_t i=0;i<t->ops->size();i++){
        exec_op(t,(*t->ops)[i]);
    }
    if(!g_fibers) life_thread_exit(t->id); // the end of a coroutine is not the end of its thread
    t->st=DONE; g_progress++;
    SimTh* n=choose_next(t,true);
    if(n) { if(g_fibers){ self=n; setcontext(&UC[n->id]); } give(n); }
    else {
        int b=-1; for(int i=0;i<nT;i++) if(T[i].st==BLOCKED) b=i;
        if(b>=0) violate(V_DEADLOCK,T[b].fr?T[b].fr->op->uid:-1,"a call waits for a lock whose holder will never release it");
        g_alldone.store(1); if(g_fibers&&!(g_fibers&4)) setcontext(&UC_main); fx(&g_alldone,FUTEX_WAKE,1);
    }
    for(;;) pause();
    return nullptr;
}
// stacks lie at fixed addresses too
static const size_t STKSZ=64u<<20;
static char* fixed_stack(int i){ void* want=(void*)(0x21000000000ull+(uintptr_t)i*(STKSZ*2));
    char* m=(char*)mmap(want,STKSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK|MAP_FIXED_NOREPLACE,-1,0);
    if(m==MAP_FAILED){ fprintf(stderr,"no room for a stack\n"); _exit(3); }
    mprotect(m,65536,PROT_NONE); return m; }
static SimTh T_main; // the only thread of runs that are not scheduled
void rt_init(){
    resolve(); cpu_init();
    void* hp=mmap((void*)HEAP0,HEAPSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); heap_map= hp==(void*)HEAP0; heap_top=HEAP0;
    { SimTh& m=T_main; m.id=0; m.st=RUNNABLE; m.fr=nullptr; m.incall=0; char* k=fixed_stack(MAXTH); m.stk_lo=(uintptr_t)k; m.stk_hi=(uintptr_t)k+STKSZ; }
    ro_lo=(uintptr_t)&__executable_start; ro_hi=(uintptr_t)&__data_start;
    // .init_array/.got etc. lie between etext/rodata and data; code never writes there
}
static void index_decs(const Plan& p){
    int mu=0; for(auto&d:p.decs) if(d.uid>mu) mu=d.uid; decs_of.assign(mu+1,{}); for(size_t i=0;i<p.decs.size();i++){ const Dec& d=p.decs[i]; if(d.uid>=0&&d.uid<MAXOPS) decs_of[d.uid].push_back({d.tick,(int)i}); }
    for(auto& v:decs_of) std::stable_sort(v.begin(),v.end(),[](const std::pair<int64_t,int>&a,const std::pair<int64_t,int>&b){return a.first<b.first;});
}
static void fiber_main(int i){ th_main(&T[i]); }
static void* car_main(void* q){ int c=(int)(intptr_t)q; own_altstack(); for(;;){ while(car_go[c].load()==0) fx(&car_go[c],FUTEX_WAIT,0); car_go[c].store(0); g_car=c; self=g_car_run; swapcontext(&UC_car[c],&UC[self->id]); self=nullptr; car_give(g_car_next); } return nullptr; }
void rt_child_main(const Plan& p){
    g_fibers=p.fibers;
    plan=&p; g_in_plan=true; g_budget=p.budget; arng=Rng(p.seed); index_decs(p);
    nT=(int)p.th.size(); mem_start((p.races||(p.acts&(1u<<A_STALE)))&&nT>1&&!p.fibers);
    const size_t STK=STKSZ; trap_tsc();
    for(int i=0;i<nT;i++){
        SimTh& t=T[i]; t.id=i; t.st=RUNNABLE; t.fr=nullptr; t.incall=0; t.go.store(0); t.ops=&p.th[i];
        if(nT>1||true){
            char* m=fixed_stack(i); t.stk_lo=(uintptr_t)m; t.stk_hi=(uintptr_t)m+STK;
            if(g_fibers){ getcontext(&UC[i]); UC[i].uc_stack.ss_sp=m; UC[i].uc_stack.ss_size=STK; UC[i].uc_link=nullptr; makecontext(&UC[i],(void(*)())fiber_main,1,i); continue; }
            pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a,m,STK);
            if(pthread_create(&t.th,&a,th_main,&t)){ shm->viol=V_INTERNAL; _exit(3); }
        }
    }
    std::vector<int> c; for(int i=0;i<nT;i++) c.push_back(i);
    int k=pick_logged(c);
    if(g_fibers&4){
        for(int c2=0;c2<NCAR;c2++){ pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a,fixed_stack(MAXTH-1-c2),STK); pthread_t q; if(pthread_create(&q,&a,car_main,(void*)(intptr_t)c2)){ shm->viol=V_INTERNAL; _exit(3); } }
        g_car_run=&T[k]; car_give(0); while(!g_alldone.load()) fx(&g_alldone,FUTEX_WAIT,0); shm->finished=1; _exit(0); }
    if(g_fibers){ self=&T[k]; swapcontext(&UC_main,&UC[k]); shm->finished=1; _exit(0); }
    give(&T[k]);
    while(!g_alldone.load()) fx(&g_alldone,FUTEX_WAIT,0);
    shm->finished=1; _exit(0);
}
// runs f on the fixed stack of unscheduled calls
static const std::function<void()>* on_stack_f; static ucontext_t UC_back, UC_run;
static void on_stack_main(){ (*on_stack_f)(); setcontext(&UC_back); }
void rt_on_stack(const std::function<void()>& f){
    trap_tsc(); on_stack_f=&f; getcontext(&UC_run); UC_run.uc_stack.ss_sp=(void*)T_main.stk_lo; UC_run.uc_stack.ss_size=STKSZ; UC_run.uc_link=nullptr;
    makecontext(&UC_run,on_stack_main,0); swapcontext(&UC_back,&UC_run); }
// one call on the current (main) thread of a forked child
void rt_single(const Op& op,uint64_t budget){
    SimTh& m=T_main;
    self=&m; g_in_plan=false; g_budget=budget; nT=0;
    exec_op(&m,op);
}
