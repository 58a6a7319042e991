// Runtime of the simulator: everything that executes inside a simulated run.
#ifndef RT_H
#define RT_H
#include "op.h"
#include <csetjmp>
#include <functional>
#include <vector>
#include <string>

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed=0): s(seed) {}
    uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    uint64_t below(uint64_t n){ return n? next()%n : 0; }
    double uni(){ return (next()>>11)*(1.0/9007199254740992.0); }
    bool chance(double p){ return uni()<p; }
    double range(double a,double b){ return a+(b-a)*uni(); }
};
static inline uint64_t mix(uint64_t a,uint64_t b){ Rng r(a^(b*0x9E3779B97F4A7C15ull)); r.next(); return r.next(); }

// ---------------------------------------------------------------- plans
// Ambient state a call is made in.  All zero = the default environment.
struct Env {
    uint8_t  rm;      // rounding direction 0 nearest 1 down 2 up 3 zero
    uint8_t  ftz, daz;// SSE flush modes
    uint8_t  pc;      // x87 precision: 0 extended 1 double 2 single
    uint8_t  flags;   // sticky exception flags raised beforehand (x87/MXCSR bits 0x3d)
    uint8_t  traps;   // exceptions unmasked (bits as flags)
    uint8_t  alloc;   // heap fault: 0 none 1 every allocation fails 2 first fails 3 random
    uint8_t  sys;     // system calls trapped and failed with an error
    int32_t  err;     // errno on entry
    uint32_t dirty;   // leftover stack/heap contents pattern (0 = zeros untouched)
    uint32_t noise;   // seed of clock / random / getenv answers
    uint32_t stack_kb;// simulated stack limit, 0 = none
    uint32_t disp;    // shifts the stack by this many 16-byte units (address-space layout)
    bool operator==(const Env&o) const { return memcmp(this,&o,sizeof*this)==0; }
};
struct Op { int uid; int entry; Arg a[3]; Env env; int rep, drift; }; // rep: the call is made this many times in a row; drift: most of them with nearby arguments instead

enum Act { A_SWITCH=1 /* to arg&0xffff, on the thread (arg>>16)-1 if that is given */, A_INTR, A_ABANDON, A_STALL, A_KILL, A_FORK, A_INIT, A_EXIT, A_TEXIT, A_STALE, A_MOVED /* only counted */ };
enum { NGROUP=8 }; // translation units of instrumented code, each with its own initialisers
struct Dec { int32_t uid; uint32_t act; int64_t tick; int64_t arg; };

struct Plan {
    std::vector<std::vector<Op> > th;  // operations of each simulated thread
    std::vector<Op> handlers;          // operations run by interrupt handlers
    std::vector<Dec> decs;             // planned decisions (uid, tick) -> action
    std::vector<int> picks;            // who runs when a thread ends or is set aside
    // adaptive part, used while searching; every decision it takes is logged as a Dec
    bool adaptive; uint64_t seed; double p_shared; uint32_t acts;
    bool stall_is_fatal;               // waiting on a stalled peer counts as waiting (C04)
    bool races;                        // unordered conflicting accesses by two threads end the run
    int fibers;                        // 1: the threads are coroutines of one operating-system thread; +2: a switch leaves
                                       // the sticky flags as the last coroutine left them; +4: coroutines move between threads
    uint64_t budget;                   // ticks one call may take
    Plan(): adaptive(false), seed(0), p_shared(0), acts(0), stall_is_fatal(false), races(false), fibers(0), budget(0) {}
};

// ---------------------------------------------------------------- outcomes
enum { ST_NONE=0, ST_STARTED=1, ST_DONE=2, ST_ABANDONED=3 };
enum { NFIRED=12 };
enum Viol { V_NONE=0, V_VALUE, V_DEADLOCK, V_STEPS, V_STACK, V_CRASH, V_ENV, V_ERRNO, V_IO, V_HANG, V_MODE, V_INTERNAL, V_RACE, V_WRITE };

enum { NSHAT=24 };
struct OpOut {
    uint8_t status; Res r, r2; int differs; uint64_t ticks; uint64_t stack, maxticks;
    uint32_t mxcsr0, mxcsr1; uint16_t cw0, cw1, sw0, sw1; int32_t err1;
    uint32_t sh_w, sh_r, locks, allocs, alloc_failed, sys, io, clock;
    uint32_t sh_at[NSHAT]; // steps at which it met memory that is not its own: the first ones and the last ones
};
enum { MAXOPS=4096, MAXDEC=20000, MAXPICK=20000, MAXTH=330, CROWD=40, NCAR=4, COVSZ=1<<16, CMPSZ=1<<14 };
struct CmpSlot { uint64_t pc; double a,b; uint32_t n; uint8_t ca,cb; };
struct Shm {
    OpOut out[MAXOPS];
    int viol, viol_uid; char viol_msg[256];
    int ndec; Dec dec[MAXDEC]; int npick; int picks[MAXPICK];
    int cur_uid; int finished;
    uint64_t hash; uint64_t total_ticks; uint64_t fired[NFIRED]; uint64_t shared_events, lock_waits, alloc_failed, sys_failed, clock_reads;
    uint64_t cur_seq; // number of the last operation started (scan batches)
};
struct ShmCov { uint8_t cov[COVSZ]; CmpSlot cmp[CMPSZ]; };

extern Shm* shm; extern ShmCov* covm;
extern const OpEntry* g_ops; extern int g_nops;

// scanning switches
extern bool g_scan;

void rt_child_main(const Plan& p);           // runs a plan, then _exit(0)
void rt_single(const Op& op, uint64_t budget); // runs one op on the current thread
void rt_init();
void rt_run_initialisers();                    // all of them, in order, as before main
void rt_on_stack(const std::function<void()>& f); // runs f on a stack at a fixed address
bool rt_seccomp();
void rt_readonly();                             // from now on memory other than the stack refuses to be written during calls
const char* viol_name(int);
#endif
