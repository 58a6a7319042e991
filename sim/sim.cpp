// Deterministic simulator for gcem: generation, search, judging, minimisation, replay.
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using std::string; using std::vector;
typedef long double LD;
static std::vector<OpEntry> ops_all;
static const uint64_t BUDGET=40000000ull;   // steps one call may take before it counts as stuck
static const uint64_t SCAN_BUDGET=40000000ull;

// ================================================================ value generation
struct Spec { const char* fn; const char* dom; };
// domain letters, one per argument; see ordinary()
static const Spec specs[]={
 {"abs","R"},{"ceil","R"},{"floor","R"},{"trunc","R"},{"round","R"},{"sgn","R"},{"signbit","R"},{"copysign","RR"},{"fmod","RN"},{"max","RR"},{"min","RR"},
 {"sqrt","P"},{"inv_sqrt","P"},{"hypot","RR"},{"exp","X"},{"expm1","X"},{"log","P"},{"log1p","L"},{"log2","P"},{"log10","P"},{"pow","PE"},
 {"tan","A"},{"cos","A"},{"sin","A"},{"atan","R"},{"atan2","RR"},{"acos","U"},{"asin","U"},{"tanh","X"},{"cosh","X"},{"sinh","X"},{"atanh","U"},{"acosh","G"},{"asinh","R"},
 {"gcd","II"},{"lcm","JJ"},{"factorial","F"},{"binomial_coef","BC"},{"lgamma","P"},{"tgamma","T"},{"lbeta","SS"},{"beta","SS"},{"lmgamma","Mp"},{"log_binomial_coef","nk"},
 {"erf","r"},{"erf_inv","U"},{"incomplete_beta","SSV"},{"incomplete_beta_inv","SSV"},{"incomplete_gamma","SZ"},{"incomplete_gamma_inv","SV"}};
static const char* dom_of(const char* fn){ for(auto& s:specs) if(!strcmp(s.fn,fn)) return s.dom; return "RRR"; }
static bool isfp(char k){ return k=='f'||k=='d'||k=='l'; }
static LD logu(Rng& r,double a,double b){ return expl(logl(a)+(logl(b)-logl(a))*(LD)r.uni()); }
static LD small_real(Rng& r){
    switch(r.below(8)){ case 0: return r.range(-1,1); case 1: return r.range(-10,10); case 2: return r.range(-1000,1000);
    case 3: return (LD)((int)r.below(41)-20); case 4: return ((int)r.below(81)-40)/2.0L; case 5: return (r.chance(.5)?1:-1)*logu(r,1e-8,1e8); case 6: return r.range(-3.2,3.2);
    default: return (r.chance(.5)?1:-1)*logu(r,1e-300,1e300); } }
static LD ordinary(Rng& r,char d,LD prev){
    LD x;
    switch(d){
    case 'R': return small_real(r);
    case 'N': x=small_real(r); return x==0?1.5L:x;
    case 'P': switch(r.below(6)){ case 0: return r.range(0.01,2); case 1: return r.range(0.1,20); case 2: return logu(r,1e-6,1e6); case 3: return (LD)(1+r.below(100)); case 4: return r.range(0.4,1.6); default: return logu(r,1e-30,1e30);} 
    case 'L': return r.chance(.5)? (r.chance(.5)?1:-1)*logu(r,1e-9,0.9) : r.range(-0.99,50);
    case 'X': switch(r.below(5)){ case 0: return r.range(-2,2); case 1: return r.range(-20,20); case 2: return r.range(-80,80); case 3: return (r.chance(.5)?1:-1)*logu(r,1e-9,1); default: return r.range(-700,700);} 
    case 'E': switch(r.below(3)){ case 0: return r.range(-3,3); case 1: return r.range(-10,10); default: return (LD)((int)r.below(61)-30);} 
    case 'A': switch(r.below(5)){ case 0: return r.range(-1.6,1.6); case 1: return r.range(-7,7); case 2: return (1+(int)r.below(20))*0.78539816339744830961566L+r.range(-.06,.06); case 3: return r.range(-1000,1000); default: return (r.chance(.5)?1:-1)*logu(r,1e-8,1e7);} 
    case 'U': switch(r.below(3)){ case 0: return r.range(-1,1); case 1: return (r.chance(.5)?1:-1)*(1-logu(r,1e-7,0.5)); default: return (r.chance(.5)?1:-1)*logu(r,1e-6,1);} 
    case 'V': switch(r.below(3)){ case 0: return r.range(0.001,0.999); case 1: return 1-logu(r,1e-6,0.5); default: return logu(r,1e-6,1);} 
    case 'G': return r.chance(.5)? 1+logu(r,1e-6,10) : logu(r,1,1e8);
    case 'r': return r.chance(.7)? r.range(-6,6) : (r.chance(.5)?1:-1)*logu(r,1e-6,20);
    case 'T': switch(r.below(4)){ case 0: return r.range(0.1,20); case 1: return (LD)(1+r.below(30)); case 2: return r.range(-20,0); default: return r.range(0,170);} 
    case 'S': switch(r.below(6)){ case 0: return r.range(0.1,2); case 1: return r.range(1,15); case 2: return (LD)(1+r.below(20)); case 3: return r.range(10,100); case 4: return r.range(100,2000); default: return r.range(0.5,5);} 
    case 'Z': { LD a=prev>0?prev:1; switch(r.below(4)){ case 0: return a+r.range(-3,3)*sqrtl(a); case 1: return a*r.range(0.2,1.8); case 2: return r.range(0.01,20); default: return a*r.range(0.5,5);} }
    case 'M': return r.range(1,60)+20; case 'p': return (LD)(1+r.below(30));
    case 'I': switch(r.below(4)){ case 0: return (LD)((int)r.below(201)-100); case 1: return (LD)((int64_t)r.below(2000000)-1000000); case 2: return (LD)(int32_t)r.next(); default: return (LD)(int64_t)(r.next()>>1); }
    case 'J': return r.chance(.8)? (LD)((int)r.below(2001)-1000) : (LD)((int)r.below(60001)-30000);
    case 'F': return (LD)r.below(21); case 'B': return (LD)r.below(r.chance(.2)?100:15); case 'C': return r.chance(.2)&&prev>4? prev-(LD)r.below(4): (LD)r.below(r.chance(.3)?4:15);
    case 'n': return (LD)r.below(300); case 'k': return prev>0? (LD)r.below((uint64_t)prev+1):0;
    }
    return small_real(r);
}
static vector<LD> g_dict; // constants the code under test was seen comparing with
static LD step_ulps(LD x,char k,int n){
    for(int i=0;i<abs(n);i++){ LD t=n>0?INFINITY:-INFINITY;
        if(k=='f') x=nextafterf((float)x,(float)t); else if(k=='d') x=nextafter((double)x,(double)t); else x=nextafterl(x,t); }
    return x; }
static LD special(Rng& r,char k){
    LD mx= k=='f'?FLT_MAX:k=='d'?DBL_MAX:LDBL_MAX, mn= k=='f'?FLT_MIN:k=='d'?DBL_MIN:LDBL_MIN, ep= k=='f'?FLT_EPSILON:k=='d'?DBL_EPSILON:LDBL_EPSILON, dn=k=='f'?1.4e-45L:k=='d'?4.9e-324L:3.6e-4951L;
    LD s=r.chance(.5)?1:-1;
    switch(r.below(16)){ case 0: return 0.0L; case 1: return -0.0L; case 2: return s*1; case 3: return s*INFINITY; case 4: return NAN; case 5: return s*mx; case 6: return s*mn; case 7: return s*dn; case 8: return s*ep; case 9: return s*(1+ep); case 10: return s*(1-ep/2);
     case 11: return s*3.14159265358979323846264338327950288L; case 12: return s*1.57079632679489661923132169163975144L; case 13: return s*mn/2; case 14: return s*powl(2,(int)r.below(130)-65); default: return s*powl(10,(int)r.below(60)-30);} }
static LD wildbits(Rng& r,char k){
    if(k=='f'){ uint32_t b=(uint32_t)r.next(); float f; memcpy(&f,&b,4); return f; }
    if(k=='d'){ uint64_t b=r.next(); double f; memcpy(&f,&b,8); return f; }
    LD m=1+(LD)(r.next()>>1)/9223372036854775808.0L; return (r.chance(.5)?1:-1)*ldexpl(m,(int)r.below(32700)-16350);
}
static void store(Arg& a,char k,LD v){
    memset(&a,0,sizeof a);
    if(isfp(k)){ LD q= k=='f'?(LD)(float)v: k=='d'?(LD)(double)v: v; if(q!=q) q=__builtin_nanl(""); memcpy(&a.f,&q,10); return; }
    if(v!=v) v=0;
    LD lo,hi; switch(k){ case 's': lo=SHRT_MIN; hi=SHRT_MAX; break; case 'i': lo=INT_MIN; hi=INT_MAX; break; case 'u': lo=0; hi=UINT_MAX; break; case 'q': lo=(LD)LLONG_MIN; hi=(LD)LLONG_MAX; break; default: lo=0; hi=(LD)ULLONG_MAX; }
    if(k=='u'||k=='z') v=fabsl(v);
    v=truncl(v); if(v<lo) v=lo; if(v>hi) v=hi;
    if(k=='z') a.i=(int64_t)(uint64_t)v; else a.i=(int64_t)v;
}
static LD load(const Arg& a,char k){ if(isfp(k)) return a.f; if(k=='u') return (LD)(uint32_t)a.i; if(k=='z') return (LD)(uint64_t)a.i; return (LD)a.i; }
static LD logint(Rng& r,char k){ int w= k=='s'?15:k=='i'||k=='u'?32:64; LD v; if(r.chance(.6)) v=(LD)(r.next()>>(64-1-r.below(w))); else { static const int at[]={53,53,24,31,32,52}; int e=r.chance(.5)?at[r.below(6)]:(int)r.below(w); v=ldexpl(1,e<w?e:w-1)+(LD)((int)r.below(33)-16); } return r.chance(.3)?-v:v; } // any magnitude, or next to a power of two
static LD wildint(Rng& r,char k){ if(r.chance(.4)) return logint(r,k); switch(r.below(6)){ case 0: return 0; case 1: return 1; case 2: return k=='s'?SHRT_MAX:k=='i'?INT_MAX:k=='u'?(LD)UINT_MAX:k=='q'?(LD)LLONG_MAX:(LD)ULLONG_MAX; case 3: return k=='s'?-SHRT_MAX:k=='i'?-INT_MAX:k=='q'?-(LD)LLONG_MAX:2; case 4: return (LD)(int32_t)r.next(); default: return (LD)(int64_t)r.next(); } }

// next to an integer, a half-integer, a power of ten or of two: where decisions flip
static LD boundary(Rng& r,char k,LD v){
    if(!isfp(k)) return v;
    LD b; switch(r.below(5)){ case 0: b=roundl(v); break; case 1: b=floorl(v)+.5L; break; case 2: b=powl(10,roundl(log10l(fabsl(v)+1e-30L))); break; case 3: b=powl(2,roundl(log2l(fabsl(v)+1e-30L))); break; default: { int dg=k=='f'?24:k=='d'?53:64; b=(v<0?-1:1)*ldexpl(1+(LD)r.uni(),dg-3+(int)r.below(5)); } }
    b= k=='f'?(LD)(float)b: k=='d'?(LD)(double)b: b; return step_ulps(b,k,(int)r.below(7)-3); }
struct Mix { double ord,dict,spec; }; // the rest is wild
static const Mix MIX_ORD={.80,.12,.05}, MIX_WILD={.40,.20,.15};

// Argument combinations outside what the properties speak about (recursion depth or
// running time proportional to the argument by design, or division by zero in
// integer arithmetic); see DESIGN.md "argument domains".
static void clampop(Op& op){
    const OpEntry& e=ops_all[op.entry]; string fn=e.fn; const char* k=e.kinds; int n=strlen(k);
    auto lim=[&](int i,LD lo,LD hi){ LD v=load(op.a[i],k[i]); if(v!=v) return; if(v<lo) v=lo; if(v>hi) v=hi; store(op.a[i],k[i],v); };
    for(int i=0;i<n;i++) if(k[i]=='l'){ LD v=op.a[i].f; if(v!=v||std::isinf(v)||v==0) continue; LD m=fabsl(v); if(m>1e300L||m<1e-300L){ while(m>1e300L) m=sqrtl(m); while(m<1e-300L) m=sqrtl(m); store(op.a[i],'l',v<0?-m:m); } }
    if(fn=="factorial"){ if(isfp(k[0])) { } else lim(0,0,24); }
    if(fn=="binomial_coef"){ for(int i=0;i<2;i++){ LD v=load(op.a[i],k[i]); if(v!=v) store(op.a[i],k[i],3); lim(i,0,200); }
        LD bn=load(op.a[0],k[0]), bk=load(op.a[1],k[1]); // the cost is the value: at most as much as 14 over 7
        if(floorl(bk)>floorl(bn)) lim(0,0,14); else for(;;){ LD N=floorl(bn), K=std::min(floorl(bk),N-floorl(bk)), c=1; for(LD j=1;j<=K&&c<1e6L;j++) c=c*(N-K+j)/j; if(c<=3432.5L) break; bn-=1; if(bk>bn) bk-=1; store(op.a[0],k[0],bn); store(op.a[1],k[1],bk); } }
    if(fn=="lmgamma") lim(1,-5,60);
    if(fn=="lcm"){ LD cap=INT_MAX; bool un=false; for(int i=0;i<n;i++){ if(k[i]=='q'||k[i]=='z') cap=(LD)LLONG_MAX; if(k[i]=='z'||k[i]=='u') un=true; } // the multiple must fit into the type of the result
        for(int i=0;i<n;i++) lim(i,un?0:-cap,cap);
        for(;;){ LD x=fabsl(load(op.a[0],k[0])), y=fabsl(load(op.a[1],k[1])); if(x!=x||y!=y) break; unsigned long long u=(unsigned long long)x, v=(unsigned long long)y, a=u, b=v; while(b){ auto t=a%b; a=b; b=t; } if(!a||(LD)(u/a)*(LD)v<=cap) break; int i= x>y?0:1; store(op.a[i],k[i],truncl(load(op.a[i],k[i])/3)); } }
    if(fn=="gcd") for(int i=0;i<n;i++){ LD v=load(op.a[i],k[i]); if(isfp(k[i])&&v!=v) store(op.a[i],k[i],7); lim(i,-9.2e18L,9.2e18L); if(k[i]=='i') lim(i,-INT_MAX,INT_MAX); if(k[i]=='q') lim(i,-(LD)LLONG_MAX,(LD)LLONG_MAX); }
    if(fn=="abs"){ if(k[0]=='i') lim(0,-INT_MAX,INT_MAX); if(k[0]=='q') lim(0,-(LD)LLONG_MAX,(LD)LLONG_MAX); if(k[0]=='s') lim(0,-SHRT_MAX,SHRT_MAX); }
    if(fn=="pow"&&!isfp(k[0])&&!isfp(k[1])){ lim(1,0,20); }
    
}
static bool exact_int(const char* fn){ return strstr(" abs sgn signbit copysign max min gcd lcm fmod ",(string(" ")+fn+" ").c_str())!=nullptr; }
static void gen_args(Rng& r,Op& op,const Mix& m){
    const OpEntry& e=ops_all[op.entry]; const char* d=dom_of(e.fn); LD prev=0; int n=strlen(e.kinds);
    for(int i=0;i<3;i++) store(op.a[i],'d',0);
    for(int i=0;i<n;i++){ char k=e.kinds[i]; LD v; double u=r.uni();
        if(u<m.ord){ v=ordinary(r,d[i]?d[i]:'R',prev); if(r.chance(.12)) v=boundary(r,k,v); if(!isfp(k)&&exact_int(e.fn)&&r.chance(.4)) v=logint(r,k); }
        else if(u<m.ord+m.dict && !g_dict.empty()){ v=g_dict[r.below(g_dict.size())]; if(r.chance(.5)) v=-v; if(isfp(k)) v=step_ulps(k=='f'?(LD)(float)v:k=='d'?(LD)(double)v:v,k,(int)r.below(5)-2); else v+=(int)r.below(3)-1; }
        else if(u<m.ord+m.dict+m.spec) v= isfp(k)? special(r,k): wildint(r,k);
        else v= isfp(k)? wildbits(r,k): wildint(r,k);
        if(i&&r.chance(.1)) switch(r.below(6)){ // related to the argument before
            case 0: v=prev; break; case 1: v=-prev; break; case 2: v=prev*(LD)(1+(int)r.below(40)); break; case 3: v=prev/(LD)(1+(int)r.below(40)); break; case 4: v=prev+(LD)(int)r.below(5)-2; break;
            default: v= isfp(k)? step_ulps(k=='f'?(LD)(float)prev:k=='d'?(LD)(double)prev:prev,k,(int)r.below(9)-4): prev/(LD)(2+r.below(9))+1; }
        else if(i&&!isfp(k)&&r.chance(.2)) v=(LD)(1+r.below(r.chance(.5)?12:60)); // a small one beside any other
        store(op.a[i],k,v); prev=load(op.a[i],k); }
    clampop(op);
}
static std::map<string,vector<int> > by_fn;
static Op gen_op(Rng& r,int entry,const Mix& m){ Op op; memset(&op,0,sizeof op); op.entry=entry; gen_args(r,op,m); return op; }
// a call related to another one: what a faulty cache or shared buffer would confuse
static LD flip_bit(LD v,char k,int b){ // a key that leaves this bit out takes the two for the same
    if(k=='f'){ float f=(float)v; uint32_t u; memcpy(&u,&f,4); u^=1u<<(b&31); memcpy(&f,&u,4); return f; }
    if(k=='l'){ uint64_t u; memcpy(&u,&v,8); u^=1ull<<(b%63); memcpy(&v,&u,8); return v; }
    if(k=='d'){ double d=(double)v; uint64_t u; memcpy(&u,&d,8); u^=1ull<<b; memcpy(&d,&u,8); return d; }
    return (LD)((long long)v^(1ll<<(b%31))); }
static Op relative(Rng& r,const Op& b){
    Op op=b; memset(&op.env,0,sizeof op.env); const char* k=ops_all[op.entry].kinds; int n=strlen(k);
    if(r.chance(.35)){ auto& v=by_fn[ops_all[op.entry].fn]; int e2=v[r.below(v.size())]; const char* k2=ops_all[e2].kinds; if((int)strlen(k2)==n){ LD a[3]; for(int i=0;i<n;i++) a[i]=load(op.a[i],k[i]); op.entry=e2; for(int i=0;i<n;i++) store(op.a[i],k2[i],a[i]); k=k2; } }
    if(r.chance(.8)){ int i=r.below(n); LD v=load(op.a[i],k[i]);
        switch(r.below(22)){ case 0: v=-v; break; case 1: v=step_ulps(v,isfp(k[i])?k[i]:'d',(int)r.below(9)-4); break; case 2: v+=1; break; case 3: v-=1; break; case 4: v*=2; break; case 5: v/=2; break; case 6: v=1-v; break; case 7: v=1/v; break; case 8: v+=6.283185307179586476925L; break;
          case 9: v=(LD)(float)v; break; case 10: v*=1+(LD)r.range(-1e-3,1e-3); break; case 11: if(n>1){ int j=(i+1)%n; LD w=load(op.a[j],k[j]); store(op.a[j],k[j],v); v=w; } break; case 12: v*=(LD)r.range(0.5,2); break;
          case 13: v=flip_bit(v,k[i],(int)r.below(64)); break; case 14: v=flip_bit(v,k[i],(int)r.below(64)); break;
          case 15: v=r.chance(.5)? v*10: v/10; break; case 16: v=ldexpl(v,(int)r.below(65)-32); break; case 17: v+=(LD)(int)r.below(129)-64; break; case 18: v=r.chance(.5)? truncl(v): v-truncl(v); break;
          case 19: if(n>1){ int j=(i+1)%n; LD w=load(op.a[j],k[j]), d=r.chance(.5)? 1: (LD)r.range(-1,1); if(r.chance(.5)){ v+=d; w-=d; } else { v*=2; w/=2; } store(op.a[j],k[j],w); } break;
          case 20: if(n>1){ for(int j=0;j<n;j++) if(j!=i) store(op.a[j],k[j],v); } break;
          default: v+=(LD)r.range(-1,1); }
        store(op.a[i],k[i],v); }
    clampop(op); return op;
}
static string fmt_ld(LD v){ char b[64]; if(v!=v) return "nan"; snprintf(b,sizeof b,"%.21Lg",v); return b; }
static string op_text(const Op& op){ const OpEntry& e=ops_all[op.entry]; string s=e.fn; s+="<"; s+=e.kinds; s+=">("; for(int i=0;e.kinds[i];i++){ if(i) s+=", "; s+=fmt_ld(load(op.a[i],e.kinds[i])); } return s+")"; }
static string res_text(const Res& r){ char b[80]; if(isfp(r.kind)) return fmt_ld(r.f)+string(1,' ')+string(1,r.kind); if(r.kind=='z') snprintf(b,sizeof b,"%llu %c",(unsigned long long)r.i,r.kind); else snprintf(b,sizeof b,"%lld %c",(long long)r.i,r.kind); return b; }
static bool g_moderef=false; // the reference is the call alone in the same rounding and flush mode (otherwise: in the default mode)
static string key_of(const Op& op){ string s((const char*)&op.entry,sizeof(int)); s.append((const char*)op.a,sizeof op.a); if(g_moderef){ s+=(char)op.env.rm; s+=(char)op.env.ftz; s+=(char)op.env.daz; } return s; }
static void ref_env(Op& op){ Env e; memset(&e,0,sizeof e); if(g_moderef){ e.rm=op.env.rm; e.ftz=op.env.ftz; e.daz=op.env.daz; } op.env=e; }
static bool same_res(const Res& a,const Res& b){ return a.kind==b.kind && a.i==b.i && !memcmp(&a.f,&b.f,10); }

// ================================================================ child processes
static bool g_defer=false; // C13: initialisers have not run when a child starts
static int reset_shm(int nuid){
    memset(shm->out,0,sizeof(OpOut)*(size_t)nuid);
    shm->viol=0; shm->viol_uid=-1; shm->viol_msg[0]=0; shm->ndec=0; shm->npick=0; shm->cur_uid=-1; shm->finished=0; shm->hash=0; shm->total_ticks=0; memset(shm->fired,0,sizeof shm->fired);
    shm->shared_events=shm->lock_waits=shm->alloc_failed=shm->sys_failed=shm->clock_reads=0; shm->cur_seq=0; return 0; }
static uint64_t n_forks=0; static int WATCHDOG=60;
template<class F> static int in_child(F f){ // returns 0 ok, else wait status
    n_forks++;
    pid_t p=fork(); if(p<0){ perror("fork"); exit(2); }
    if(!p){ struct itimerval it={{0,0},{WATCHDOG,0}}; setitimer(ITIMER_PROF,&it,nullptr); alarm(WATCHDOG*6); f(); _exit(0); } // processor time, so that a busy machine is no hang
    int st; while(waitpid(p,&st,0)<0) if(errno!=EINTR){ perror("waitpid"); exit(2);} 
    return st; }
static void note_death(int st){ // turn an abnormal end into a violation record
    if(shm->viol) return;
    if(WIFSIGNALED(st)){ int sg=WTERMSIG(st); shm->viol= sg==SIGALRM||sg==SIGPROF?V_HANG:V_CRASH; shm->viol_uid=shm->cur_uid; snprintf(shm->viol_msg,sizeof shm->viol_msg,"the process was ended by signal %d (%s) during the call",sg,strsignal(sg)); }
    else if(!shm->finished){ shm->viol=V_CRASH; shm->viol_uid=shm->cur_uid; snprintf(shm->viol_msg,sizeof shm->viol_msg,"the process ended (status %d) during the call",WEXITSTATUS(st)); }
}
struct Ref { bool ok; int viol; string msg; Res r; uint64_t ticks, stack; uint32_t sh_w,sh_r,locks,allocs,sys,io,clock; bool shared; vector<uint32_t> at; };
static void note_shared(Ref& f,const OpOut& o){ uint32_t n=std::min<uint32_t>(o.sh_w+o.sh_r,NSHAT); for(uint32_t i=0;i<n;i++) f.at.push_back(o.sh_at[i]); }
static std::unordered_map<string,Ref> refs; static size_t refs_max=400000;
static Ref lone(const Op& op0,uint64_t budget){ // the call alone in a pristine process
    Op op=op0; op.uid=0; op.rep=op.drift=0; ref_env(op); reset_shm(1);
    int st=in_child([&]{ if(g_defer) rt_run_initialisers(); rt_on_stack([&]{ rt_single(op,budget); }); shm->finished=1; }); note_death(st);
    Ref f; OpOut& o=shm->out[0]; f.viol=shm->viol; f.msg=shm->viol_msg; f.ok=!shm->viol&&o.status==ST_DONE; f.r=o.r; f.ticks=o.ticks; f.stack=o.stack; f.sh_w=o.sh_w; f.sh_r=o.sh_r; f.locks=o.locks; f.allocs=o.allocs; f.sys=o.sys; f.io=o.io; f.clock=o.clock; f.shared=false; note_shared(f,o); return f; }
static const Ref& ref_of(const Op& op){ string k=key_of(op); auto it=refs.find(k); if(it!=refs.end()) return it->second; return refs[k]=lone(op,BUDGET); }
static void refs_trim(){ if(refs.size()>refs_max) refs.clear(); } // between plans only

// Many references from one child: fast, and good enough until it decides something; the
// judge then asks for the call alone (ref_alone).  Not used where history is the question.
static void prefetch(const vector<Op>& ops){
    vector<Op> need; std::set<string> seen; for(auto&o:ops){ string k=key_of(o); if(!refs.count(k)&&seen.insert(k).second) need.push_back(o); }
    for(size_t i=0;i<need.size();){ size_t from=i, to=std::min(need.size(),from+400); reset_shm((int)(to-from)); 
        int st=in_child([&]{ if(g_defer) rt_run_initialisers(); rt_on_stack([&]{ for(size_t j=from;j<to;j++){ shm->cur_seq=j; Op o=need[j]; o.uid=(int)(j-from); o.rep=0; ref_env(o); rt_single(o,BUDGET); } }); shm->finished=1; });
        size_t done=to; bool bad=!(shm->finished&&!shm->viol); if(bad){ note_death(st); done=shm->cur_seq; }
        auto put=[&](size_t j,bool ok){ Ref f; OpOut& o=shm->out[j-from]; f.viol=ok?0:shm->viol; f.msg=ok?"":shm->viol_msg; f.ok=ok&&o.status==ST_DONE; f.r=o.r; f.ticks=o.ticks; f.stack=o.stack; f.sh_w=o.sh_w; f.sh_r=o.sh_r; f.locks=o.locks; f.allocs=o.allocs; f.sys=o.sys; f.io=o.io; f.clock=o.clock; f.shared=true; note_shared(f,o); refs[key_of(need[j])]=f; };
        for(size_t j=from;j<done;j++) put(j,true);
        if(bad&&done<to){ put(done,false); i=done+1; } else i=to; } }
static const Ref& ref_alone(const Op& op){ string k=key_of(op); auto it=refs.find(k); if(it!=refs.end()&&!it->second.shared) return it->second; return refs[k]=lone(op,BUDGET); }
static bool env_prop(const string& p){ return p=="C11"|| p=="C05"||p=="C06"||p=="C07"||p=="C08"||p=="C09"||p=="C17"; }
// ================================================================ running and judging a plan
static bool direct_mode(const string& prop){ return prop=="C07"||prop=="C17"; }
static int max_uid(const Plan& p){ int m=0; for(auto&t:p.th) for(auto&o:t) m=std::max(m,o.uid); for(auto&o:p.handlers) m=std::max(m,o.uid); return m; }
struct Verdict { int viol, uid; string msg; uint64_t hash; };
static bool seccomp_ok=true;
static void run_raw(const Plan& p,const string& prop){
    reset_shm(max_uid(p)+1);
    int st;
    if(direct_mode(prop)||(prop=="C09"&&p.th[0].size()&&p.th[0][0].env.sys)) st=in_child([&]{ rt_on_stack([&]{ if(prop=="C17") rt_readonly(); if(p.th[0].size()&&p.th[0][0].env.sys&&seccomp_ok) rt_seccomp(); for(auto& o:p.th[0]) rt_single(o,p.budget); shm->finished=1; _exit(0); }); });
    else st=in_child([&]{ rt_child_main(p); });
    note_death(st);
}
static const Op* find_op(const Plan& p,int uid){ for(auto&t:p.th) for(auto&o:t) if(o.uid==uid) return &o; for(auto&o:p.handlers) if(o.uid==uid) return &o; return nullptr; }

struct Cat { Op op; double w; bool hot; };
static vector<Cat> catalogue;
#include "modes.inc"

static Verdict judge(const Plan& p,const string& prop){
    Verdict v; v.viol=shm->viol; v.uid=shm->viol_uid; v.msg=shm->viol_msg; v.hash=shm->hash;
    if(v.viol==V_INTERNAL){ fprintf(stderr,"simulator error: %s\n",v.msg.c_str()); exit(2); }
    if(v.viol&&prop=="C17"&&v.viol!=V_WRITE) v.viol=0; // not the question here: C08 asks it
    if(v.viol) return v;
    auto each=[&](const Op& op)->bool{
        OpOut o=shm->out[op.uid]; if(o.status!=ST_DONE&&o.status!=ST_ABANDONED) return false;
        if(prop=="C05"||(prop=="C03"&&o.status==ST_ABANDONED)){
            unsigned lost=(o.mxcsr0&0x3d)&~o.mxcsr1, lostx=(o.sw0&0x3d)&~o.sw1;
            char b[250];
            if(((o.mxcsr0^o.mxcsr1)&~0x3fu)||o.cw0!=o.cw1){ snprintf(b,sizeof b,"floating-point control state changed by the call: MXCSR %04x -> %04x, x87 control %04x -> %04x",o.mxcsr0,o.mxcsr1,o.cw0,o.cw1); v.viol=V_ENV; v.uid=op.uid; v.msg=b; return true; }
            if(lost||lostx){ snprintf(b,sizeof b,"exception flags raised before the call were cleared by it: SSE %02x x87 %02x",lost,lostx); v.viol=V_ENV; v.uid=op.uid; v.msg=b; return true; }
            if(o.err1!=op.env.err){ snprintf(b,sizeof b,"errno was %d before the call and %d after it",op.env.err,o.err1); v.viol=V_ERRNO; v.uid=op.uid; v.msg=b; return true; }
        }
        if(o.status!=ST_DONE) return false;
        note_cost(op.entry,o.ticks);
        if(prop=="C07"){ char b[250];
            if(o.io||o.sys){ snprintf(b,sizeof b,"the call asked the operating system for something (%u system calls trapped, %u of them output or other external effects)",o.sys,o.io); v.viol=V_IO; v.uid=op.uid; v.msg=b; return true; }
            if(o.allocs){ snprintf(b,sizeof b,"the call used the heap (%u allocations, %u of them failed by the simulator)",o.allocs,o.alloc_failed); v.viol=V_IO; v.uid=op.uid; v.msg=b; return true; }
            if(o.clock){ snprintf(b,sizeof b,"the call used a clock, a random source or the environment (%u times)",o.clock); v.viol=V_IO; v.uid=op.uid; v.msg=b; return true; } }
        if(prop=="C17"&&o.err1!=op.env.err){ char b[120]; snprintf(b,sizeof b,"the call wrote errno: %d before it, %d after it",op.env.err,o.err1); v.viol=V_WRITE; v.uid=op.uid; v.msg=b; return true; }
        if(prop=="C05"||prop=="C08"||prop=="C15"||prop=="C17") return false;
        if(prop=="C06") { Ref rf=ref_of(op); string m; if(rf.ok&&!mode_ok(op,rf,o.r,m)){ rf=ref_alone(op); if(!rf.ok||mode_ok(op,rf,o.r,m)) return false; v.viol=V_MODE; v.uid=op.uid; v.msg=m; return true; } return false; }
        Ref rf=ref_of(op); if(!rf.ok) return false;
        if(prop=="C12"){ char b[250]; for(int tr=0;tr<2;tr++){ bool st=o.maxticks>rf.ticks+rf.ticks/8+64, sk=o.stack>rf.stack+rf.stack/8+1024; if(!st&&!sk) return false; if(rf.shared){ rf=ref_alone(op); if(!rf.ok) return false; continue; }
                if(st) snprintf(b,sizeof b,"took %llu steps, alone it takes %llu",(unsigned long long)o.maxticks,(unsigned long long)rf.ticks); else snprintf(b,sizeof b,"used %llu bytes of stack, alone it uses %llu",(unsigned long long)o.stack,(unsigned long long)rf.stack);
                v.viol=st?V_STEPS:V_STACK; v.uid=op.uid; v.msg=b; return true; } return false; }
        if(o.differs>=0){ v.viol=V_VALUE; v.uid=op.uid; v.msg="the call was made "+std::to_string(op.rep)+(op.drift?" times in a row, most with nearby arguments; number ":" times in a row; number ")+std::to_string(o.differs)+" returned "+res_text(o.r2)+" where the first returned "+res_text(o.r); return true; }
        if(!same_res(rf.r,o.r)&&rf.shared){ rf=ref_alone(op); if(!rf.ok) return false; }
        if(!same_res(rf.r,o.r)){ v.viol=V_VALUE; v.uid=op.uid; v.msg="returned "+res_text(o.r)+", alone it returns "+res_text(rf.r); return true; }
        return false; };
    // ref_of() reuses shm: keep a copy of what the run left
    static OpOut keep[MAXOPS]; int n=max_uid(p)+1; memcpy(keep,shm->out,sizeof(OpOut)*n);
    auto all=[&](const Op& o){ if(v.viol) return; shm->out[o.uid]=keep[o.uid]; each(o); };
    for(auto&t:p.th) for(auto&o:t) all(o);
    for(auto&o:p.handlers) all(o);
    memcpy(shm->out,keep,sizeof(OpOut)*n); return v; }
static Verdict run_plan(const Plan& p,const string& prop){
    // make sure every reference exists before the run, so that judging does not fork in between
    if(env_prop(prop)){ if(prop=="C06"||prop=="C09"||prop=="C11"){ vector<Op> v; for(auto&t:p.th) v.insert(v.end(),t.begin(),t.end()); prefetch(v); } }
    else { for(auto&t:p.th) for(auto&o:t) ref_of(o); for(auto&o:p.handlers) ref_of(o); }
    run_raw(p,prop); return judge(p,prop); }

// ================================================================ scanning for interesting calls
static vector<int> fn_ids; static vector<vector<int> > cat_of_entry; static size_t cov_bits=0; static uint64_t scan_calls=0;
static vector<Op> scan_bad; // calls that did not return at all when tried (judged by C08 and C07 only)
static void scan_batch(vector<Op>& b){
    for(size_t i=0;i<b.size();){
        reset_shm((int)b.size()); size_t from=i;
        int st=in_child([&]{ if(g_defer) rt_run_initialisers(); rt_on_stack([&]{ g_scan=true; for(size_t j=from;j<b.size();j++){ shm->cur_seq=j; Op o=b[j]; o.uid=(int)j; memset(covm->cov,0,COVSZ);
            rt_single(o,SCAN_BUDGET);
            // fold coverage into a signature: new bits are kept by the parent through cov2
            extern uint8_t* cov_total; extern uint8_t* cov_new; uint8_t nw=0; for(int q=0;q<COVSZ;q+=8){ uint64_t w; memcpy(&w,covm->cov+q,8); if(w) for(int z=0;z<8;z++) if(covm->cov[q+z]&&!cov_total[q+z]){ cov_total[q+z]=1; nw=1; } }
            cov_new[j]=nw; } }); shm->finished=1; });
        size_t done; if(shm->finished&&!shm->viol) done=b.size(); else { note_death(st); done=shm->cur_seq; }
        extern uint8_t* cov_new;
        for(size_t j=from;j<done;j++){ OpOut& o=shm->out[j]; scan_calls++;
            bool env=((o.mxcsr0^o.mxcsr1)&~0x3fu)||o.cw0!=o.cw1||o.err1!=0;
            bool hotp=o.sh_w||o.sh_r||o.locks||o.allocs||o.clock||env;
            if(hotp||cov_new[j]){ Cat c; c.op=b[j]; memset(&c.op.env,0,sizeof(Env)); c.w=1; c.hot=hotp; catalogue.push_back(c); } }
        if(done<b.size()){ scan_bad.push_back(b[done]); }
        i=done+1; if(done>=b.size()) break;
    }
}
uint8_t* cov_total; uint8_t* cov_new;
static void collect_dict(){
    std::set<LD> s(g_dict.begin(),g_dict.end());
    for(int i=0;i<CMPSZ;i++){ CmpSlot& c=covm->cmp[i]; if(!c.pc||c.n<3) continue; if(c.ca&&std::isfinite(c.a)&&c.a!=0) s.insert(fabsl((LD)c.a)); if(c.cb&&std::isfinite(c.b)&&c.b!=0) s.insert(fabsl((LD)c.b)); }
    g_dict.assign(s.begin(),s.end());
}
static void scan(Rng& r,const string& prop,int rounds,int per_entry,int extra_random){
    for(int rd=0;rd<rounds;rd++){ const Mix& m= (prop=="C08"||rd%3==2)?MIX_WILD:MIX_ORD;
        vector<Op> b;
        for(size_t e=0;e<ops_all.size();e++) for(int i=0;i<per_entry;i++){
            Op op;
            if(rd>0&&!catalogue.empty()&&r.chance(.3)) op=relative(r,catalogue[r.below(catalogue.size())].op); else op=gen_op(r,(int)e,m);
            b.push_back(op); if(b.size()==200){ scan_batch(b); b.clear(); } }
        if(!b.empty()) scan_batch(b);
        collect_dict();
    }
    for(int i=0;i<extra_random;i++){ Cat c; c.op=gen_op(r,(int)r.below(ops_all.size()),(prop=="C08"||i%4==0)?MIX_WILD:MIX_ORD); c.w=1; c.hot=false; catalogue.push_back(c); }
    cat_of_entry.assign(ops_all.size(),{});
    for(size_t i=0;i<catalogue.size();i++){ if(catalogue[i].hot) hot.push_back((int)i); cat_of_entry[catalogue[i].op.entry].push_back((int)i); }
    cov_bits=0; for(int q=0;q<COVSZ;q++) cov_bits+=cov_total[q]; }
// from time to time during the search, look at more calls
static const int RESCAN=1500;
static void rescan(Rng& r,const string& prop){
    size_t from=catalogue.size(); if(from>60000) return; vector<Op> b;
    for(int i=0;i<800;i++){ if(r.chance(.4)) b.push_back(relative(r,catalogue[r.below(catalogue.size())].op)); else b.push_back(gen_op(r,(int)r.below(ops_all.size()),(prop=="C08"||r.chance(.25))?MIX_WILD:MIX_ORD)); if(b.size()==200){ scan_batch(b); b.clear(); } }
    for(size_t i=from;i<catalogue.size();i++){ if(catalogue[i].hot) hot.push_back((int)i); cat_of_entry[catalogue[i].op.entry].push_back((int)i); } }
static bool g_fast=false; // environment properties filter their calls in one batch instead
static bool usable(const Op& op){ return g_fast||ref_of(op).ok; }
// a pool of related calls for one run
static vector<Op> make_pool(Rng& r,size_t want){
    vector<Op> pool; int nf=1+(int)r.below(3); int tries=0;
    while((pool.empty()||nf>0)&&tries++<60){
        Op b; 
        if(!hot.empty()&&r.chance(.75)) b=catalogue[hot[r.below(hot.size())]].op;
        else { const vector<int>* v; do { auto it=by_fn.begin(); std::advance(it,r.below(by_fn.size())); int e=it->second[r.below(it->second.size())]; v=&cat_of_entry[e]; } while(v->empty()); b=catalogue[(*v)[r.below(v->size())]].op; }
        if(!usable(b)) continue;
        pool.push_back(b); nf--; }
    for(int t=0;t<40&&pool.size()<want;t++){ Op q=relative(r,pool[r.below(pool.size())]); if(usable(q)) pool.push_back(q); }
    return pool; }

// ================================================================ plan generation
static int64_t point(Rng& r,const Op& op){ const Ref& ref=ref_of(op); uint64_t n=std::max<uint64_t>(ref.ticks,1); if(!ref.at.empty()&&r.chance(.5)) return std::max<int64_t>(1,(int64_t)ref.at[r.below(ref.at.size())]+(r.chance(.7)?0:(int)r.below(5)-2)); if(r.chance(.15)) return 1+(int64_t)r.below(std::min<uint64_t>(n,8)); if(r.chance(.1)) return (int64_t)n-(int64_t)r.below(std::min<uint64_t>(n,8)); return 1+(int64_t)r.below(n); }
// rounding direction of the SSE unit in the low two bits, that of the x87 relative to it above them
static uint8_t split_rm(Rng& r,uint8_t rm,double p){ return r.chance(p)? (uint8_t)((rm&3)|(1+r.below(3))<<2): rm; }
static void flush_some(Rng& r,Env& e){ int k=r.chance(.6)?3:1+(int)r.below(2); e.ftz=k&1; e.daz=k>>1; }
static Env random_fpenv(Rng& r){ Env e; memset(&e,0,sizeof e); e.rm=split_rm(r,(uint8_t)r.below(4)); if(r.chance(.4)) e.ftz=1; if(r.chance(.4)) e.daz=1; if(r.chance(.3)) e.pc=r.below(3); if(r.chance(.6)) e.flags=(uint8_t)(r.next()&0x3d); return e; }
// program life: initialisers run late, in any order or never; static and thread-exit destructors
// run early, between calls or while another thread is inside one
static void make_life_plan(Rng& r,Plan& p){
    int uid=0, nt=r.chance(.6)?1:2+(int)r.below(2); p.fibers=0; p.acts= nt>1? 1u<<A_SWITCH: 0; vector<Op> pool=make_pool(r,2+r.below(8));
    for(int t=0;t<nt;t++){ vector<Op> v; int k=1+(int)r.below(8); for(int i=0;i<k;i++){ Op o=pool[r.below(pool.size())]; o.uid=uid++; o.rep=0; if(r.chance(.3)) o.env.dirty=1+(uint32_t)r.below(1000000); v.push_back(o); } p.th.push_back(v); }
    auto dec=[&](int u,int64_t tk,int a,int64_t arg){ Dec d; d.uid=u; d.tick=tk; d.act=a; d.arg=arg; p.decs.push_back(d); };
    auto any=[&]()->const Op&{ auto& t=p.th[r.below(p.th.size())]; return t[r.below(t.size())]; };
    vector<int> g; for(int i=0;i<NGROUP;i++) g.push_back(i); for(size_t i=g.size();i>1;i--) std::swap(g[i-1],g[r.below(i)]);
    int how=(int)r.below(4); // all before the first call, some, none, late
    if(how==3){ int64_t last=0; size_t at=0; vector<const Op*> seq; for(auto&o:p.th[0]) seq.push_back(&o); for(int q:g){ if(r.chance(.5)&&at+1<seq.size()){ at++; last=0; } int64_t tk=std::max(last,r.chance(.6)?(int64_t)0:point(r,*seq[at])); dec(seq[at]->uid,tk,A_INIT,q); last=tk; } }
    else for(int q:g) if(how==0||(how==1&&r.chance(.5))) dec(p.th[0][0].uid,0,A_INIT,q);
    if(r.chance(.7)){ const Op& o=any(); dec(o.uid,r.chance(.6)?0:point(r,o),A_EXIT,r.chance(.7)?0:1+(int64_t)r.below(3)); }
    if(r.chance(.6)){ int k=1+(int)r.below(3); for(int i=0;i<k;i++) dec(any().uid,0,A_TEXIT,0); }
    if(nt>1) for(auto&t:p.th) for(auto&o:t) if(r.chance(.4)) dec(o.uid,point(r,o),A_SWITCH,(int64_t)r.below(nt)); }
static Plan make_plan(Rng& r,const string& prop){
    Plan p; p.budget=BUDGET; p.adaptive=true; p.seed=r.next(); int uid=0;
    static const double ps[]={0,0.05,0.2,0.5,0.9}; p.p_shared=ps[r.below(5)];
    if(env_prop(prop)){ make_env_plan(r,prop,p); return p; }
    if(prop=="C12"){ static const char* as[]={"C01","C02","C03","C03","C10"}; return make_plan(r,as[r.below(5)]); }
    if(prop=="C13"){ make_life_plan(r,p); return p; }
    if(prop=="C15"){ p=make_plan(r,"C01"); p.races=true; return p; }
    if(prop=="C14"){ static const char* as[]={"C01","C02","C03","C03","C10"}; p=make_plan(r,as[r.below(5)]); double d=r.chance(.5)?.5:.9; bool flush=r.chance(.4); int one=r.chance(.3)?1+(int)r.below(3):0;
        auto set=[&](Op& o){ if(r.chance(d)) o.env.rm= one? one: split_rm(r,(uint8_t)r.below(4)); if(flush&&r.chance(.5)) flush_some(r,o.env); const Ref& f=ref_of(o); if(!f.ok) memset(&o.env,0,sizeof o.env); if(o.rep>1) o.rep=(int)std::max<uint64_t>(2,std::min<uint64_t>((uint64_t)o.rep,30000000ull/(ref_of(o).ticks+1))); };
        for(auto&t:p.th) for(auto&o:t) set(o); for(auto&o:p.handlers) set(o); return p; }
    int nt=1, maxops=5;
    if(prop=="C01") { nt=2+(int)r.below(3); p.acts=1u<<A_SWITCH; if(r.chance(.5)) p.acts|=1u<<A_STALE; }
    else if(prop=="C10") { nt=2+(int)r.below(3); p.acts=1u<<A_SWITCH; p.fibers=r.chance(.5)?3:1; }
    else if(prop=="C16") { nt=1+(int)r.below(4); p.acts=1u<<A_SWITCH; p.fibers=r.chance(.3)?7:5; }
    else if(prop=="C02"){ nt=r.chance(.7)?1:2; maxops=3; p.acts=(1u<<A_INTR)|(nt>1?1u<<A_SWITCH:0); }
    else if(prop=="C03"){ nt=1; maxops=30; p.acts=1u<<A_ABANDON; if(r.chance(.3)) p.acts=0; }
    else if(prop=="C04"){ nt=2+(int)r.below(3); p.acts=(1u<<A_SWITCH)|(1u<<A_STALL)|(r.chance(.6)?(1u<<A_KILL):0)|(r.chance(.3)?(1u<<A_FORK):0); p.stall_is_fatal=true; }
    // shapes beside the general one: everybody inside a call at once, or one caller overtaken by many calls
    bool sched=prop=="C01"||prop=="C10"||prop=="C04"||prop=="C16"; int shape=0;
    if((sched||prop=="C02")&&r.chance(hot.empty()?.08:.3)) shape=1+(int)r.below(2);
    if((prop=="C01"||prop=="C04")&&r.chance(hot.empty()?.002:.03)) shape=3;
    vector<Op> pool=make_pool(r, prop=="C03"? 6+r.below(8) : shape? 2+r.below(12) : 2+r.below(6));
    auto to=[&](int64_t a){ return p.fibers&4? (r.chance(.3)? (int64_t)0: a)|((int64_t)r.below(NCAR+1)<<16): a; }; // which coroutine goes on, and on which thread
    if(shape){
        auto put=[&](vector<Op>& v,const Op& o){ v.push_back(o); v.back().uid=uid++; v.back().rep=0; };
        auto dec=[&](int u,int64_t tk,int a,int64_t arg){ Dec d; d.uid=u; d.tick=tk; d.act=a; d.arg=arg; p.decs.push_back(d); };
        auto pick=[&]()->const Op&{ return pool[r.below(pool.size())]; };
        if(r.chance(.7)) p.p_shared=0;
        if(prop=="C02"){ // a tower of handlers, or one call interrupted again and again
            p.th.push_back(vector<Op>()); put(p.th[0],pick()); if(r.chance(.5)) put(p.th[0],pick());
            int k= shape==1? (r.chance(.03)? 40+(int)r.below(100): 3+(int)r.below(36)) : r.chance(.2)? (8<<r.below(6)): 8+(int)r.below(r.chance(.03)?600:120); for(int i=0;i<k;i++) put(p.handlers,pick());
            if(shape==1) for(int i=0;i<k;i++){ const Op& o= i? p.handlers[i-1]: p.th[0][0]; dec(o.uid,point(r,o),A_INTR,p.handlers[i].uid); }
            else { int64_t at=point(r,p.th[0][0]); for(int i=0;i<k;i++) dec(p.th[0][0].uid,at,A_INTR,p.handlers[i].uid); }
            p.acts=1u<<A_INTR; return p; }
        if(shape==3){ nt=65+(int)r.below(MAXTH-75); // a procession of threads, a few of them held up inside their call
            for(int t=0;t<nt;t++){ p.th.push_back(vector<Op>()); put(p.th[t],pick()); if(r.chance(.1)){ const Op& o=p.th[t][0]; dec(o.uid,point(r,o),prop=="C04"&&r.chance(.5)?A_STALL:A_SWITCH,(int64_t)r.below(nt)); } if(r.chance(.1)) put(p.th[t],pick()); }
            return p; }
        if(shape==1){ nt=4+(int)r.below(CROWD-5); double sc=r.chance(.5)?.3:r.chance(.5)?.1:.8; if(r.chance(hot.empty()?.01:.08)) nt=CROWD+(int)r.below(MAXTH-50-CROWD); bool same=r.chance(.5);
            for(int t=0;t<nt;t++){ p.th.push_back(vector<Op>()); put(p.th[t],pick()); int64_t n=point(r,p.th[t][0]); if(same&&t) n=std::min<int64_t>(p.decs[0].tick,(int64_t)ref_of(p.th[t][0]).ticks); dec(p.th[t][0].uid,n,A_SWITCH,to((t+1)%nt)); if(prop=="C04"&&r.chance(sc)) dec(p.th[t][0].uid,n+1,r.chance(.5)?A_STALL:A_KILL,0); if(r.chance(.2)) put(p.th[t],pick()); }
        } else { nt=2; p.th.resize(2); put(p.th[0],pick()); if(r.chance(.5)) put(p.th[0],Op(p.th[0][0])); // the second time it may find what it left
            const Op held=p.th[0].back(); int64_t at=point(r,held); dec(held.uid,at,A_SWITCH,p.fibers&4? 1|(int64_t)r.below(NCAR+1)<<16: 1); if(prop=="C04") dec(held.uid,at,A_STALL,0);
            if(r.chance(.45)){ // one call over and over with moving arguments, a round number of times: a short sequence number is the same again
                Op o=r.chance(.6)?relative(r,held):pick(); const Ref& f=ref_of(o); if(f.ok&&f.viol==0){ uint64_t cap=3000000ull/(f.ticks+1), k=1ull<<(5+r.below(7)); while(k>cap&&k>2) k/=2; o.uid=uid++; { static const int off[]={0,0,0,0,1,1,2,-1}; o.rep=(int)k+off[r.below(8)]; } if(o.rep<1) o.rep=1; if(r.chance(.9)) o.drift=1+(int)r.below(7); p.th[1].push_back(o); return p; } }
            int k= r.chance(.3)? (1<<(3+r.below(6))): 10+(int)r.below(r.chance(.2)?400:60); for(int i=0;i<k;i++) put(p.th[1],pick()); }
        return p; }
    if(prop=="C03"&&!hot.empty()&&r.chance(.004)){ // one call that leaves something behind, very often: counters of sixteen bits wrap round
        Op o=pool[r.below(pool.size())]; uint64_t cap=240000000ull/(ref_of(o).ticks+1); if(cap>2000){ o.uid=uid++; o.rep=(int)std::min<uint64_t>(cap,70000); if(r.chance(.5)) o.drift=1+(int)r.below(7); p.budget=300000000; p.th.push_back(vector<Op>(1,o)); for(int i=0;i<3;i++){ Op q=pool[r.below(pool.size())]; q.uid=uid++; q.rep=0; p.th[0].push_back(q); } p.adaptive=false; return p; } }
    if(prop=="C03"){ // long histories: many different calls, or one call very often
        if(r.chance(hot.empty()?.02:.10)){ maxops=1200; size_t want=20+r.below(300); while(pool.size()<want){ size_t b4=pool.size(); vector<Op> q=make_pool(r,want); pool.insert(pool.end(),q.begin(),q.end()); if(pool.size()==b4) break; } } }
    for(int t=0;t<nt;t++){ vector<Op> v; int k=1+(int)r.below(maxops); for(int i=0;i<k;i++){ Op o=pool[r.below(pool.size())]; o.uid=uid++; if(prop=="C03"&&maxops<100&&r.chance(.06)){ uint64_t cap=(r.chance(.1)?30000000ull:3000000ull)/(ref_of(o).ticks+1); if(cap>1) o.rep=2+(int)r.below(std::min<uint64_t>(cap,r.chance(.05)?2200000:70000)); if(o.rep>16&&r.chance(.5)) o.drift=1+(int)r.below(7); } v.push_back(o); } p.th.push_back(v); }
    if(prop=="C02"){ int k=1+(int)r.below(6); for(int i=0;i<k;i++){ Op o=pool[r.below(pool.size())]; o.uid=uid++; p.handlers.push_back(o); } }
    // planned decisions, placed inside the calls
    auto dec=[&](int u,int64_t tk,int a,int64_t arg){ Dec d; d.uid=u; d.tick=tk; d.act=a; d.arg=arg; p.decs.push_back(d); };
    double dens= r.chance(.2)?4: r.chance(.5)?1.5:0.6;
    if(sched||(prop=="C02"&&nt>1)) for(auto&t:p.th) for(auto&o:t){ double e=dens; while(e>0&&r.chance(std::min(1.0,e))){ int64_t a=(int64_t)r.below(nt); if(p.fibers&4){ if(r.chance(.4)) a=&t-&p.th[0]; a|=(int64_t)r.below(NCAR+1)<<16; } dec(o.uid,point(r,o),A_SWITCH,a); e-=1; } }
    if(p.fibers&2) for(auto&t:p.th) for(auto&o:t) if(r.chance(.5)) o.env.flags=(uint8_t)(r.next()&0x3d);
    if(prop=="C02"){ size_t nh=p.handlers.size(); for(size_t i=0;i<nh;i++){ if(r.chance(.8)){ // target: some thread op or an earlier handler
                vector<const Op*> c; for(auto&t:p.th) for(auto&o:t) c.push_back(&o); for(size_t j=0;j<i;j++) c.push_back(&p.handlers[j]); const Op* o=c[r.below(c.size())]; dec(o->uid,point(r,*o),A_INTR,p.handlers[i].uid); } } }
    if(prop=="C03") for(auto&o:p.th[0]) if(r.chance(.25)) dec(o.uid,point(r,o),A_ABANDON,0);
    if(prop=="C03"&&g_moderef&&r.chance(.35)){ static const int es[]={EDOM,ERANGE,EINTR,ENOMEM}; bool flush=r.chance(.3); // callers in other modes, with flags raised and errno set
        for(auto&o:p.th[0]) if(r.chance(.6)){ o.env.rm=split_rm(r,(uint8_t)r.below(4)); if(flush&&r.chance(.5)) flush_some(r,o.env); if(!ref_of(o).ok) memset(&o.env,0,sizeof o.env); if(r.chance(.5)) o.env.flags=(uint8_t)(r.next()&0x3d); if(r.chance(.5)) o.env.err=es[r.below(4)];
            if(o.rep>1) o.rep=(int)std::max<uint64_t>(2,std::min<uint64_t>((uint64_t)o.rep,30000000ull/(ref_of(o).ticks+1))); } }
    if(prop=="C04"){ int k=1+(int)r.below(nt); for(int i=0;i<k;i++){ auto& t=p.th[r.below(nt)]; Op& o=t[r.below(t.size())]; dec(o.uid,point(r,o),r.chance(.4)?A_STALL:r.chance(.6)?A_KILL:A_FORK,0); } }
    return p; }
static Plan explicit_of(const Plan& p){ Plan q=p; q.adaptive=false; q.decs.assign(shm->dec,shm->dec+shm->ndec); q.picks.assign(shm->picks,shm->picks+shm->npick); return q; }

// ================================================================ minimisation
static Plan drop_uid(const Plan& p,int uid){ Plan q=p; for(auto&t:q.th) t.erase(std::remove_if(t.begin(),t.end(),[&](const Op&o){return o.uid==uid;}),t.end()); q.handlers.erase(std::remove_if(q.handlers.begin(),q.handlers.end(),[&](const Op&o){return o.uid==uid;}),q.handlers.end());
    q.decs.erase(std::remove_if(q.decs.begin(),q.decs.end(),[&](const Dec&d){return d.uid==uid||(d.act==A_INTR&&d.arg==uid);}),q.decs.end()); return q; }
static size_t plan_size(const Plan& p){ size_t n=0; for(auto&t:p.th) n+=t.size(); return n+p.handlers.size()+p.decs.size(); }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static Plan minimise(Plan p,const string& prop,int code){
    double tend=now()+45; // only bounds how far the trace shrinks
    int tries=0; auto ok=[&](const Plan& q){ bool empty=true; for(auto&t:q.th) if(!t.empty()) empty=false; if(empty||tries++>1500||now()>tend) return false; Verdict v=run_plan(q,prop); return v.viol==code; };
    { Plan q=p; q.picks.clear(); if(ok(q)) p=q; }
    bool ch=true; while(ch&&tries<1500&&now()<tend){ ch=false;
        for(size_t t=p.th.size();t-->0;) if(p.th.size()>1){ Plan q=p; for(auto&o:p.th[t]) { q.decs.erase(std::remove_if(q.decs.begin(),q.decs.end(),[&](const Dec&d){return d.uid==o.uid;}),q.decs.end()); } q.th[t].clear(); if(!p.th[t].empty()&&ok(q)){ p=q; ch=true; } }
        // halves of each thread, then single operations
        for(size_t t=0;t<p.th.size();t++) for(size_t w=p.th[t].size()/2;w>=2;w/=2) for(size_t i=0;i+w<=p.th[t].size();){ Plan q=p; for(size_t j=i;j<i+w;j++) q=drop_uid(q,p.th[t][j].uid); if(ok(q)){ p=q; ch=true; } else i+=w; }
        vector<int> u; for(auto&t:p.th) for(auto&o:t) u.push_back(o.uid); for(auto&o:p.handlers) u.push_back(o.uid);
        for(size_t i=u.size();i-->0;){ Plan q=drop_uid(p,u[i]); if(ok(q)){ p=q; ch=true; } }
        for(size_t w=p.decs.size()/2;w>=1;w/=2) for(size_t i=0;i+w<=p.decs.size();){ Plan q=p; q.decs.erase(q.decs.begin()+i,q.decs.begin()+i+w); if(ok(q)){ p=q; ch=true; } else i+=w; }
        for(size_t t=0;t<p.th.size();t++) for(size_t i=0;i<p.th[t].size();i++) if(p.th[t][i].drift){ Plan q=p; q.th[t][i].drift=0; if(ok(q)){ p=q; ch=true; } }
        for(size_t t=0;t<p.th.size();t++) for(size_t i=0;i<p.th[t].size();i++) while(p.th[t][i].rep>1){ Plan q=p; q.th[t][i].rep/=2; if(ok(q)){ p=q; ch=true; } else break; }
        for(size_t t=0;t<p.th.size();t++) for(size_t i=0;i<p.th[t].size();i++) for(int st=1<<16;st>0&&p.th[t][i].rep>1;st/=2){ if(p.th[t][i].rep<=st) continue; Plan q=p; q.th[t][i].rep-=st; if(ok(q)){ p=q; ch=true; } }
        // calm the environment down field by field
        for(size_t t=0;t<p.th.size();t++) for(size_t i=0;i<p.th[t].size();i++) for(int f=0;f<14;f++){ Plan q=p; Env& e=q.th[t][i].env; Env z=e; switch(f){case 0:e.rm=0;break;case 13:e.rm&=3;break;case 1:e.ftz=0;break;case 2:e.daz=0;break;case 3:e.pc=0;break;case 4:e.flags=0;break;case 5:e.dirty=0;break;case 6:e.noise=0;break;case 7:e.alloc=0;break;case 8:e.err=0;break;case 9:e.disp=0;break;case 10:e.sys=0;break;case 11:e.stack_kb=0;break;case 12:e.traps=0;break;} if(!(e==z)&&ok(q)){ p=q; ch=true; } }
        for(size_t i=0;i<p.handlers.size();i++) for(int f=0;f<3;f++){ Plan q=p; Env& e=q.handlers[i].env; Env z=e; if(f==0) e.rm=0; else if(f==1) e.ftz=0; else e.daz=0; if(!(e==z)&&ok(q)){ p=q; ch=true; } }
    }
    { Plan q=p; q.th.erase(std::remove_if(q.th.begin(),q.th.end(),[](const vector<Op>&t){return t.empty();}),q.th.end()); bool sw=false; for(auto&d:q.decs) if(d.act==A_SWITCH) sw=true; if(!sw&&q.th.size()<p.th.size()&&ok(q)) p=q; }
    return p; }

// ================================================================ replay files
static void write_op(FILE* f,const char* tag,int th,const Op& o){ const OpEntry& e=ops_all[o.entry]; fprintf(f,"%s %d %d %s %s",tag,th,o.uid,e.fn,e.kinds); for(int i=0;i<3;i++){ fprintf(f," "); const unsigned char* c=(const unsigned char*)&o.a[i].f; for(int j=0;j<10;j++) fprintf(f,"%02x",c[j]); fprintf(f,":%lld",(long long)o.a[i].i); }
    const Env& v=o.env; fprintf(f," env %d %d %d %d %d %d %d %d %d %u %u %u %u rep %d %d   # %s\n",v.rm,v.ftz,v.daz,v.pc,v.flags,v.traps,v.alloc,v.sys,v.err,v.dirty,v.noise,v.stack_kb,v.disp,o.rep,o.drift,op_text(o).c_str()); }
static const char* act_name(int a){ static const char* n[]={"?","switch","interrupt","abandon","stall","kill","fork","initialise","exit","thread-exit","stale-load"}; return n[a]; }
static void write_replay(const string& path,const Plan& p,const string& prop,const Verdict& v,const string& origin){
    FILE* f=fopen(path.c_str(),"w"); if(!f){ perror(path.c_str()); exit(2); }
    fprintf(f,"gcemsim-replay 1\nprop %s\norigin %s\nfatalstall %d\nfibers %d\nmemory %d %d\nthreads %zu\n",prop.c_str(),origin.c_str(),p.stall_is_fatal?1:0,p.fibers,p.races?1:0,p.acts&(1u<<A_STALE)?1:0,p.th.size());
    for(size_t t=0;t<p.th.size();t++) for(auto&o:p.th[t]) write_op(f,"op",(int)t,o);
    for(auto&o:p.handlers) write_op(f,"handler",-1,o);
    for(auto&d:p.decs) fprintf(f,"dec %d %lld %d %lld   # at step %lld of call %d: %s %lld\n",d.uid,(long long)d.tick,(int)d.act,(long long)d.arg,(long long)d.tick,d.uid,act_name(d.act),(long long)d.arg);
    for(int k:p.picks) fprintf(f,"pick %d\n",k);
    fprintf(f,"expect %s %d %016llx\n# violation: %s in call %d (%s): %s\n",viol_name(v.viol),v.uid,(unsigned long long)v.hash,viol_name(v.viol),v.uid, find_op(p,v.uid)?op_text(*find_op(p,v.uid)).c_str():"-",v.msg.c_str());
    fclose(f); }
static int find_entry(const char* fn,const char* k){ for(size_t i=0;i<ops_all.size();i++) if(!strcmp(ops_all[i].fn,fn)&&!strcmp(ops_all[i].kinds,k)) return (int)i; fprintf(stderr,"unknown operation %s<%s>\n",fn,k); exit(2); }
static int replay(const string& path){
    FILE* f=fopen(path.c_str(),"r"); if(!f){ perror(path.c_str()); return 2; }
    char line[4096]; Plan p; string prop,exp; unsigned long long eh=0; int euid=-1; p.budget=BUDGET;
    while(fgets(line,sizeof line,f)){
        char a[64],b[64],c[64]; int th,uid; 
        if(sscanf(line,"prop %63s",a)==1){ prop=a; continue; }
        { int mr,mw; if(sscanf(line,"memory %d %d",&mr,&mw)==2){ p.races=mr; p.acts=mw?1u<<A_STALE:0; continue; } }
        if(sscanf(line,"fatalstall %d",&th)==1){ p.stall_is_fatal=th; continue; }
        if(sscanf(line,"fibers %d",&th)==1){ p.fibers=th; continue; }
        if(sscanf(line,"threads %d",&th)==1){ p.th.resize(th); continue; }
        if(!strncmp(line,"op ",3)||!strncmp(line,"handler ",8)){ char h[3][64]; Op o; memset(&o,0,sizeof o); unsigned ev[13]; int rep=0,dr=0;
            int n=sscanf(line,"%63s %d %d %63s %63s %63s %63s %63s env %u %u %u %u %u %u %u %u %d %u %u %u %u rep %d %d",a,&th,&uid,b,c,h[0],h[1],h[2],&ev[0],&ev[1],&ev[2],&ev[3],&ev[4],&ev[5],&ev[6],&ev[7],(int*)&ev[8],&ev[9],&ev[10],&ev[11],&ev[12],&rep,&dr);
            if(n!=23){ fprintf(stderr,"bad replay line: %s",line); return 2; }
            o.uid=uid; o.entry=find_entry(b,c); for(int i=0;i<3;i++){ unsigned char* q=(unsigned char*)&o.a[i].f; for(int j=0;j<10;j++){ unsigned x; sscanf(h[i]+2*j,"%2x",&x); q[j]=(unsigned char)x; } o.a[i].i=atoll(strchr(h[i],':')+1); }
            o.env.rm=ev[0];o.env.ftz=ev[1];o.env.daz=ev[2];o.env.pc=ev[3];o.env.flags=ev[4];o.env.traps=ev[5];o.env.alloc=ev[6];o.env.sys=ev[7];o.env.err=(int)ev[8];o.env.dirty=ev[9];o.env.noise=ev[10];o.env.stack_kb=ev[11];o.env.disp=ev[12];o.rep=rep; o.drift=dr;
            if(!strcmp(a,"op")) p.th[th].push_back(o); else p.handlers.push_back(o); continue; }
        if(!strncmp(line,"dec ",4)){ Dec d; long long tk,ar; int act; if(sscanf(line,"dec %d %lld %d %lld",&d.uid,&tk,&act,&ar)!=4) return 2; d.tick=tk; d.act=act; d.arg=ar; p.decs.push_back(d); continue; }
        if(sscanf(line,"pick %d",&th)==1){ p.picks.push_back(th); continue; }
        if(!strncmp(line,"expect ",7)){ sscanf(line,"expect %63s %d %llx",a,&euid,&eh); exp=a; }
    }
    fclose(f);
    Verdict v=run_plan(p,prop);
    printf("replayed: %s call %d hash %016llx: %s\n",viol_name(v.viol),v.uid,(unsigned long long)v.hash,v.msg.c_str());
    if(v.viol&&exp==viol_name(v.viol)&&euid==v.uid&&eh==v.hash){ printf("REPRODUCED\n"); return 0; }
    printf("NOT REPRODUCED (expected %s call %d hash %016llx)\n",exp.c_str(),euid,eh); return 1; }

// ================================================================ known findings
static vector<string> known; // "prop fn<kinds>(args)" prefixes handled in modes.inc

static string jesc(const string& s){ string o; for(char c:s){ if(c=='"'||c=='\\') o+='\\'; if((unsigned char)c<32) o+=' '; else o+=c; } return o; }


static int study(Rng&,int,char**){
    std::map<string,std::pair<uint64_t,uint64_t> > mx; std::map<string,string> wt,ws;
    for(auto&c:catalogue){ const Ref& f=ref_of(c.op); if(!f.ok){ printf("BAD %s %s\n",op_text(c.op).c_str(),f.msg.c_str()); continue; } string k=string(ops_all[c.op.entry].fn)+(has_l(c.op)?" l":""); auto& m=mx[k]; if(f.ticks>m.first){m.first=f.ticks; wt[k]=op_text(c.op);} if(f.stack>m.second){m.second=f.stack; ws[k]=op_text(c.op);} }
    for(auto&b:scan_bad){ Ref f=lone(b,BUDGET); printf("SCANBAD %s -> %s\n",op_text(b).c_str(),f.msg.c_str()); }
    for(auto&m:mx) printf("%-28s ticks %9llu stack %8llu  %s | %s\n",m.first.c_str(),(unsigned long long)m.second.first,(unsigned long long)m.second.second,wt[m.first].c_str(),ws[m.first].c_str());
    printf("hot %zu cat %zu dict %zu cov %zu\n",hot.size(),catalogue.size(),g_dict.size(),cov_bits);
    return 0; }

// measurement aid: how far results move with the rounding direction
static int study_modes(Rng& r,int n){
    struct W { LD d; string t; }; std::map<string,vector<W> > w; std::map<string,int> cls;
    for(size_t e=0;e<ops_all.size();e++) for(int b=0;b<n;b+=50){
        Plan p; p.budget=BUDGET; vector<Op> v; vector<Op> src; for(int i=0;i<50;i++) src.push_back(gen_op(r,(int)e,MIX_ORD));
        int uid=0; for(auto&o:src) for(int m=0;m<4;m++){ Op q=o; q.uid=uid++; q.env.rm=m; v.push_back(q); }
        reset_shm(uid); int st=in_child([&]{ rt_on_stack([&]{ for(auto&o:v) rt_single(o,BUDGET); }); shm->finished=1; }); note_death(st);
        if(shm->viol) printf("DEATH %s %s\n", shm->cur_uid>=0?op_text(v[shm->cur_uid]).c_str():"?",shm->viol_msg);
        for(int i=0;i<50;i++){ const Res& a=shm->out[4*i].r; if(shm->out[4*i].status!=ST_DONE) continue; for(int m=1;m<4;m++){ if(shm->out[4*i+m].status!=ST_DONE) continue; const Res& c=shm->out[4*i+m].r; if(same_res(a,c)) continue;
            if(!exact_fn(src[i])&&!moderate(src[i])) continue; if(exact_fn(src[i])&&a.f==c.f&&a.i==c.i) continue;
            string k=string(ops_all[e].fn)+"<"+ops_all[e].kinds+">"; LD d; if(!isfp(a.kind)) d=1e30L; else { bool fa=std::isfinite(a.f),fc=std::isfinite(c.f); if(!fa||!fc) d=1e20L; else { LD ep=a.kind=='f'?FLT_EPSILON:a.kind=='d'?DBL_EPSILON:LDBL_EPSILON; d=mode_dev(a,c); (void)ep; } }
            w[k].push_back({d,op_text(v[4*i])+" m"+std::to_string(m)+": "+res_text(a)+" vs "+res_text(c)}); } } }
    for(auto&k:w){ auto&x=k.second; std::sort(x.begin(),x.end(),[](const W&a,const W&b){return a.d>b.d;}); printf("%-26s n=%zu p90=%.3Lg\n",k.first.c_str(),x.size(),x[x.size()/10].d); for(size_t i=0;i<x.size()&&i<3;i++) printf("      %.3Lg %s\n",x[i].d,x[i].t.c_str()); }
    return 0; }

int main(int argc,char** argv){
    string prop,rep,dictf,out="/tmp",variant="?",cmd="search"; uint64_t seed=1; int runs=1000,worker=0; double maxs=600; int rounds=2,per=30; 
    for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ if(i+1>=argc) exit(2); return string(argv[++i]); };
        if(a=="--prop") prop=nx(); else if(a=="--seed") seed=strtoull(nx().c_str(),0,10); else if(a=="--runs") runs=atoi(nx().c_str()); else if(a=="--worker") worker=atoi(nx().c_str()); else if(a=="--replay"){ rep=nx(); cmd="replay"; } else if(a=="--out") out=nx(); else if(a=="--variant") variant=nx(); else if(a=="--max-seconds") maxs=atof(nx().c_str()); else if(a=="--rounds") rounds=atoi(nx().c_str()); else if(a=="--per-entry") per=atoi(nx().c_str()); else if(a=="--cmd") cmd=nx(); else if(a=="--dict") dictf=nx(); }
    const OpGroup* gs[]={&ops_group_0,&ops_group_1,&ops_group_2,&ops_group_3,&ops_group_4,&ops_group_5,&ops_group_6,&ops_group_7};
    for(auto g:gs) for(int i=0;i<g->n;i++) ops_all.push_back(g->e[i]);
    g_ops=ops_all.data(); g_nops=(int)ops_all.size();
    for(size_t i=0;i<ops_all.size();i++) by_fn[ops_all[i].fn].push_back((int)i);
    shm=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    covm=(ShmCov*)mmap(nullptr,sizeof(ShmCov),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    cov_total=(uint8_t*)mmap(nullptr,COVSZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    cov_new=(uint8_t*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    rt_init();
    auto life=[&](const string& pr){ g_defer= pr=="C13"; g_moderef= pr=="C14"||pr=="C09"||pr=="C03"; if(!g_defer) rt_run_initialisers(); };
    if(cmd!="replay") life(prop); else { FILE* f=fopen(rep.c_str(),"r"); char l[4096],a[64]; string pr; if(f){ while(fgets(l,sizeof l,f)) if(sscanf(l,"prop %63s",a)==1) pr=a; fclose(f); } life(pr); }
    { cpu_set_t s; CPU_ZERO(&s); long nc=sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(worker%(nc>0?nc:1),&s); sched_setaffinity(0,sizeof s,&s); }
    if(cmd=="replay") return replay(rep);
    if(env_prop(prop)) refs_max=20000; // few come back, and every fork copies the map of this memory
    if(!dictf.empty()){ FILE* f=fopen(dictf.c_str(),"r"); if(f){ char b[256]; while(fgets(b,sizeof b,f)){ LD v=strtold(b,nullptr); if(std::isfinite(v)&&v!=0) g_dict.push_back(v); } fclose(f); } }
    double t0=now();
    Rng r(mix(mix(seed,worker+1000),std::hash<string>()(prop+variant)));
    g_fast=env_prop(prop);
    scan(r,prop,rounds,per,400);
    double t1=now(), until=std::max(t0+maxs,t1+std::min(maxs,20.0)); // some search even when the scan took all the time
    if(cmd=="study") return study(r,argc,argv);
    if(cmd=="modes") return study_modes(r,runs);
    uint64_t done=0, ticks=0, fired[NFIRED]={0}, shev=0, lw=0, af=0, sf=0, cr=0, calls=0, unrep=0; std::unordered_set<uint64_t> distinct; uint64_t nontriv=0; vector<string> samples; uint64_t evhash=0; uint64_t envn[16]={0}; uint64_t mxt=0,mxs=0; string mxtw,mxsw;
    string vfile, vtext;
    size_t next_bad=0;
    for(int k=0;k<runs&&now()<until;k++){
        Rng rr(mix(mix(seed*1000003+worker,std::hash<string>()(prop)),k));
        refs_trim(); if(k&&k%RESCAN==0) rescan(rr,prop);
        Plan p= (prop=="C08"&&next_bad<scan_bad.size())? plan_for_bad(rr,scan_bad[next_bad++]) : make_plan(rr,prop); for(auto&t:p.th) for(auto&o:t) if(!strcmp(ops_all[o.entry].fn,"binomial_coef")) o.drift=0; // its cost is not near that of a nearby call
        if(p.th.empty()) continue;
        Verdict v=run_plan(p,prop);
        done++; for(auto&t:p.th) calls+=t.size(); calls+=p.handlers.size(); ticks+=shm->total_ticks; for(int a=0;a<NFIRED;a++) fired[a]+=shm->fired[a]; shev+=shm->shared_events; lw+=shm->lock_waits; af+=shm->alloc_failed; sf+=shm->sys_failed; cr+=shm->clock_reads;
        for(auto&t:p.th) for(auto&o:t){ const Env&e=o.env; if(e.rm) envn[0]++; if(e.ftz||e.daz) envn[1]++; if(e.pc) envn[2]++; if(e.flags) envn[3]++; if(e.err) envn[4]++; if(e.alloc) envn[5]++; if(e.sys) envn[6]++; if(e.dirty) envn[7]++; if(e.noise) envn[8]++; if(e.stack_kb) envn[9]++; if(e.traps) envn[10]++; if(e.disp) envn[11]++; if(o.rep>1) envn[12]++; }
        if(!v.viol) for(auto&t:p.th) for(auto&o:t){ const OpOut& q=shm->out[o.uid]; if(q.status!=ST_DONE) continue; if(q.ticks/(o.rep>1?o.rep:1)>mxt){ mxt=q.ticks/(o.rep>1?o.rep:1); mxtw=op_text(o); } if(q.stack>mxs){ mxs=q.stack; mxsw=op_text(o); } }
        uint64_t dh=0; for(auto&t:p.th){ dh=mix(dh,77); for(auto&o:t) dh=mix(dh,mix(o.entry,std::hash<string>()(key_of(o)+string((const char*)&o.env,sizeof(Env))))); } for(int i=0;i<shm->ndec;i++) dh=mix(dh,mix(shm->dec[i].tick,(uint64_t)shm->dec[i].uid*8+shm->dec[i].act)); 
        bool nt= shm->ndec>0; for(auto&t:p.th) for(auto&o:t){ Env z; memset(&z,0,sizeof z); if(!(o.env==z)) nt=true; }
        if(nt&&distinct.insert(dh).second) nontriv++;
        evhash=mix(evhash,v.hash);
        if(samples.size()<3&&nt&&k%7==3){ string s; for(size_t t=0;t<p.th.size();t++){ s+="T"+std::to_string(t)+":"; for(auto&o:p.th[t]) s+=" #"+std::to_string(o.uid)+" "+op_text(o); s+="; "; } for(auto&o:p.handlers) s+="handler #"+std::to_string(o.uid)+" "+op_text(o)+"; "; for(int i=0;i<shm->ndec&&i<12;i++) s+=string(act_name(shm->dec[i].act))+"@#"+std::to_string(shm->dec[i].uid)+":"+std::to_string(shm->dec[i].tick)+" "; samples.push_back(s.substr(0,900)); }
        if(v.viol){
            Plan e=explicit_of(p); Verdict a=run_plan(e,prop), b=run_plan(e,prop);
            if(a.viol!=v.viol||b.viol!=a.viol||a.hash!=b.hash||a.hash!=v.hash){ unrep++; fprintf(stderr,"unreproducible: run %d %s/%s/%s %llx %llx %llx\n",k,viol_name(v.viol),viol_name(a.viol),viol_name(b.viol),(unsigned long long)v.hash,(unsigned long long)a.hash,(unsigned long long)b.hash); if(unrep>20) break; continue; }
            Plan m=minimise(e,prop,v.viol); Verdict f1=run_plan(m,prop), f2=run_plan(m,prop);
            if(!f1.viol||f1.hash!=f2.hash||f1.viol!=f2.viol){ m=e; f1=a; }
            vfile=out+"/"+prop+"-"+variant+"-s"+std::to_string(seed)+"-w"+std::to_string(worker)+"-r"+std::to_string(k)+".replay";
            write_replay(vfile,m,prop,f1,"variant "+variant+" seed "+std::to_string(seed)+" worker "+std::to_string(worker)+" run "+std::to_string(k)+" (from "+std::to_string(plan_size(e))+" to "+std::to_string(plan_size(m))+" items)");
            const Op* o=find_op(m,f1.uid); vtext=string(viol_name(f1.viol))+" in "+(o?op_text(*o):string("?"))+": "+f1.msg; break; }
    }
    double t2=now();
    size_t nref=refs.size(); 
    printf("{\"prop\":\"%s\",\"variant\":\"%s\",\"worker\":%d,\"seed\":%llu,\"runs\":%llu,\"calls\":%llu,\"ticks\":%llu,\"distinct\":%llu,\"evhash\":\"%016llx\",\"scan_calls\":%llu,\"catalogue\":%zu,\"hot\":%zu,\"cov\":%zu,\"dict\":%zu,\"refs\":%zu,\"forks\":%llu,\"scan_s\":%.2f,\"run_s\":%.2f,\"unreproducible\":%llu,\"scan_bad\":%zu,",prop.c_str(),variant.c_str(),worker,(unsigned long long)seed,(unsigned long long)done,(unsigned long long)calls,(unsigned long long)ticks,(unsigned long long)nontriv,(unsigned long long)evhash,(unsigned long long)scan_calls,catalogue.size(),hot.size(),cov_bits,g_dict.size(),nref,(unsigned long long)n_forks,t1-t0,t2-t1,(unsigned long long)unrep,scan_bad.size());
    printf("\"fired\":{\"switch\":%llu,\"interrupt\":%llu,\"abandon\":%llu,\"stall\":%llu,\"kill\":%llu,\"fork\":%llu,\"initialise\":%llu,\"exit_destructors\":%llu,\"thread_exit_destructors\":%llu,\"shared_access\":%llu,\"lock_wait\":%llu,\"alloc_failed\":%llu,\"syscall_failed\":%llu,\"clock_or_random_read\":%llu,\"rounding_mode\":%llu,\"flush_mode\":%llu,\"x87_precision\":%llu,\"preraised_flags\":%llu,\"errno_preset\":%llu,\"heap_failing\":%llu,\"syscalls_failing\":%llu,\"dirty_memory\":%llu,\"ambient_noise\":%llu,\"small_stack\":%llu,\"address_shift\":%llu,\"repeated_call\":%llu,\"fp_traps_enabled\":%llu,\"stale_atomic_load\":%llu,\"moved_to_another_thread\":%llu,\"write_protected\":%llu},",
      (unsigned long long)fired[1],(unsigned long long)fired[2],(unsigned long long)fired[3],(unsigned long long)fired[4],(unsigned long long)fired[5],(unsigned long long)fired[6],(unsigned long long)fired[7],(unsigned long long)fired[8],(unsigned long long)fired[9],(unsigned long long)shev,(unsigned long long)lw,(unsigned long long)af,(unsigned long long)sf,(unsigned long long)cr,(unsigned long long)envn[0],(unsigned long long)envn[1],(unsigned long long)envn[2],(unsigned long long)envn[3],(unsigned long long)envn[4],(unsigned long long)envn[5],(unsigned long long)envn[6],(unsigned long long)envn[7],(unsigned long long)envn[8],(unsigned long long)envn[9],(unsigned long long)envn[11],(unsigned long long)envn[12],(unsigned long long)envn[10],(unsigned long long)fired[A_STALE],(unsigned long long)fired[A_MOVED],(unsigned long long)(prop=="C17"?calls:0));
    printf("\"max_steps\":%llu,\"max_steps_call\":\"%s\",\"max_stack\":%llu,\"max_stack_call\":\"%s\",",(unsigned long long)mxt,jesc(mxtw).c_str(),(unsigned long long)mxs,jesc(mxsw).c_str());
    printf("\"samples\":["); for(size_t i=0;i<samples.size();i++) printf("%s\"%s\"",i?",":"",jesc(samples[i]).c_str()); printf("]");
    if(!vfile.empty()) printf(",\"violation\":\"%s\",\"text\":\"%s\"",jesc(vfile).c_str(),jesc(vtext).c_str());
    printf("}\n");
    return 0;
}
