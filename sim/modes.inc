// Environment-dependent properties: plans and oracles (C05-C09).

// ---- C06: what a call may do when the rounding direction or the flush mode is not the default
// The functions that only select, compare or truncate give the same value in every mode.
static bool exact_fn(const Op& op){
    const OpEntry& e=ops_all[op.entry]; string fn=e.fn; bool allfp=true, allint=true; for(int i=0;e.kinds[i];i++){ if(isfp(e.kinds[i])) allint=false; else if(fabsl(load(op.a[i],e.kinds[i]))>16777216) allfp=false; } // a small integer is exact in every type
    if(fn=="abs"||fn=="sgn"||fn=="signbit"||fn=="copysign"||fn=="max"||fn=="min"||fn=="gcd") return allfp||allint;
    if(fn=="ceil"||fn=="floor"||fn=="trunc"||fn=="round") return allfp;
    if(fn=="lcm"||fn=="binomial_coef"||fn=="factorial"||fn=="pow") return allint;
    return false; }
// The approximations are compared for moderate arguments only: away from poles, from
// overflow and from cancellation, where the result is a well-conditioned function of them.
static bool in(LD x,LD a,LD b){ return x>=a&&x<=b; }
static bool moderate(const Op& op){
    const OpEntry& e=ops_all[op.entry]; string fn=e.fn; LD x=load(op.a[0],e.kinds[0]), y=e.kinds[1]?load(op.a[1],e.kinds[1]):0, z=e.kinds[1]&&e.kinds[2]?load(op.a[2],e.kinds[2]):0; LD ax=fabsl(x), ay=fabsl(y);
    bool fl=strchr(e.kinds,'f')!=nullptr;
    if(fn=="sqrt"||fn=="inv_sqrt") return in(x,1e-12L,1e12L);
    if(fn=="hypot") return in(ax,1e-3L,1e4L)&&in(ay,1e-3L,1e4L);
    if(fn=="exp") return ax<=80; if(fn=="expm1") return in(ax,.01L,80);
    if(fn=="log"||fn=="log2"||fn=="log10") return in(x,1e-20L,1e20L)&&fabsl(x-1)>.1L;
    if(fn=="log1p") return in(x,-.9L,1e10L)&&ax>.1L;
    if(fn=="pow") return in(x,.01L,1000)&&in(ay,.01L,10)&&fabsl(y*logl(x))<60;
    if(fn=="sin"||fn=="cos"||fn=="tan") return ax<=(fl?100:500)&&fabsl(sinl(x))>.1L&&fabsl(cosl(x))>.1L;
    if(fn=="atan") return in(ax,1e-6L,1e6L); if(fn=="atan2") return in(ax,1e-3L,1e3L)&&in(ay,1e-3L,1e3L);
    if(fn=="acos"||fn=="asin") return in(ax,.01L,.98L); if(fn=="tanh"||fn=="cosh"||fn=="sinh") return in(ax,.01L,80);
    if(fn=="atanh") return in(ax,.02L,.98L); if(fn=="acosh") return in(x,1.1L,1e6L); if(fn=="asinh") return in(x,.02L,1e6L)||in(-x,.1L,3);
    if(fn=="lgamma") return in(x,.05L,1000)&&fabsl(x-1)>.2L&&fabsl(x-2)>.2L; if(fn=="tgamma"||fn=="factorial") return in(x,.05L,30);
    if(fn=="lbeta"||fn=="beta") return in(x,.3L,fl?15:60)&&in(y,.3L,fl?15:60)&&fabsl(x*y-1)>.05L&&fabsl(x-1)>.05L&&fabsl(y-1)>.05L; 
    if(fn=="incomplete_beta") return in(x,.5L,60)&&in(y,.5L,60)&&in(z,.05L,.95L);
    if(fn=="incomplete_beta_inv") return in(x,1,30)&&in(y,1,30)&&in(z,.05L,.95L);
    if(fn=="incomplete_gamma") return in(x,.2L,fl?200:1500)&&in(y,.3L*x,2*x); if(fn=="incomplete_gamma_inv") return in(x,.8L,500)&&in(y,.05L,.95L);
    if(fn=="erf") return in(ax,.01L,5); if(fn=="erf_inv") return in(ax,.01L,.98L);
    if(fn=="lmgamma") return in(y,1,20)&&in(x,y+1,80);
    if(fn=="log_binomial_coef") return in(x,4,300)&&in(y,1,x-1)&&x==truncl(x)&&y==truncl(y);
    if(fn=="fmod"){ if(!(in(ax,.01L,1000)&&in(ay,.01L,1000))) return false; LD q=fabsl(x/y), fr=q-truncl(q); return (!fl||q<200)&&in(fr,.05L,.95L); }
    return false; }
static LD mode_dev(const Res& a,const Res& b){ // difference in units of 1e-? of the type: relative, with a floor
    return fabsl(a.f-b.f)/std::max(fabsl(a.f),1e-2L); }
static LD mode_tol(char k){ return k=='f'?1e-2L: k=='d'?1e-9L: 1e-11L; }
static bool subnormal_arg(const Op& op){ const char* k=ops_all[op.entry].kinds; for(int i=0;k[i];i++) if(isfp(k[i])){ LD m=fabsl(load(op.a[i],k[i])); LD mn= k[i]=='f'?(LD)FLT_MIN:(LD)DBL_MIN; if(m>0&&m<2*mn) return true; } return false; }
static bool mode_ok(const Op& op,const Ref& ref,const Res& got,string& msg){
    if((op.env.ftz||op.env.daz)&&subnormal_arg(op)) return true; // what flushing does to a subnormal argument is the mode's meaning
    if(exact_fn(op)){ if(ref.r.kind==got.kind&&ref.r.i==got.i&&((ref.r.f!=ref.r.f&&got.f!=got.f)||ref.r.f==got.f)) return true; }
    else { if(!moderate(op)||!std::isfinite(ref.r.f)) return true;
        if(op.env.ftz||op.env.daz) if(fabsl(ref.r.f)<1e-30L) return true;
        char k=ref.r.kind; for(const char* q=ops_all[op.entry].kinds;*q;q++) if(*q=='f') k='f';
        if(ref.r.kind==got.kind&&std::isfinite(got.f)&&mode_dev(ref.r,got)<=mode_tol(k)) return true; }
    static const char* rn[]={"to nearest","down","up","toward zero"};
    msg=string("with rounding ")+rn[op.env.rm&3]+(op.env.rm>>2?string(" (x87: ")+rn[(op.env.rm+(op.env.rm>>2))&3]+")":string())+(op.env.ftz||op.env.daz?" and subnormals flushed":"")+" returned "+res_text(got)+", in the default environment it returns "+res_text(ref.r); return false; }
static vector<Op> make_pool(Rng& r,size_t want); static vector<int> hot;
// ---- C11: calls that must not raise the invalid, divide-by-zero or overflow exception
static bool has_nan(const Op& op){ const char* k=ops_all[op.entry].kinds; for(int i=0;k[i];i++) if(isfp(k[i])&&op.a[i].f!=op.a[i].f) return true; return false; }
static bool finite_args(const Op& op){ const char* k=ops_all[op.entry].kinds; for(int i=0;k[i];i++) if(isfp(k[i])&&!std::isfinite(op.a[i].f)) return false; return true; }
static bool quiet_everywhere(const Op& op){ // no spurious exception at any finite argument with a finite result; the others at ordinary arguments only
    static const char* l=" abs ceil floor trunc round sgn signbit copysign fmod max min sqrt hypot log log1p log2 log10 tan cos sin asin tanh atanh acosh asinh gcd lcm binomial_coef lgamma lbeta lmgamma log_binomial_coef erf_inv ";
    return strstr(l,(string(" ")+ops_all[op.entry].fn+" ").c_str())&&finite_args(op); }
static bool quiet_fp(const Op& op,const Res* res=nullptr){ return !has_nan(op)&&(exact_fn(op)||moderate(op)||(quiet_everywhere(op)&&(!res||!isfp(res->kind)||std::isfinite(res->f)))); }
static Env random_fpenv(Rng& r); static uint8_t split_rm(Rng& r,uint8_t rm,double p=.1); static void flush_some(Rng& r,Env& e);
static int64_t point(Rng& r,const Op& op);
static const int LIM_FD=1024, LIM_L=1024; // KiB of stack
static bool has_l(const Op& op){ return strchr(ops_all[op.entry].kinds,'l')!=nullptr; }
static void env_of(Rng& r,const string& prop,Op& o,int am,bool sys){
    static const int es[]={EDOM,ERANGE,EINTR,12345,0};
    if(prop=="C05"){ o.env=random_fpenv(r); o.env.err=es[r.below(5)]; }
    if(prop=="C06"){ o.env.rm=split_rm(r,(uint8_t)(1+r.below(3))); if(r.chance(.2)) flush_some(r,o.env); }
    if(prop=="C11"){ static const uint8_t tr[]={0x0d,0x0d,0x0d,0x01,0x04,0x08,0x05}; o.env.traps=tr[r.below(7)]; if(r.chance(.3)) o.env.err=es[r.below(4)]; if(r.chance(.3)) o.env.dirty=1+(uint32_t)r.below(1000000); if(r.chance(.3)) o.env.flags=(uint8_t)(r.next()&0x30); }
    if(prop=="C17"){ if(r.chance(.4)) o.env=random_fpenv(r); o.env.pc=0; o.env.err=es[r.below(5)]; if(r.chance(.3)) o.env.noise=1+(uint32_t)r.below(1000000); }
    if(prop=="C07"){ o.env.alloc=am; o.env.sys=sys; }
    if(prop=="C08"){ o.env=random_fpenv(r); if(r.chance(.3)) o.env.rm=0; o.env.flags=0; o.env.pc=0; o.env.stack_kb= has_l(o)?LIM_L:LIM_FD; if(r.chance(.5)) o.env.dirty=1+(uint32_t)r.below(1000000); }
    if(prop=="C09"){ o.env.sys=sys&&am==0?2:0; if(r.chance(.2)) o.env.rm=split_rm(r,(uint8_t)(1+r.below(3))); if(r.chance(.1)) flush_some(r,o.env); if(r.chance(.5)) o.env.flags=(uint8_t)(r.next()&0x3d); if(r.chance(.5)) o.env.err=es[r.below(4)]; if(r.chance(.5)) o.env.disp=1+(uint32_t)r.below(4096); if(r.chance(.8)) o.env.dirty=1+(uint32_t)r.below(1000000); if(r.chance(.7)) o.env.noise=1+(uint32_t)r.below(1000000); } }
// what a call of each kind costs: the cheap ones, which branch the most for their steps, are made more often
static vector<double> entry_cost;
static void note_cost(int e,uint64_t ticks){ if(entry_cost.empty()) entry_cost.assign(ops_all.size(),-1); double& c=entry_cost[e]; c= c<0? (double)ticks: c+.1*((double)ticks-c); }
static int cheap(int e){ if(entry_cost.empty()||entry_cost[e]<0) return 0; double c=entry_cost[e]; return c<150? 6: c<400? 3: c<1200? 1: 0; }
static void make_env_plan(Rng& r,const string& prop,Plan& p){
    int uid=0; vector<Op> pool=make_pool(r,2+r.below(8)); vector<Op> v; int k=20+(int)r.below(100); if(r.chance(.1)) k=1+(int)r.below(4);
    bool sys=r.chance(.7); int am=(int)r.below(4);
    double fresh=hot.empty()?.8:.5;
    for(int i=0;i<k;i++){ Op o=pool[r.below(pool.size())];
        if(r.chance(fresh)){ for(int t=0;t<30;t++){ o=gen_op(r,(int)r.below(ops_all.size()),prop=="C08"||prop=="C17"||r.chance(.3)?MIX_WILD:MIX_ORD); if((prop!="C06"||exact_fn(o)||moderate(o))&&(prop!="C11"||quiet_fp(o))) break; }
            for(int more=cheap(o.entry);more>0&&v.size()<500;more--){ Op q=gen_op(r,o.entry,prop=="C08"||prop=="C17"||r.chance(.3)?MIX_WILD:MIX_ORD); q.rep=0; v.push_back(q); } }
        else if(r.chance(.2)&&!catalogue.empty()) o=relative(r,catalogue[r.below(catalogue.size())].op);
        o.rep=0; v.push_back(o); }
    if(prop!="C08"&&prop!="C17"){ prefetch(v); vector<Op> w; for(auto&o:v) if(ref_of(o).ok&&(prop!="C11"||quiet_fp(o,&ref_of(o).r))) w.push_back(o); v.swap(w); }
    if(v.empty()) return;
    for(auto&o:v){ o.uid=uid++; env_of(r,prop,o,am,sys); }
    p.th.push_back(v);
    if((prop=="C05"||prop=="C11")&&r.chance(.3)){ vector<Op> w; for(int i=0;i<3;i++){ Op o=v[r.below(v.size())]; o.uid=uid++; env_of(r,prop,o,0,false); w.push_back(o); } p.th.push_back(w); for(auto&o:p.th[0]) if(r.chance(.1)){ Dec d; d.uid=o.uid; d.tick=point(r,o); d.act=A_SWITCH; d.arg=1; p.decs.push_back(d);} p.acts=1u<<A_SWITCH; }
}
static Plan plan_for_bad(Rng& r,const Op& b){ Plan p; p.budget=BUDGET; p.adaptive=false; p.seed=r.next(); Op o=b; o.uid=0; memset(&o.env,0,sizeof o.env); o.env.stack_kb= has_l(o)?LIM_L:LIM_FD; p.th.push_back(vector<Op>(1,o)); return p; }
