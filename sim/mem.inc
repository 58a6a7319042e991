// Memory-model layer, on for multi-thread runs that ask for it: a happens-before relation from the
// synchronisation the code really does, data races reported against it (Plan::races), and atomic
// loads that may return any older value the C++ memory model allows (A_STALE).
typedef uint32_t VClk[MAXTH];
static VClk VC[MAXTH], FREL[MAXTH], PEND[MAXTH], VSC; static bool g_mem=false;
static void vjoin(VClk a,const VClk b){ for(int i=0;i<nT;i++) if(b[i]>a[i]) a[i]=b[i]; }
enum { K_READ=1, K_WRITE=2, K_ATOMIC=4 };
struct Rec { int tid; uint8_t kind, mask; uint32_t clk; int uid; };
static std::unordered_map<uintptr_t,std::vector<Rec> >* shadow;     // per 8-byte word
struct Sync { VClk v; Sync(){ memset(v,0,sizeof v); } };
static std::unordered_map<uintptr_t,Sync>* syncs;                   // locks, guards, once
struct Store { unsigned __int128 val; int tid; uint32_t clk; Sync rel; };
struct ALoc { std::vector<Store> st; struct Rd { int tid; uint32_t clk; size_t idx; }; std::vector<Rd> rd; };
static std::unordered_map<uintptr_t,ALoc>* alocs;
struct Rt { SimTh* t; int ic; explicit Rt(SimTh* t_): t(t_), ic(t_->incall) { t->incall=0; } ~Rt(){ t->incall=ic; } }; // the simulator's own work is not part of the call
static void mem_start(bool on){ g_mem=on; if(!on) return; memset(VC,0,sizeof VC); memset(FREL,0,sizeof FREL); memset(PEND,0,sizeof PEND); memset(VSC,0,sizeof VSC); for(int i=0;i<nT;i++) VC[i][i]=1; shadow=new std::unordered_map<uintptr_t,std::vector<Rec> >; syncs=new std::unordered_map<uintptr_t,Sync>; alocs=new std::unordered_map<uintptr_t,ALoc>; }
static void mem_access(SimTh* t,uintptr_t p,size_t n,int kind){
    if(!g_mem||!plan->races||t->incall==0) return;
    Rt rt(t);
    while(n){ uintptr_t w=p&~(uintptr_t)7; size_t o=p-w, k=std::min<size_t>(8-o,n); uint8_t mask=(uint8_t)(((1u<<k)-1)<<o); std::vector<Rec>& v=(*shadow)[w]; bool put=false;
        for(auto& r:v){ if(r.tid!=t->id){ if((r.mask&mask)&&((r.kind|kind)&K_WRITE)&&!((r.kind&kind)&K_ATOMIC)&&r.clk>VC[t->id][r.tid]){ char b[250]; snprintf(b,sizeof b,"%s%s of the word at %#lx races with the %s%s of it by call %d of thread %d",kind&K_ATOMIC?"atomic ":"",kind&K_WRITE?"write":"read",(unsigned long)w,r.kind&K_ATOMIC?"atomic ":"",r.kind&K_WRITE?"write":"read",r.uid,r.tid); violate(V_RACE,t->fr->op->uid,b); } }
            else if(r.kind==kind&&r.mask==mask){ r.clk=VC[t->id][t->id]; r.uid=t->fr->op->uid; put=true; } }
        if(!put){ Rec r; r.tid=t->id; r.kind=(uint8_t)kind; r.mask=mask; r.clk=VC[t->id][t->id]; r.uid=t->fr->op->uid; v.push_back(r); }
        p+=k; n-=k; } }
static void mem_fresh(SimTh* t,uintptr_t p,size_t n){ if(!g_mem||(shadow->empty()&&alocs->empty())) return; Rt rt(t); for(uintptr_t w=p&~(uintptr_t)7;w<p+n;w+=8){ shadow->erase(w); alocs->erase(w); if((w&4095)==0&&n>(1u<<20)) break; } }
static void mem_acquire(SimTh* t,const void* m){ if(!g_mem) return; Rt rt(t); auto it=syncs->find((uintptr_t)m); if(it!=syncs->end()) vjoin(VC[t->id],it->second.v); }
static void mem_release(SimTh* t,const void* m){ if(!g_mem) return; Rt rt(t); vjoin((*syncs)[(uintptr_t)m].v,VC[t->id]); VC[t->id][t->id]++; }
static bool acq(int o){ return o==1||o==2||o==4||o==5; } static bool rel(int o){ return o==3||o==4||o==5; }
static ALoc& aloc(uintptr_t p,unsigned __int128 now){ ALoc& a=(*alocs)[p]; if(a.st.empty()||a.st.back().val!=now){ a.st.clear(); a.rd.clear(); Store s; s.val=now; s.tid=-1; s.clk=0; a.st.push_back(s); } return a; }
// the value an atomic load returns; now is what memory holds
static unsigned __int128 mem_aload(SimTh* t,uintptr_t p,unsigned __int128 now,int order){
    Rt rt(t); int me=t->id; ALoc& a=aloc(p,now); size_t lo=0, n=a.st.size();
    for(size_t i=n;i-->0;){ Store& s=a.st[i]; if(s.tid<0||s.clk<=VC[me][s.tid]){ lo=i; break; } }
    for(auto& r:a.rd) if(r.clk<=VC[me][r.tid]&&r.idx>lo) lo=r.idx;
    size_t at=n-1; Frame* f=t->fr;
    if(order!=5&&lo<n-1){ size_t room=n-1-lo; int64_t age=0;
        if(plan->adaptive){ if((plan->acts&(1u<<A_STALE))&&shm->ndec<MAXDEC/2&&arng.chance(.4)) age=1+(int64_t)arng.below(room); }
        else { age=std::min<int64_t>(f->stale,(int64_t)room); }
        if(age>0){ log_dec(f->op->uid,(int64_t)f->ticks,A_STALE,age); at-=(size_t)age; } }
    f->stale=0;
    Store& s=a.st[at]; if(s.tid>=0){ if(acq(order)) vjoin(VC[me],s.rel.v); else vjoin(PEND[me],s.rel.v); }
    ALoc::Rd r; r.tid=me; r.clk=VC[me][me]; r.idx=at; unsigned __int128 val=s.val; bool put=false; for(auto& q:a.rd) if(q.tid==me&&q.clk==r.clk){ q=r; put=true; } if(!put) a.rd.push_back(r);
    if(a.rd.size()>96){ Store z=a.st.back(); a.st.assign(1,z); a.rd.clear(); } // forget the past: fewer behaviours, never impossible ones
    return val; }
static void mem_astore(SimTh* t,uintptr_t p,unsigned __int128 was,unsigned __int128 v,int order,bool rmw){
    Rt rt(t); int me=t->id; ALoc& a=aloc(p,was); Store s; s.val=v; s.tid=me; s.clk=VC[me][me];
    if(rmw){ Store& b=a.st.back(); if(b.tid>=0){ if(acq(order)) vjoin(VC[me],b.rel.v); else vjoin(PEND[me],b.rel.v); s.rel=b.rel; } }
    if(rel(order)) vjoin(s.rel.v,VC[me]); else vjoin(s.rel.v,FREL[me]);
    VC[me][me]++; a.st.push_back(s);
    if(a.st.size()>24){ size_t k=a.st.size()-16; a.st.erase(a.st.begin(),a.st.begin()+k); std::vector<ALoc::Rd> q; for(auto& r:a.rd) if(r.idx>=k){ r.idx-=k; q.push_back(r); } a.rd.swap(q); } }
static void mem_fence(SimTh* t,int order){ if(!g_mem) return; Rt rt(t); int me=t->id; if(acq(order)) vjoin(VC[me],PEND[me]); if(order==5){ vjoin(VC[me],VSC); vjoin(VSC,VC[me]); } if(rel(order)) memcpy(FREL[me],VC[me],sizeof(VClk)); VC[me][me]++; }
template<class ty> static inline SimTh* at_point(const volatile ty* a,bool wr){ access((uintptr_t)a,wr,sizeof(ty),K_ATOMIC); SimTh* t=self; if(!g_mem||!t||!t->incall) return nullptr; uintptr_t p=(uintptr_t)a; if((p>=t->stk_lo&&p<t->stk_hi)||(p>=ro_lo&&p<ro_hi)) return nullptr; return t; }
template<class ty> static inline ty at_load(const volatile ty* a,int o){ SimTh* t=at_point(a,false); ty v=__atomic_load_n(a,__ATOMIC_SEQ_CST); return t? (ty)mem_aload(t,(uintptr_t)a,v,o): v; }
template<class ty> static inline void at_store(volatile ty* a,ty v,int o){ SimTh* t=at_point(a,true); ty w=__atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); if(t) mem_astore(t,(uintptr_t)a,w,v,o,false); }
template<class ty,class F> static inline ty at_rmw(volatile ty* a,int o,F f){ SimTh* t=at_point(a,true); ty w=*a, v=f(w); *a=v; if(t) mem_astore(t,(uintptr_t)a,w,v,o,true); return w; } // one simulated thread runs at a time
template<class ty> static inline bool at_cas(volatile ty* a,ty* c,ty v,int o,int fo){ SimTh* t=at_point(a,true); ty w=*a; if(w==*c){ *a=v; if(t) mem_astore(t,(uintptr_t)a,w,v,o,true); return true; } *c=w; if(t){ bool x=acq(fo); Rt rt(t); ALoc& l=aloc((uintptr_t)a,w); Store& s=l.st.back(); if(s.tid>=0) vjoin(x?VC[t->id]:PEND[t->id],s.rel.v); } return false; }
