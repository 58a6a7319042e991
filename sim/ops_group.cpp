// The real code under test: every public gcem function, instantiated for many
// argument types, compiled with memory-access and basic-block callbacks.
// -DGROUP=k selects a slice so that slices build in parallel.
#include "fenvseam.h"
#include "gcem.hpp"
#include "op.h"

static inline float              get_f(const Arg& a){ return (float)a.f; }
static inline double             get_d(const Arg& a){ return (double)a.f; }
static inline long double        get_l(const Arg& a){ return a.f; }
static inline short              get_s(const Arg& a){ return (short)a.i; }
static inline int                get_i(const Arg& a){ return (int)a.i; }
static inline unsigned           get_u(const Arg& a){ return (unsigned)a.i; }
static inline long long          get_q(const Arg& a){ return (long long)a.i; }
static inline unsigned long long get_z(const Arg& a){ return (unsigned long long)a.i; }

static inline void put(Res* r, float v)              { r->kind='f'; r->f=v; r->i=0; }
static inline void put(Res* r, double v)             { r->kind='d'; r->f=v; r->i=0; }
static inline void put(Res* r, long double v)        { r->kind='l'; r->f=v; r->i=0; }
static inline void put(Res* r, bool v)               { r->kind='b'; r->f=0; r->i=v; }
static inline void put(Res* r, short v)              { r->kind='s'; r->f=0; r->i=v; }
static inline void put(Res* r, int v)                { r->kind='i'; r->f=0; r->i=v; }
static inline void put(Res* r, unsigned v)           { r->kind='u'; r->f=0; r->i=v; }
static inline void put(Res* r, long v)               { r->kind='q'; r->f=0; r->i=v; }
static inline void put(Res* r, unsigned long v)      { r->kind='z'; r->f=0; r->i=(int64_t)v; }
static inline void put(Res* r, long long v)          { r->kind='q'; r->f=0; r->i=v; }
static inline void put(Res* r, unsigned long long v) { r->kind='z'; r->f=0; r->i=(int64_t)v; }

#define F1(fn) O1(fn,f) O1(fn,d) O1(fn,l)
#define U1(fn) F1(fn) O1(fn,i) O1(fn,q) O1(fn,u)
#define F2(fn) O2(fn,f,f) O2(fn,d,d) O2(fn,l,l) O2(fn,f,d)
#define U2(fn) F2(fn) O2(fn,d,i) O2(fn,i,d) O2(fn,i,i) O2(fn,f,l)
#define I2(fn) O2(fn,i,i) O2(fn,q,q) O2(fn,u,u) O2(fn,z,z) O2(fn,i,q) O2(fn,u,z)

// plain functions first, then the table of their addresses: the table must not need initialising at run time
#define O1(fn,A)     static void o_##fn##_##A(const Arg* a, Res* r){ put(r, gcem::fn(get_##A(a[0]))); }
#define O2(fn,A,B)   static void o_##fn##_##A##B(const Arg* a, Res* r){ put(r, gcem::fn(get_##A(a[0]),get_##B(a[1]))); }
#define O3(fn,A,B,C) static void o_##fn##_##A##B##C(const Arg* a, Res* r){ put(r, gcem::fn(get_##A(a[0]),get_##B(a[1]),get_##C(a[2]))); }
#ifndef OPS_LIST
#define OPS_LIST "ops_list.inc"
#endif
#include OPS_LIST
#undef O1
#undef O2
#undef O3
#define O1(fn,A)     {#fn,#A,o_##fn##_##A},
#define O2(fn,A,B)   {#fn,#A #B,o_##fn##_##A##B},
#define O3(fn,A,B,C) {#fn,#A #B #C,o_##fn##_##A##B##C},
static const OpEntry table[] = {
#include OPS_LIST
};
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
extern "C" { extern const OpGroup CAT(ops_group_,GROUP);
const OpGroup CAT(ops_group_,GROUP) = { table, (int)(sizeof(table)/sizeof(table[0])) }; }
