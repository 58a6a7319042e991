// Shared between the instrumented operation table (ops_group.cpp, built from
// /repo's headers) and the simulator (sim.cpp).
#ifndef OP_H
#define OP_H
#include <cstdint>
#include <cstring>

// one argument; which member counts is decided by the kind letter of the op
//   f float   d double   l long double
//   s short   i int      u unsigned   q long long   z unsigned long long
struct Arg { long double f; int64_t i; };

// one result, canonical: every NaN is the same NaN
struct Res { int64_t i; long double f; char kind; };

typedef void (*OpFn)(const Arg*, Res*);
struct OpEntry { const char* fn; const char* kinds; OpFn call; };
struct OpGroup { const OpEntry* e; int n; };
extern "C" { extern const OpGroup ops_group_0, ops_group_1, ops_group_2, ops_group_3,
                                  ops_group_4, ops_group_5, ops_group_6, ops_group_7; }
#endif
