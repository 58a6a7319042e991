// control-register intrinsics of the code under test become calls the simulator sees
#include <immintrin.h>
extern "C" unsigned sim_getcsr(); extern "C" void sim_setcsr(unsigned);
#define _mm_getcsr() sim_getcsr()
#define _mm_setcsr(v) sim_setcsr(v)
#define __builtin_ia32_stmxcsr() sim_getcsr()
#define __builtin_ia32_ldmxcsr(v) sim_setcsr(v)
