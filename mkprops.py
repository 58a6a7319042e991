#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from one place so that they stay in step
import json, os
H = os.path.dirname(os.path.abspath(__file__))
ALL = ["include/gcem.hpp", "include/gcem_incl/gcem_options.hpp"]
INC = "include/gcem_incl/"
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
TESTS = "The tests are single-threaded programs that call each function a handful of times at fixed arguments and compare the result; "
PURE = [("every function is a pure expression of its by-value parameters; no static, global or thread-local objects, no out-parameters", "all of include/gcem_incl/*.hpp, internal:: helpers called from the public wrappers")]
props = [
P("C01", "Concurrent callers never influence one another's results",
  "Any number of threads may call any of the library's functions at the same time, with no synchronisation. Every call returns exactly the value it returns when made alone in a fresh process, whatever the other threads are calling and however the threads interleave.",
  ["schedules", "programs"], "all interleavings of calls by 2-4 threads (crowds of up to 280 with every thread inside a call), any functions and argument types, preemption at any step inside a call", TESTS + "no test has two threads, so no interleaving is ever reached.",
  ALL + [INC + "*.hpp", INC + "quadrature/*.hpp"], PURE + [("tables are constant data, never written", INC + "quadrature/gauss_legendre_50.hpp, " + INC + "log.hpp, " + INC + "lgamma.hpp")], ["return value of each call of a multi-threaded run against the same call alone"]),
P("C02", "A call may be interrupted by another call at any instant",
  "An interrupt or signal handler may call any function of the library while any call, of the same or another function, is in progress on the same thread, nested to any depth. The handler's call completes without waiting for the interrupted one, and both return exactly what they return alone.",
  ["schedules", "programs"], "every step of every call as the instant of interruption, handlers interrupting handlers, on one or more threads", TESTS + "no test interrupts a call.",
  ALL + [INC + "*.hpp"], PURE + [("no locks, no one-time initialisation, no scratch storage that a nested call could reuse", "include/gcem_incl/*.hpp")], ["return values of the interrupted and of the interrupting call; progress of the handler"]),
P("C03", "Results do not depend on earlier calls, finished or abandoned",
  "The value a call returns depends on nothing that happened before it: not on which calls were made earlier, how many there were, or with which argument types. This also holds after a call is abandoned half-way (a non-local exit out of a handler, for instance), which leaves nothing behind that a later call can notice and leaves the caller's floating-point control state and errno as they were.",
  ["histories", "crash_points"], "all histories of calls, up to a thousand different calls or tens of thousands of repetitions in one process, with any of them abandoned at any step", TESTS + "each call is made once, in one fixed order, and none is abandoned.",
  ALL + [INC + "*.hpp"], PURE, ["return value of every call of a history against the same call alone; control state after an abandoned call"]),
P("C04", "No call ever waits for another caller",
  "A call always completes by its own steps alone: it completes even if every other thread that is inside the library is suspended indefinitely, has been terminated in the middle of its call, or has vanished because the process forked. It then returns exactly the value it returns alone.",
  ["schedules", "crash_points", "fault_sequences"], "any instant for suspending, killing or losing other callers, any combination of calls", TESTS + "nothing is ever suspended, killed or forked.",
  ALL + [INC + "*.hpp"], [("no locks, spin loops on shared memory, or function-local statics needing a guard", "include/gcem_incl/*.hpp")], ["completion and value of the calls of surviving threads"]),
P("C05", "Calls leave the caller's floating-point state and errno alone",
  "After any call returns, the caller's floating-point control state (rounding direction, flush-to-zero and denormals-are-zero modes, precision control, exception masks) and errno are what they were on entry, whatever they were. Exception flags that were raised before the call are still raised after it.",
  ["configurations", "inputs", "schedules"], "every combination of entry state (4 rounding directions, both flush modes, precision, sticky flags, errno values), all functions and arguments, including two threads with different states switched in mid-call", TESTS + "none looks at the floating-point environment or errno.",
  ALL + [INC + "*.hpp"], [("only arithmetic and comparisons; the C math library and <cfenv> are never called", "include/gcem_incl/gcem_options.hpp (the only includes) and all function headers")], ["MXCSR, x87 control and status words, errno before and after each call"]),
P("C06", "Results stay right under any rounding direction or flush mode",
  "The functions that only select, compare or cut (absolute value, sign, sign copy, maximum, minimum, floor, ceiling, truncation, rounding to nearest, and the integer-only functions) return the same value under every rounding direction and, for arguments that are not subnormal, with subnormals flushed. The approximating functions, for ordinary arguments away from poles, overflow and cancellation, stay within a relative error of the default environment's result of 1e-2 (float), 1e-9 (double) or 1e-11 (long double), and always return.",
  ["configurations", "inputs"], "the three directed rounding directions, with and without flush modes; all functions at well-conditioned arguments", TESTS + "all run in the default rounding direction; convergence tests, range reductions and integer/fraction splits behave differently in the others.",
  ALL + [INC + f for f in ("find_whole.hpp", "find_fraction.hpp", "find_exponent.hpp", "mantissa.hpp", "floor.hpp", "ceil.hpp", "trunc.hpp", "round.hpp", "exp.hpp", "log.hpp", "sqrt.hpp", "tan.hpp", "lgamma.hpp", "incomplete_beta.hpp", "incomplete_gamma.hpp")],
  [("integer/fraction split by conversion to an integer type, not by rounding tricks", INC + "find_whole.hpp, " + INC + "trunc.hpp"), ("iteration caps next to every convergence test", INC + "gcem_options.hpp"), ("exponent and mantissa found by the same steps", INC + "find_exponent.hpp, " + INC + "mantissa.hpp")], ["value in the chosen mode against the value in the default mode"]),
P("C07", "Calls need nothing from the heap, the system or the outside world",
  "No call allocates memory, makes a system call, or reads a clock, a random source or an environment variable. All functions therefore behave the same when every allocation fails and every system call is refused.",
  ["fault_sequences", "inputs"], "all functions and arguments with allocations failing (all, first, at random) and all system calls trapped and refused", TESTS + "a hidden allocation, system call or clock read does not change what they compare.",
  ALL + [INC + "*.hpp"], [("only <cstddef>, <limits> and <type_traits> are included; everything is computed in registers and on the stack", INC + "gcem_options.hpp")], ["allocations, trapped system calls, clock/random/environment reads during each call"]),
P("C08", "Every call returns, in bounded time and stack",
  "Every call with floating-point or in-range integer arguments, including NaN, infinities, zeros, subnormals and the largest finite values, returns normally: no crash, no trap, no endless loop. It does so within 1 MiB of stack and a fixed number of steps, in any rounding direction or flush mode and whatever the memory it runs in held before.",
  ["inputs", "configurations", "fault_sequences"], "all floating-point arguments (long double: magnitudes within 1e-300..1e300 plus zero, infinity, NaN), integers within the documented domains, any rounding and flush mode, stack limit of 1 MiB, 40 million steps", TESTS + "they use ordinary arguments, the default environment and an 8 MiB stack.",
  ALL + [INC + f for f in ("gcem_options.hpp", "exp.hpp", "sqrt.hpp", "pow_integral.hpp", "tgamma.hpp", "tan.hpp", "tanh.hpp", "erf.hpp", "lcm.hpp", "gcd.hpp", "incomplete_beta.hpp", "incomplete_beta_inv.hpp", "incomplete_gamma_inv.hpp", "find_exponent.hpp", "mantissa.hpp", "inv_sqrt.hpp")],
  [("iteration caps", INC + "gcem_options.hpp (GCEM_*_MAX_ITER) and the *_recur/_cf functions"), ("domain tests before each algorithm", "the *_check functions"), ("range reduction before each recursion", INC + "tan.hpp, " + INC + "exp.hpp, " + INC + "log.hpp")], ["return of the call, deepest stack, steps taken"]),
P("C09", "Results do not depend on leftover memory or ambient state",
  "The value a call returns depends only on its arguments and the rounding and flush mode. It does not depend on what the stack or heap held before, where in memory the call runs, which exception flags or errno value were already set, the time, process identity, environment variables, random sources, what the operating system answers, or which optional features the processor reports.",
  ["configurations", "histories"], "any leftover contents of stack and heap, any stack placement, any sticky flags and errno, any clock, random, identity, environment and processor-feature answers, in every rounding and flush mode", TESTS + "they run in one fixed ambient state and would pass with any dependence that happens to be benign there.",
  ALL + [INC + "*.hpp"], PURE + [("every local is initialised where it is declared", "the C++14 bodies, e.g. " + INC + "sqrt.hpp, " + INC + "exp.hpp, " + INC + "pow_integral.hpp")], ["return value in the chosen ambient state against the value in the default one"]),
P("C10", "Coroutines sharing one thread may interleave calls freely",
  "A scheduler that multiplexes many coroutines or fibers on one operating-system thread may switch between them at any instant inside a call. Every call still returns exactly the value it returns alone, and none waits for another.",
  ["schedules", "programs"], "all interleavings of calls by 2-4 fibers (crowds of up to 280) of one thread, switched at any step", TESTS + "nothing is ever switched out in the middle of a call, so per-thread state would go unnoticed.",
  ALL + [INC + "*.hpp"], PURE + [("no thread-local storage either", "include/gcem_incl/*.hpp")], ["return value of each call of an interleaved run against the same call alone"]),
P("C11", "Calls can be made with floating-point traps enabled",
  "A caller who has enabled trapping of the invalid-operation, division-by-zero or overflow exception (feenableexcept and the like) can call the library: the call completes without a trap and returns the same value as with traps disabled. For the selecting, rounding and integer functions this holds for all arguments but NaN. For square root, hypotenuse, the logarithms, circular, inverse circular sine, hyperbolic tangent, inverse hyperbolic, log-gamma, log-beta, log-binomial, remainder and inverse error functions it holds for all finite arguments with a finite result; for the remaining functions for ordinary arguments, away from poles, overflow and underflow.",
  ["configurations", "inputs", "schedules"], "every combination of the three exceptions trapping, all functions and arguments as stated, with and without another thread switched in mid-call", TESTS + "all exceptions are masked in them, so a discarded division by zero or out-of-range conversion goes unnoticed.",
  ALL + [INC + f for f in ("floor.hpp", "ceil.hpp", "trunc.hpp", "round.hpp", "find_whole.hpp", "hypot.hpp", "fmod.hpp", "log.hpp", "tan.hpp", "sqrt.hpp", "incomplete_gamma.hpp", "incomplete_beta.hpp", "lgamma.hpp", "tanh.hpp", "atan.hpp", "atan2.hpp")],
  [("special arguments are decided by comparisons before any division or conversion that could raise an exception", "the *_check functions"), ("operands are scaled before they are squared or divided", INC + "hypot.hpp, " + INC + "sqrt.hpp")], ["a trap (SIGFPE) during the call; return value"]),
P("C12", "The cost of a call depends on nothing but its arguments",
  "A call takes no more steps and no more stack than the same call made alone in a fresh process (within one eighth), however many calls were made before it, whether any were abandoned, and whatever other threads, interrupt handlers and coroutines do meanwhile.",
  ["histories", "schedules", "programs"], "all histories up to a thousand different calls or tens of thousands of repetitions, all interleavings with threads, handlers and coroutines", TESTS + "none measures the work a call does, or makes enough calls for it to grow.",
  ALL + [INC + "*.hpp"], PURE + [("no retry loops on shared state, no adaptive tables or lists", "include/gcem_incl/*.hpp")], ["basic blocks and memory accesses executed, and stack used, by each call of a run against the same call alone"]),
P("C13", "Calls work at any point of the program's life",
  "Calls made before the program's static initialisers have run or between them (from static constructors of other translation units, in any order), after static destructors and exit handlers have begun or finished to run, and on a thread whose thread-exit destructors have run, return exactly the value they return in the middle of the program. They do so also when those events happen on another thread while the call is in progress.",
  ["schedules", "histories", "configurations"], "all orders and instants of the initialisers of eight translation units, of exit-time destructors and of thread-exit destructors relative to the calls of 1-3 threads", TESTS + "every call is made from main.",
  ALL + [INC + "*.hpp", INC + "quadrature/*.hpp"], [("tables are constant-initialised arrays inside functions; nothing has a dynamic initialiser or a destructor", INC + "quadrature/gauss_legendre_50.hpp, " + INC + "lgamma.hpp, " + INC + "log.hpp")], ["return value of each call against the same call alone in a fully initialised process; no crash"]),
P("C14", "Callers in different floating-point modes do not disturb one another",
  "Threads, interrupt handlers, coroutines and earlier or later calls of one thread may each run in their own rounding direction and flush mode. Every call returns exactly the value that the same call returns when made alone in a fresh process in the same mode: nothing that was computed in one mode is ever seen by a call made in another.",
  ["schedules", "histories", "configurations"], "all interleavings and histories as in C01, C02, C03 and C10, with every call in one of four rounding directions and flush modes of its own", TESTS + "all run in the default mode, so a value kept from a call in another mode (a table filled at first use, a remembered result) is never met.",
  ALL + [INC + f for f in ("log.hpp", "exp.hpp", "lgamma.hpp", "factorial.hpp", "atan.hpp", "quadrature/gauss_legendre_50.hpp")], PURE + [("tables are constant data fixed when the program is compiled, not filled at first use", INC + "quadrature/gauss_legendre_50.hpp, " + INC + "factorial.hpp, " + INC + "log.hpp")], ["return value of each call of a mixed-mode run against the same call alone in the same mode"]),
P("C15", "Concurrent calls are free of data races",
  "Calls made on different threads without synchronisation never make conflicting unsynchronised accesses to the same memory, not even ones that would write equal values. Concurrent use is therefore defined behaviour under the C++ memory model, on weakly ordered processors and under any compiler optimisation, and a race detector stays silent.",
  ["schedules", "programs"], "all interleavings of calls by 2-4 threads (crowds of up to 280), any functions and argument types", TESTS + "no test has two threads, so no two accesses ever conflict; and a race between equal values does not change a result.",
  ALL + [INC + "*.hpp", INC + "quadrature/*.hpp"], PURE + [("the only shared memory is constant data", INC + "quadrature/gauss_legendre_50.hpp, " + INC + "log.hpp, " + INC + "lgamma.hpp, " + INC + "factorial.hpp")], ["memory accesses of each call, related by happens-before"]),
P("C16", "A call may be moved to another thread at any instant",
  "A coroutine may be suspended at any instant inside a call and resumed on a different operating-system thread, any number of times, while other coroutines run on the threads it has left. Every call still returns exactly the value it returns alone, and none waits for another.",
  ["schedules", "programs"], "all interleavings of calls by 1-4 coroutines (crowds of up to 280) over four operating-system threads, suspended and resumed on any of them at any step", TESTS + "no call ever changes threads, so anything read back from thread-local storage, or held by the thread that took it, would still be there.",
  ALL + [INC + "*.hpp"], PURE + [("no thread-local storage, nothing owned by the thread a call started on", "include/gcem_incl/*.hpp")], ["return value and progress of each call of a run in which calls change threads, against the same call alone"]),
P("C17", "Calls modify no memory but their own stack",
  "A call writes to nothing but its own stack: not to static, thread-local or heap memory, and not to objects of the C library, errno included. It therefore works, for every argument and in every floating-point mode, with all of the program's data write-protected (in read-only memory, in a shared or copy-on-write image), and leaves no trace of having been made.",
  ["inputs", "configurations", "fault_sequences"], "all functions and arguments, any rounding and flush mode, all other memory refusing to be written", TESTS + "they run with all of the program's memory writable and do not look at it.",
  ALL + [INC + "*.hpp", INC + "quadrature/*.hpp"], PURE + [("tables are constant data", INC + "quadrature/gauss_legendre_50.hpp, " + INC + "log.hpp, " + INC + "lgamma.hpp, " + INC + "factorial.hpp")], ["every memory write of each call; write faults; errno"]),
]
T0 = "The tests sample a few dozen arguments per function; "
na = [
(P("C20", "Results approximate the mathematical function", "For every argument in its domain each function returns the value of the mathematical function it is named after, to a relative error of a small multiple of the type's precision.", ["inputs"], "all functions, argument types and in-domain arguments", T0 + "error away from them is not measured.", [INC + "*.hpp"], [("series, continued fractions, Newton/Halley steps, quadrature", INC + "*.hpp")], ["return value"]),
 "accuracy is a function of the arguments alone: no schedule, clock, fault or interleaving takes part, so there is nothing for a simulator to decide; it would be input generation against a numeric oracle"),
(P("C21", "Compile-time and run-time evaluation agree", "For the same arguments a call gives bit-for-bit the same value whether the compiler evaluates it in a constant expression or the program evaluates it at run time in the default environment.", ["inputs", "programs"], "all functions and constant arguments, both evaluation modes", "the tests evaluate at run time only.", [INC + "*.hpp"], [("one constexpr body serves both", INC + "*.hpp")], ["constant-expression value against run-time value"]),
 "one side of the comparison happens inside the compiler, where no fault or schedule can be injected, and both sides are pure"),
(P("C22", "Every function is usable in constant expressions", "Every public function with in-domain constant arguments of any supported type can initialise a constexpr object under every supported language standard and compiler, within default evaluation limits.", ["programs"], "all functions, argument types, language standards", "the tests never require constant evaluation.", ALL + [INC + "*.hpp"], [("constexpr on every function, tail recursion in C++11", INC + "*.hpp")], ["compilation of a constant expression"]),
 "decided by compiling programs; nothing runs, so there is no execution to simulate"),
(P("C23", "NaN, infinite and out-of-domain arguments give the documented results", "A NaN argument gives NaN, infinities and domain edges give the limit values, and out-of-domain arguments give NaN, for every function and type.", ["inputs"], "all special and out-of-domain arguments", T0 + "only some special values are among them.", [INC + "*.hpp"], [("the *_check functions", INC + "*.hpp")], ["return value"]),
 "a pure function of the arguments; that such calls return at all, in any environment, is C08"),
(P("C24", "Result types follow the promotion rules", "Integral arguments yield double where the standard library would, and mixed argument types yield the common promoted type.", ["programs"], "all argument type combinations", "the tests do not check types.", [INC + "gcem_options.hpp"], [("return_t and common_return_t", INC + "gcem_options.hpp")], ["static type of the call"]),
 "a compile-time property of types"),
(P("C25", "All language standards give the same results", "A call gives the same value under C++11 and under later standards, although different bodies are compiled.", ["configurations", "inputs"], "all functions and arguments, C++11 against C++14 and later", "each standard's tests compare against tolerances, not against one another.", [INC + f for f in ("exp.hpp", "sqrt.hpp", "pow_integral.hpp", "tan.hpp", "log.hpp")], [("__cplusplus switches", INC + "*.hpp")], ["return values of two builds"]),
 "a comparison of two pure functions; no schedule, fault or time takes part"),
(P("C26", "Integer functions are exact", "Greatest common divisor, least common multiple, factorial, binomial coefficient and integer powers are exact whenever the result is representable.", ["inputs"], "all representable results", T0 + "large arguments are not among them.", [INC + f for f in ("gcd.hpp", "lcm.hpp", "factorial.hpp", "binomial_coef.hpp", "pow_integral.hpp")], [("Euclid, table, Pascal recursion, square and multiply", INC + "*.hpp")], ["return value"]),
 "a pure function of the arguments"),
(P("C27", "Inverse pairs and identities hold", "Inverse functions undo one another and the classical identities (sin^2+cos^2, exp of log, the gamma recurrence, complement symmetry of the incomplete functions) hold to the type's precision.", ["inputs"], "all in-domain arguments", T0 + "relations between functions are not tested.", [INC + "*.hpp"], [("shared core routines", INC + "*.hpp")], ["return values"]),
 "a relation between pure functions of the arguments"),
(P("C28", "Results respect sign symmetry, monotonicity and range", "Odd and even functions are exactly symmetric, monotone functions never step backwards by more than rounding, and probabilities stay within zero and one.", ["inputs"], "all argument pairs", T0 + "no pairs are compared.", [INC + "*.hpp"], [("argument folding before evaluation", INC + "*.hpp")], ["return values"]),
 "a relation between values of one pure function"),
(P("C29", "The headers can be included anywhere, any number of times", "Including the library in any number of translation units of one program, in any order with other headers, compiles and links with no duplicate or conflicting definitions, and the installed package is found by its documented name.", ["programs", "configurations"], "all include orders and build configurations", "the tests are single translation units.", ALL + ["CMakeLists.txt", "cmake_files"], [("include guards, templates, inline functions", "include/gcem.hpp")], ["compilation and linking"]),
 "decided by compiling and linking; nothing runs"),
(P("C30", "Compile-time limits set by the user are honoured", "Defining one of the documented iteration limits or tolerance macros before inclusion changes that limit and nothing else.", ["configurations"], "all macro settings", "the tests use the defaults.", [INC + "gcem_options.hpp"], [("#ifndef-guarded macros", INC + "gcem_options.hpp")], ["behaviour under a changed macro"]),
 "a compile-time configuration of pure functions; no fault or schedule takes part"),
]
NOTE = {
"C01": "preemption at every basic block and every access to non-stack memory; in half the runs atomic loads may return older values the C++ memory model allows",
"C02": "handlers run on the interrupted thread with a fresh floating-point state, nested up to 140 deep, up to 600 per run",
"C03": "abandonment is a non-local exit at a chosen step; repetition up to 70000 times (cheap calls 2 million), with the same or with moving arguments",
"C04": "suspension, termination and fork-loss at chosen steps; waiting on a suspended caller is a violation",
"C05": "control words and errno compared around every call, including interleaved threads",
"C06": "oracle: the same call in the default environment, exact or within the stated tolerance; measured worst case on the clean tree is 10 to 1000 times inside it",
"C07": "system calls trapped by a seccomp filter and refused, heap entry points replaced; any use is a violation",
"C08": "step counter, stack meter and signal disposition watched; limits are more than 3 (stack) and 10 (steps) times what the clean tree uses",
"C09": "stack and heap pre-filled, stack moved, flags/errno preset, clock/random/identity/environment answers drawn from the seed, and processor features withdrawn",
"C10": "ucontext fibers on one thread, switched at every kind of step",
"C11": "exceptions unmasked in MXCSR and the x87 control word for the duration of each call; a trap ends the simulated process and is reported",
"C12": "step and stack counts are exact and repeatable in the simulator; any increase above one eighth (and 64 steps, 1 KiB) is a violation",
"C13": "the translation units' initialisers and finalisers are moved to sections only the simulator runs; atexit and thread-exit registrations are intercepted and run at chosen steps",
"C14": "each call's rounding direction and flush mode drawn from the seed and switched with the thread, handler or coroutine; the reference call runs alone in that mode",
"C15": "vector clocks over threads and synchronisation operations; every non-stack access of a call is checked against the last write and the last reads of the other threads; two unordered accesses, one of them a non-atomic write or against one, are a violation",
"C16": "coroutines carried by four real operating-system threads, so that thread-local storage, thread identity and lock ownership change under a call exactly as they would in a work-stealing scheduler",
"C17": "every write of the instrumented code is checked as it happens, copies and fills included; the writable data of the C, C++ and math libraries is write-protected for real while the calls run"}
manifest = {"version": 1, "setup_cmd": "python3 check.py --setup",
 "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
   "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection (seeded schedules and faults, pristine-process reference model)",
   "level": "exploration", "level_note": "Seeded search over simulated runs of the real headers built six ways (g++ C++11/17 at -O0/-O2, clang++ C++14/20): " + NOTE[p["id"]] + ". Sampling, not proof; weakly ordered memory is modelled for atomic loads only (C01, C15); argument domains as in DESIGN.md; trusts the compilers' instrumentation and the simulator."} for p in props],
 "not_applicable": [{"property": p["id"], "reason": r} for p, r in na],
 "notes": "No hooks in /repo: the seams are compiler instrumentation callbacks and interposed libc entry points. `python3 check.py --replay FILE` replays a reported trace."}
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props + [x[0] for x in na]: f.write(json.dumps(p) + "\n")
with open(os.path.join(H, "MANIFEST.json"), "w") as f: json.dump(manifest, f, indent=1); f.write("\n")
