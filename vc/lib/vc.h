/* Contract macros shared by every proof unit.
 *
 * One unit text serves three purposes:
 *   - VC_DFCC    : CONTRACT() attaches __CPROVER_requires/ensures/assigns to the REAL function; goto-instrument --dfcc
 *                  --enforce-contract generates the obligations (postconditions + frame).
 *   - (default)  : CONTRACT() builds an enforcement wrapper  assume(REQ); r = f(args); assert(ENS)  around the REAL
 *                  function (same obligations, frame stated as explicit ENS clauses over ghost snapshots).
 *   - VC_NATIVE  : gcc build of the very same unit + real sources; replays the verifier's counterexample.
 */
#ifndef VC_H_
#define VC_H_
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

#ifdef VC_NATIVE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
static FILE *vc_in;
static uint64_t vc_seed; /* non-zero: search mode */
static FILE *vc_log;
static uint64_t vc_rnd(void) {
    vc_seed += 0x9e3779b97f4a7c15ull;
    uint64_t z = vc_seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t vc_next(void) {
    unsigned long long v = 0;
    if (vc_seed) {
        uint64_t r = vc_rnd();
        switch (r & 7) {
            case 0: v = (r >> 8) & 7; break;
            case 1: v = 0 - ((r >> 8) & 7); break;
            case 2: v = (1ull << ((r >> 8) & 63)) + ((r >> 16) & 3) - 1; break;
            case 3: v = 0 - ((1ull << ((r >> 8) & 63)) + ((r >> 16) & 3) - 1); break;
            case 4: v = (r >> 8) & 0xff; break;
            default: v = vc_rnd() >> ((r >> 8) & 63); break;
        }
        if (vc_log) fprintf(vc_log, "%llx ", v);
        return (uint64_t) v;
    }
    if (!vc_in || fscanf(vc_in, "%llx", &v) != 1) v = 0;
    return (uint64_t) v;
}
#define VC_ASSUME(c) do { if (!(c)) { if (vc_seed) _exit(0); printf("VC-OUTSIDE-PRECONDITION %s:%d %s\n", __FILE__, __LINE__, #c); exit(3); } } while (0)
#define VC_CHECK(c, label) do { if (!(c)) { printf("VC-FAILED %s (%s:%d)\n", label, __FILE__, __LINE__); fflush(stdout); exit(1); } } while (0)
#define VC_REACH(label) ((void) 0)
#define VC_ND(T) static inline T vc_nd_##T(void) { return (T) vc_next(); }
#else
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
#define VC_ASSUME(c) __CPROVER_assume(c)
#define VC_CHECK(c, label) __CPROVER_assert((c), "VC " label)
#define VC_REACH(label) __CPROVER_assert(0, "VCREACH " label)
#define VC_ND(T)                             \
    T nondet_##T(void);                      \
    static inline T vc_nd_##T(void) {        \
        T vc_v = nondet_##T();               \
        __CPROVER_input("vcnd", vc_v);       \
        return vc_v;                         \
    }
#endif

VC_ND(uint8_t)
VC_ND(uint16_t)
VC_ND(uint32_t)
VC_ND(uint64_t)
VC_ND(int64_t)
#define ND8() vc_nd_uint8_t()
#define ND16() vc_nd_uint16_t()
#define ND32() vc_nd_uint32_t()
#define ND64() vc_nd_uint64_t()
static inline _Bool ND1(void) { return (vc_nd_uint8_t() & 1) != 0; }

#define VC_STR_(x) #x
#define VC_STR(x) VC_STR_(x)

#ifdef VC_DFCC
#define REQ(x) __CPROVER_requires(x)
#define ENS(x) __CPROVER_ensures(x)
#define FRAME(...) __CPROVER_assigns(__VA_ARGS__)
#define RET __CPROVER_return_value
#define CONTRACT(rt, name, params, args, reqs, frames, enss) \
    rt name params reqs enss frames;                         \
    static rt call_##name params { return name args; }
#define CONTRACT_V(name, params, args, reqs, frames, enss) \
    void name params reqs enss frames;                         \
    static void call_##name params { name args; }
#else
#define REQ(x) VC_ASSUME(x);
#define ENS(x) VC_CHECK(x, "ensures " #x);
#define FRAME(...)
#define RET vc_ret
#define CONTRACT(rt, name, params, args, reqs, frames, enss) \
    static rt call_##name params {                           \
        reqs rt vc_ret = name args;                          \
        enss return vc_ret;                                  \
    }
#define CONTRACT_V(name, params, args, reqs, frames, enss) \
    static void call_##name params {                           \
        reqs name args;                          \
        enss                                   \
    }
#endif

void harness(void);
#ifdef VC_NATIVE
#ifndef VC_ENTRY
#define VC_ENTRY harness
#endif
void VC_ENTRY(void);
int main(int argc, char **argv) {
    if (argc > 3 && argv[1][0] == '-') {
        uint64_t s = strtoull(argv[2], 0, 10), n = strtoull(argv[3], 0, 10);
        for (uint64_t i = 0; i < n; i++) {
            pid_t p = fork();
            if (!p) { vc_seed = (s * 1000003 + i) * 2 + 1; alarm(10); VC_ENTRY(); _exit(0); }
            int st = 0;
            waitpid(p, &st, 0);
            if (WIFSIGNALED(st)) { printf("VC-CRASH signal %d at run %llu\n", WTERMSIG(st), (unsigned long long) i); return 1; }
            if (WEXITSTATUS(st) == 1) { printf("failing run %llu (inputs derive from seed)\n", (unsigned long long) i); return 1; }
        }
        printf("VC-SEARCH-OK\n");
        return 0;
    }
    vc_in = argc > 1 ? fopen(argv[1], "r") : NULL;
    VC_ENTRY();
    printf("VC-OK\n");
    return 0;
}
#endif
#endif
