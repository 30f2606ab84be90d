/* Native execution of one runtime handler against a C oracle of its contract (replay and search). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
uint64_t vn_sp, vn_bx, vn_fl, vn_r14, vn_bp, vn_r15, vn_save, vn_cw;
void vn_run(void *program, void *stack, void *locals);
void vn_exit(void);
void vn_exit2(void);
__asm__(".intel_syntax noprefix\n.globl vn_run\nvn_run:\n push rbx\n push rbp\n push r12\n push r13\n push r14\n push r15\n mov [rip+vn_save], rsp\n"
        " mov rbx, rdi\n mov rsp, rsi\n mov r14, rdx\n mov rbp, 0x1234\n mov r15, 0x5678\n jmp [rbx]\n"
        ".globl vn_exit\nvn_exit:\n mov [rip+vn_sp], rsp\n mov [rip+vn_bx], rbx\n mov [rip+vn_r14], r14\n mov [rip+vn_bp], rbp\n mov [rip+vn_r15], r15\n"
        " mov rsp, [rip+vn_save]\n fnstcw [rip+vn_cw]\n pushfq\n pop rax\n mov [rip+vn_fl], rax\n cld\n pop r15\n pop r14\n pop r13\n pop r12\n pop rbp\n pop rbx\n ret\n"
        ".globl vn_exit2\nvn_exit2:\n jmp vn_exit\n.att_syntax\n");
static uint64_t seed = 1;
static uint64_t rnd(void) {
    seed += 0x9e3779b97f4a7c15ull;
    uint64_t z = seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t pick(void) {
    uint64_t r = rnd();
    if ((r & 0xf00000) == 0) { /* rounding-boundary pattern: random high bits, low k bits next to the half-way point */
        unsigned k = 2 + (r >> 32) % 62;
        uint64_t h = rnd() & ~((1ull << k) - 1);
        return ((r >> 40 & 1) ? h | (1ull << 63) : h) | ((1ull << (k - 1)) + (r >> 41) % 3 - 1);
    }
    switch (r & 7) {
        case 0: return (r >> 8) & 7;
        case 1: return 0 - ((r >> 8) & 7);
        case 2: return (1ull << ((r >> 8) & 63)) + ((r >> 16) & 3) - 1;
        case 3: return 0 - ((1ull << ((r >> 8) & 63)) + ((r >> 16) & 3) - 1);
        case 4: return (r >> 8) & 0xff;
        default: return rnd() >> ((r >> 8) & 63);
    }
}
static double pickd(void) {
    static const double t[] = {0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.0, 1e10, -1e10, 3.99, 1e300, -1e300, 1e-300};
    uint64_t r = rnd();
    if ((r & 3) == 0) return t[(r >> 8) % 14];
    if ((r & 31) == 1) return NAN;
    if ((r & 31) == 2) return INFINITY;
    if ((r & 7) == 3) { double d; uint64_t b = rnd(); memcpy(&d, &b, 8); return d; }
    return (double) (int64_t) rnd() / (double) (1ull << (rnd() & 63));
}
#define NST 64
static uint64_t mem[1024], *sp0; /* operand stack inside mem; sp0 = top on entry */
static uint64_t exp_[1024];      /* expected */
static uint8_t care[8192];       /* which bytes of mem must match */
static uint64_t *esp;            /* expected stack top */
static uint8_t buf[512], ebuf[512];
static uint64_t arg, r14v;
static int skip, to2; /* to2: expected to continue at the second target */
static const char *OPN;
#define S(i) (sp0[i])
static void mask(void *p, int n, int v) { memset(care + ((uint8_t *) p - (uint8_t *) exp_), v, n); }
static void POP(int n) { esp += n; }
static void PUSH(uint64_t v) { esp--; *esp = v; mask(esp, 8, 1); }
static void PUSHF(float f) { uint64_t v = 0; memcpy(&v, &f, 4); PUSH(v); mask((uint8_t *) esp + 4, 4, 0); if (f != f) mask(esp, 8, 0); }
static void PUSHD(double f) { uint64_t v = 0; memcpy(&v, &f, 8); PUSH(v); if (f != f) mask(esp, 8, 0); }
static void PUSHLD(long double f) { esp -= 2; mask(esp, 16, 1); memcpy(esp, &f, 10); mask((uint8_t *) esp + 10, 6, 0); if (f != f) mask(esp, 16, 0); }
static float F(int i) { float f; memcpy(&f, &S(i), 4); return f; }
static double D(int i) { double f; memcpy(&f, &S(i), 8); return f; }
static long double L(int i) { long double f; memcpy(&f, &S(i), 10); return f; }
static void setF(int i) { float f = pickd(); S(i) = rnd() << 32; memcpy(&S(i), &f, 4); }
static void setD(int i) { double f = pickd(); memcpy(&S(i), &f, 8); }
static void setL(int i) { long double f = pickd(); if (rnd() & 1) f = (long double) (int64_t) rnd() / (1 + (rnd() & 15)); S(i + 1) = rnd(); memcpy(&S(i), &f, 10); }
static uint8_t *P; /* a data address */
static void A(int i) { P = buf + 32 + (rnd() & 63); S(i) = (uint64_t) P; }
#define EP (ebuf + (P - buf))
#define OP(n) if (!strcmp(OPN, #n))
static uint64_t ldn(int n) { uint64_t v = 0; memcpy(&v, P, n); return v; }
static void stn(int n, uint64_t v) { memcpy(EP, &v, n); }
/* two phases: prepare inputs (ph 0), then compute the expected result (ph 1) */
static void oracle(int ph) {
#define PREP(x) if (ph == 0) { x; return; }
#define BIN(n, e) OP(n) { PREP(;) uint64_t a = S(1), b = S(0); (void) a; (void) b; POP(2); PUSH(e); return; }
#define UN(n, e) OP(n) { PREP(;) uint64_t a = S(0); POP(1); PUSH(e); return; }
    BIN(iadd, a + b) BIN(isub, a - b) BIN(imul, a * b) BIN(iand, a & b) BIN(ior, a | b) BIN(ixor, a ^ b)
    BIN(iequals, a == b) BIN(igreater, (int64_t) a > (int64_t) b) BIN(ilesser, (int64_t) a < (int64_t) b) BIN(iabove, a > b) BIN(ibelow, a < b)
    OP(idiv) { PREP(;) int64_t a = S(1), b = S(0); if (!b || (b == -1 && a == INT64_MIN)) { skip = 1; return; } POP(2); PUSH(a / b); return; }
    OP(imod) { PREP(;) int64_t a = S(1), b = S(0); if (!b || (b == -1 && a == INT64_MIN)) { skip = 1; return; } POP(2); PUSH(a % b); return; }
    OP(udiv) { PREP(;) uint64_t a = S(1), b = S(0); if (!b) { skip = 1; return; } POP(2); PUSH(a / b); return; }
    OP(umod) { PREP(;) uint64_t a = S(1), b = S(0); if (!b) { skip = 1; return; } POP(2); PUSH(a % b); return; }
    OP(ishl) { PREP(S(0) &= 63) uint64_t a = S(1), b = S(0); POP(2); PUSH(a << b); return; }
    OP(ishr) { PREP(S(0) &= 63) uint64_t a = S(1), b = S(0); POP(2); PUSH(a >> b); return; }
    OP(isar) { PREP(S(0) &= 63) int64_t a = S(1), b = S(0); POP(2); PUSH(a >> b); return; }
    UN(ineg, 0 - a) UN(inot, ~a) UN(trunc1, a != 0) UN(bnot, a == 0) UN(extend8, (int64_t) (int8_t) a) UN(extend16, (int64_t) (int16_t) a)
    UN(extend32, (int64_t) (int32_t) a) UN(offsetptr, a + arg) UN(iadd1, a + arg)
    OP(band) { PREP(S(0) &= 1; S(1) &= 1) uint64_t v = S(0) & S(1); POP(2); PUSH(v); return; }
    OP(bor) { PREP(S(0) &= 1; S(1) &= 1) uint64_t v = S(0) | S(1); POP(2); PUSH(v); return; }
    BIN(elementptr, a + b * arg)
    OP(nop) { return; }
    OP(pop) { PREP(;) POP(1); return; }
    OP(push) { PREP(;) PUSH(arg); return; }
    OP(getlocals) { PREP(;) PUSH(r14v + arg); return; }
    OP(pick) { PREP(arg = rnd() % 12) uint64_t v = S(arg); PUSH(v); return; }
    OP(put) { PREP(arg = 1 + rnd() % 12) uint64_t v = S(0); POP(1); esp[arg - 1] = v; return; }
    OP(xchg) { PREP(arg = rnd() % 12) uint64_t v = S(0); esp[0] = S(arg); esp[arg] = v; return; }
    OP(insert) { PREP(arg = rnd() % 12) uint64_t v = S(0); for (uint64_t i = 0; i < arg; i++) esp[i] = S(i + 1); esp[arg] = v; return; }
    OP(drop) { PREP(arg = rnd() % 12) for (uint64_t i = arg; i > 0; i--) esp[i] = S(i - 1); mask(esp, 8, 0); POP(1); return; }
    OP(jmp) { PREP(;) to2 = 1; return; }
    OP(branch) { PREP(if (rnd() & 1) S(0) = 0) to2 = S(0) != 0; POP(1); return; }
    OP(ijmp) { PREP(to2 = 2) to2 = 1; POP(1); return; }
#define LD(n, w, e) OP(n) { PREP(A(0)) uint64_t v = ldn(w); POP(1); PUSH(e); return; }
    LD(load8u, 1, v) LD(load8i, 1, (int64_t) (int8_t) v) LD(load16u, 2, v) LD(load16i, 2, (int64_t) (int16_t) v) LD(load24u, 3, v) LD(load32u, 4, v)
    LD(load32i, 4, (int64_t) (int32_t) v) LD(load40u, 5, v) LD(load48u, 6, v) LD(load56u, 7, v) LD(load64, 8, v)
    OP(loadld) { PREP(A(0)) uint64_t a, b; memcpy(&a, P, 8); memcpy(&b, P + 8, 8); POP(1); PUSH(b); PUSH(a); return; }
#define ST(n, w) OP(n) { PREP(A(1)) stn(w, S(0)); POP(2); return; }
    ST(store8, 1) ST(store16, 2) ST(store24, 3) ST(store32, 4) ST(store40, 5) ST(store48, 6) ST(store56, 7) ST(store64, 8)
    OP(storeld) { PREP(A(2)) memcpy(EP, &S(0), 16); POP(3); mask((void *) 0 + (size_t) exp_, 0, 0); return; }
    OP(bzero) { PREP(A(0); arg = rnd() % 100) memset(EP, 0, arg); POP(1); return; }
    OP(bcopy) { PREP(A(1); arg = rnd() % 100; S(0) = (uint64_t) (buf + 256 + (rnd() & 63))) memcpy(EP, (void *) S(0), arg); POP(2); return; }
#define BF uint64_t off = (uint32_t) arg, w = arg >> 32, m = w == 64 ? ~0ull : (1ull << w) - 1
#define PBF { uint64_t w = 1 + rnd() % 64, off = rnd() % (65 - w); if (rnd() % 3 == 0) { w = 64; off = 0; } arg = w << 32 | off; }
    OP(extubits) { PREP(PBF) BF; uint64_t v = S(0) >> off & m; POP(1); PUSH(v); return; }
    OP(extsbits) { PREP(PBF) BF; uint64_t v = S(0) >> off & m; if (v >> (w - 1)) v |= ~m; POP(1); PUSH(v); return; }
    OP(insertbits) { PREP(PBF) BF; uint64_t v = (S(1) & ~(m << off)) | (S(0) & m) << off; POP(2); PUSH(v); return; }
#define PF2 { setF(0); setF(1); if (rnd() % 4 == 0) S(0) = S(1); }
#define PD2 { setD(0); setD(1); if (rnd() % 4 == 0) S(0) = S(1); }
#define PL2 { setL(0); setL(2); if (rnd() % 4 == 0) { S(0) = S(2); S(1) = S(3); } }
#define FA(n, o) OP(f32##n) { PREP(PF2) float v = F(1) o F(0); POP(2); PUSHF(v); return; } OP(f64##n) { PREP(PD2) double v = D(1) o D(0); POP(2); PUSHD(v); return; } \
                 OP(ld##n) { PREP(PL2) long double v = L(2) o L(0); POP(4); PUSHLD(v); return; }
    FA(add, +) FA(sub, -) FA(mul, *) FA(div, /)
    OP(f32neg) { PREP(setF(0)) float v = -F(0); POP(1); PUSHF(v); return; }
    OP(f64neg) { PREP(setD(0)) double v = -D(0); POP(1); PUSHD(v); return; }
    OP(ldneg) { PREP(setL(0)) long double v = -L(0); POP(2); PUSHLD(v); return; }
#define FC(n, o) OP(f32##n) { PREP(PF2) int v = F(1) o F(0); POP(2); PUSH(v); return; } OP(f64##n) { PREP(PD2) int v = D(1) o D(0); POP(2); PUSH(v); return; } \
                 OP(ld##n) { PREP(PL2) int v = L(2) o L(0); POP(4); PUSH(v); return; }
    FC(equals, ==) FC(greater, >) FC(lesser, <)
    OP(ldtrunc1) { PREP(setL(0)) int v = L(0) != 0; POP(2); PUSH(v); return; }
#define INR(x) ((x) > -9.2e18 && (x) < 9.2e18)
    OP(f32cint) { PREP(setF(0)) if (!INR(F(0))) { skip = 1; return; } int64_t v = F(0); POP(1); PUSH(v); return; }
    OP(f64cint) { PREP(setD(0)) if (!INR(D(0))) { skip = 1; return; } int64_t v = D(0); POP(1); PUSH(v); return; }
    OP(ldcint) { PREP(setL(0)) if (!INR(L(0))) { skip = 1; return; } int64_t v = L(0); POP(2); PUSH(v); return; }
    OP(intcf32) { PREP(;) float v = (int64_t) S(0); POP(1); PUSHF(v); return; }
    OP(intcf64) { PREP(;) double v = (int64_t) S(0); POP(1); PUSHD(v); return; }
    OP(intcld) { PREP(;) long double v = (int64_t) S(0); POP(1); PUSHLD(v); return; }
    OP(uintcf32) { PREP(;) float v = S(0); POP(1); PUSHF(v); return; }
    OP(uintcf64) { PREP(;) double v = S(0); POP(1); PUSHD(v); return; }
    OP(uintcld) { PREP(;) long double v = S(0); POP(1); PUSHLD(v); return; }
    OP(f32cf64) { PREP(setF(0)) double v = F(0); POP(1); PUSHD(v); return; }
    OP(f64cf32) { PREP(setD(0)) float v = D(0); POP(1); PUSHF(v); return; }
    OP(f32cld) { PREP(setF(0)) long double v = F(0); POP(1); PUSHLD(v); return; }
    OP(f64cld) { PREP(setD(0)) long double v = D(0); POP(1); PUSHLD(v); return; }
    OP(ldcf32) { PREP(setL(0)) float v = L(0); POP(2); PUSHF(v); return; }
    OP(ldcf64) { PREP(setL(0)) double v = L(0); POP(2); PUSHD(v); return; }
    printf("no oracle for %s\n", OPN);
    exit(4);
}
extern char HANDLER[];
static void crash(int s) { printf("VC-FAILED %s: signal %d\n", OPN, s); fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
    OPN = argv[1];
    int runs = atoi(argv[2]);
    seed = strtoull(argv[3], 0, 10);
    static uint8_t alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof(alt)};
    sigaltstack(&ss, 0);
    struct sigaction sa = {.sa_handler = crash, .sa_flags = SA_ONSTACK};
    for (int s = 1; s < 20; s++) if (s == SIGSEGV || s == SIGBUS || s == SIGFPE || s == SIGILL || s == SIGALRM) sigaction(s, &sa, 0);
    alarm(30);
    static uint64_t prog2[4], prog[4];
    for (int k = 0; k < runs; k++) {
        for (int i = 0; i < 1024; i++) mem[i] = rnd();
        sp0 = mem + 512 + (rnd() & 31);
        for (int i = 0; i < 6; i++) sp0[i] = pick();
        for (int i = 0; i < 512; i++) buf[i] = rnd();
        arg = pick();
        r14v = rnd();
        P = buf;
        skip = to2 = 0;
        if (k == 0) for (int i = 4; i < argc; i++) { if (i == 4) arg = strtoull(argv[i], 0, 16); else sp0[i - 5] = strtoull(argv[i], 0, 16); }
        oracle(0);
        prog[0] = (uint64_t) HANDLER;
        prog[2] = (uint64_t) vn_exit;
        prog2[0] = (uint64_t) vn_exit2;
        if (!strcmp(OPN, "jmp") || !strcmp(OPN, "branch")) arg = (uint64_t) prog2;
        if (to2 == 2) sp0[0] = (uint64_t) prog2;
        prog[1] = arg;
        memcpy(exp_, mem, sizeof mem);
        memcpy(ebuf, buf, sizeof buf);
        memset(care, 1, sizeof care);
        uint64_t *top = exp_ + (sp0 - mem);
        esp = top;
        oracle(1);
        if (skip) continue;
        memset(care + ((uint8_t *) (top - 8) - (uint8_t *) exp_), 0, esp > top - 8 ? (uint8_t *) esp - (uint8_t *) (top - 8) : 0);
        vn_run(prog, sp0, (void *) r14v);
        const char *bad = 0;
        if (vn_sp != (uint64_t) (mem + (esp - exp_))) bad = "operand stack depth";
        else if (vn_bx != (uint64_t) (to2 ? prog2 : prog + 2)) bad = "continuation";
        else if (vn_fl & 0x400) bad = "direction flag";
        else if (vn_r14 != r14v || vn_bp != 0x1234 || vn_r15 != 0x5678) bad = "preserved registers";
        else if ((vn_cw & 0xfff) != 0x37f) bad = "x87 control word";
        else if (memcmp(buf, ebuf, sizeof buf)) bad = "data memory";
        else for (int i = 0; i < 8192; i++) if (care[i] && ((uint8_t *) mem)[i] != ((uint8_t *) exp_)[i]) { bad = "operand stack contents"; break; }
        if (bad) {
            printf("VC-FAILED %s: %s differs; run %d arg %llx stack", OPN, bad, k, (unsigned long long) arg);
            for (uint64_t *q = exp_ + (sp0 - mem); q < exp_ + (sp0 - mem) + 4; q++) printf(" %llx", (unsigned long long) mem[q - exp_]);
            printf(" expected top %llx got %llx\n", (unsigned long long) *esp, (unsigned long long) *(uint64_t *) vn_sp);
            return 1;
        }
    }
    printf("VC-OK %d runs\n", runs);
    return 0;
}
