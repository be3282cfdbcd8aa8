// Runtime linked into every generated test program; always compiled by gcc, so what it observes
// does not depend on the compiler under test.  Runs each unit separately, catches crashes and
// endless loops, and checks at each call-out and return that the calling convention was kept:
// 16 byte stack alignment, callee saved registers, an empty x87 stack and a clear direction flag.
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

extern void (*unit_table[])(void);
extern int unit_count;

static char buf[1 << 22];
static long pos;
static long unit_start;
static sigjmp_buf jb;
static int depth;

static void put(const char *s) {
    long n = strlen(s);
    // One unit may write 64 kB at most, the rest of its output is dropped
    if (pos - unit_start + n > 65536) return;
    if (pos + n < (long) sizeof(buf)) { memcpy(buf + pos, s, n); pos += n; }
}

static void flush_out(void) {
    long o = 0;
    while (o < pos) { long w = write(1, buf + o, pos - o); if (w <= 0) break; o += w; }
    pos = 0;
}

// Every register a callee may change is changed, so that no value survives a call in one by luck
#define TRASH() __asm__ volatile( \
    "movabs $0x7171717171717171, %%rax\n mov %%rax, %%rcx\n mov %%rax, %%rdx\n mov %%rax, %%rsi\n mov %%rax, %%rdi\n" \
    "mov %%rax, %%r8\n mov %%rax, %%r9\n mov %%rax, %%r10\n mov %%rax, %%r11\n" \
    "movq %%rax, %%xmm0\n movaps %%xmm0, %%xmm1\n movaps %%xmm0, %%xmm2\n movaps %%xmm0, %%xmm3\n movaps %%xmm0, %%xmm4\n" \
    "movaps %%xmm0, %%xmm5\n movaps %%xmm0, %%xmm6\n movaps %%xmm0, %%xmm7\n movaps %%xmm0, %%xmm8\n movaps %%xmm0, %%xmm9\n" \
    "movaps %%xmm0, %%xmm10\n movaps %%xmm0, %%xmm11\n movaps %%xmm0, %%xmm12\n movaps %%xmm0, %%xmm13\n movaps %%xmm0, %%xmm14\n" \
    "movaps %%xmm0, %%xmm15\n" \
    ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "cc", \
        "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", \
        "xmm12", "xmm13", "xmm14", "xmm15")

#define CHECK_ALIGN() do { TRASH(); if (((unsigned long) __builtin_frame_address(0)) & 15) put("!misaligned-stack "); } while (0)

__attribute__((noinline)) void out_i(long v) { char t[64]; CHECK_ALIGN(); sprintf(t, "%ld ", v); put(t); }
__attribute__((noinline)) void out_u(unsigned long v) { char t[64]; CHECK_ALIGN(); sprintf(t, "%luu ", v); put(t); }
__attribute__((noinline)) void out_f(float v) {
    char t[64]; CHECK_ALIGN();
    if (v != v) put("nan "); else { sprintf(t, "%af ", (double) v); put(t); }
}
__attribute__((noinline)) void out_d(double v) {
    char t[64]; CHECK_ALIGN();
    if (v != v) put("nan "); else { sprintf(t, "%a ", v); put(t); }
}
__attribute__((noinline)) void out_ld(long double v) {
    char t[64]; CHECK_ALIGN();
    if (v != v) put("nan "); else { sprintf(t, "%LaL ", v); put(t); }
}
__attribute__((noinline)) void out_s(const char *s) { CHECK_ALIGN(); put(s); put(" "); }
__attribute__((noinline)) void out_mem(const void *p, long n) {
    char t[8]; const unsigned char *c = p; CHECK_ALIGN();
    for (long i = 0; i < n; i++) { sprintf(t, "%02x", c[i]); put(t); }
    put(" ");
}
__attribute__((noinline)) void out_nl(void) { put("/ "); }

// Values the compiler under test cannot see through
__attribute__((noinline)) long opaque_l(long v) { CHECK_ALIGN(); return v; }
__attribute__((noinline)) double opaque_d(double v) { CHECK_ALIGN(); return v; }

static void handler(int sig) {
    siglongjmp(jb, sig);
}

static long saved_regs_bad;

// Calls f with known values in the callee saved registers and compares them afterwards
static long call_checked(void (*f)(void)) {
    long bad = 0;
    __asm__ volatile(
        "push %%rbx\n push %%rbp\n push %%r12\n push %%r13\n push %%r14\n push %%r15\n"
        "mov %[f], %%rax\n"
        "mov %%rsp, %%rcx\n"
        "sub $16, %%rsp\n"
        "and $-16, %%rsp\n"
        "mov %%rcx, (%%rsp)\n"
        "movabs $0x1111111111111111, %%rbx\n"
        "movabs $0x3333333333333333, %%r12\n"
        "movabs $0x4444444444444444, %%r13\n"
        "movabs $0x5555555555555555, %%r14\n"
        "movabs $0x6666666666666666, %%r15\n"
        "mov %%rsp, %%rbp\n"
        "call *%%rax\n"
        "xor %%edx, %%edx\n"
        "movabs $0x1111111111111111, %%rcx\n cmp %%rcx, %%rbx\n je 1f\n or $1, %%edx\n 1:\n"
        "movabs $0x3333333333333333, %%rcx\n cmp %%rcx, %%r12\n je 1f\n or $2, %%edx\n 1:\n"
        "movabs $0x4444444444444444, %%rcx\n cmp %%rcx, %%r13\n je 1f\n or $4, %%edx\n 1:\n"
        "movabs $0x5555555555555555, %%rcx\n cmp %%rcx, %%r14\n je 1f\n or $8, %%edx\n 1:\n"
        "movabs $0x6666666666666666, %%rcx\n cmp %%rcx, %%r15\n je 1f\n or $16, %%edx\n 1:\n"
        "cmp %%rsp, %%rbp\n je 1f\n or $32, %%edx\n 1:\n"
        "mov (%%rsp), %%rsp\n"
        "pop %%r15\n pop %%r14\n pop %%r13\n pop %%r12\n pop %%rbp\n pop %%rbx\n"
        "mov %%rdx, %[bad]\n"
        : [bad] "=r"(bad) : [f] "r"(f)
        : "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "memory", "cc",
          "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11",
          "xmm12", "xmm13", "xmm14", "xmm15");
    return bad;
}

static void arm(int on) {
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    if (on) it.it_value.tv_sec = 3;
    setitimer(ITIMER_VIRTUAL, &it, 0);
}

int main(int argc, char **argv) {
    static char altstack[65536];
    stack_t ss;
    memset(&ss, 0, sizeof(ss));
    ss.ss_sp = altstack;
    ss.ss_size = sizeof(altstack);
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = handler;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGVTALRM, SIGABRT, SIGTRAP};
#ifndef NO_HANDLERS
    for (unsigned i = 0; i < sizeof(sigs) / sizeof(*sigs); i++) sigaction(sigs[i], &sa, 0);
#endif
    for (int i = 0; i < unit_count; i++) {
        char t[128];
        if (argc > 1 && atoi(argv[1]) != i) continue;
        unit_start = pos;
        sprintf(t, "U%d ", i);
        put(t);
        int s = sigsetjmp(jb, 1);
        if (!s) {
            arm(1);
            long bad = call_checked(unit_table[i]);
            if (bad) { sprintf(t, "!callee-saved-%lx ", bad); put(t); }
        } else {
            sprintf(t, "!signal-%d ", s);
            unit_start = pos; // room for the message
            put(t);
        }
        struct { unsigned short cw, r0, sw, r1, tw, r2; unsigned rest[4]; } env;
        __asm__ volatile("fnstenv %0" : "=m"(env));
        if (!s && (env.tw != 0xffff || (env.cw & 0x0f00) != 0x0300)) { sprintf(t, "!x87-%x-%x ", env.tw, env.cw); put(t); }
        __asm__ volatile("fninit");
        unsigned long fl;
        __asm__ volatile("pushfq\n pop %0\n cld" : "=r"(fl));
        if (fl & 0x400) put("!direction-flag ");
        put("\n");
        if (pos > (long) sizeof(buf) / 2) flush_out();
    }
    arm(0);
    flush_out();
    _exit(0);
}
