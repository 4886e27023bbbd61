// Signal-safe tracing at every instruction. The processor's trap flag interrupts a workload after each instruction; the
// handler captures, and the calls and returns that were executed give the call stack independently of any unwinder.
// Usage: safe_driver WORKLOAD SEED MAXSTEPS SAMPLE OUT PARAMS...   (PARAMS: entry,skip,depth,size)
#include <cpptrace/cpptrace.hpp>
#include <ctrace/ctrace.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#ifdef CPPTRACE_UNWIND_WITH_LIBUNWIND
#define UNW_LOCAL_ONLY
#include <libunwind.h>
#endif
#include "mjson.hpp"
#define NI __attribute__((noinline, noipa))
typedef std::uintptr_t u;

// ------------------------------------------------------------------------------------------- what the handler must not do
static volatile sig_atomic_t in_handler, on_duty;
static long allocs, locks;
extern "C" char __executable_start, etext;
static bool ours(void* a) { return a >= &__executable_start && a < &etext; }
extern "C" {
    void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
    __attribute__((visibility("default"))) void* malloc(size_t n) { if(on_duty) allocs++; return __libc_malloc(n); }
    __attribute__((visibility("default"))) void free(void* p) { if(on_duty && p) allocs++; __libc_free(p); }
    __attribute__((visibility("default"))) void* calloc(size_t a, size_t b) { if(on_duty) allocs++; return __libc_calloc(a, b); }
    __attribute__((visibility("default"))) void* realloc(void* p, size_t n) { if(on_duty) allocs++; return __libc_realloc(p, n); }
    static int (*real_lock)(pthread_mutex_t*);
    __attribute__((visibility("default"))) int pthread_mutex_lock(pthread_mutex_t* m) {
        if(on_duty && ours(__builtin_return_address(0))) locks++;
        if(!real_lock) real_lock = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
        return real_lock(m);
    }
    static int (*real_guard)(void*);
    __attribute__((visibility("default"))) int __cxa_guard_acquire(void* g) {
        if(on_duty && ours(__builtin_return_address(0))) locks++;
        if(!real_guard) real_guard = (int (*)(void*)) dlsym(RTLD_NEXT, "__cxa_guard_acquire");
        return real_guard(g);
    }
}
static volatile sig_atomic_t stepping, paused; // paused: 1 for good, 2 by sigprocmask
extern "C" void trap_on(); extern "C" void trap_off();
asm(".text\n.type trap_on,@function\ntrap_on:\n.cfi_startproc\npushfq\n.cfi_adjust_cfa_offset 8\norq $0x100, (%rsp)\npopfq\n.cfi_adjust_cfa_offset -8\nret\n.cfi_endproc\n.size trap_on, .-trap_on\n"
    ".type trap_off,@function\ntrap_off:\n.cfi_startproc\npushfq\n.cfi_adjust_cfa_offset 8\nandq $~0x100, (%rsp)\npopfq\n.cfi_adjust_cfa_offset -8\nret\n.cfi_endproc\n.size trap_off, .-trap_off\n");
// ------------------------------------------------------------------------------------------------------- shared memory
enum { Max = 64, Guard = 16 };
struct shadow_frame { u slot, ret; };
static shadow_frame* shadow; static int shadow_n;
static u base[256]; static int base_n;
struct objrec { u raw, rel; int nul; char path[300]; };
struct record {
    long step; int entry; u skip, depth, size; int n; u got[Max]; int fn; u full[Max]; int en; u expect[Max]; int wn; u walk[Max];
    int intact, dev; long allocs, locks; int on; objrec o[3]; int rn; u ord[Max];
};
static record* records; static bool with_ordinary; static volatile long last_step; static long record_n, record_max, step_n, step_max, sample_every, deviations, mismatches;
struct param { int entry; u skip, depth, size; };
static std::vector<param>* params;
static std::mt19937* rng;
static u prev_pc; static bool prev_valid;
static char* page_end;                       // buffers end here, nothing is mapped behind
static cpptrace::safe_object_frame* objpage; // likewise
static char* map_end() {
    char* p = (char*) mmap(nullptr, 16 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 15 * 4096, 4096, PROT_NONE);
    return p + 15 * 4096;
}

// libunwind blocks signals while it holds its own locks: no signal arrives there
extern "C" __attribute__((visibility("default"))) int sigprocmask(int how, const sigset_t* set, sigset_t* old) {
    bool blocks = set && how != SIG_UNBLOCK && sigismember(set, SIGTRAP);
    if(stepping && !in_handler && blocks && !paused) { trap_off(); paused = 2; }
    int r = (int) syscall(SYS_rt_sigprocmask, how, set, old, 8);
    if(stepping && !in_handler && paused == 2 && set && how != SIG_BLOCK && !blocks) {
        // calls and returns made meanwhile are unknown but for the one to here
        u slot = (u) __builtin_frame_address(0) + 8;
        while(shadow_n && shadow[shadow_n - 1].slot <= slot) shadow_n--;
        shadow[shadow_n++] = {slot, *(u*) slot};
        prev_valid = false;
        paused = 0;
        trap_on();
    }
    return r;
}

static void note_step(ucontext_t* uc) {
    u pc = uc->uc_mcontext.gregs[REG_RIP], sp = uc->uc_mcontext.gregs[REG_RSP];
    while(shadow_n && shadow[shadow_n - 1].slot < sp) shadow_n--;
    if(prev_valid) {
        const unsigned char* p = (const unsigned char*) prev_pc;
        while(*p == 0x66 || *p == 0xf2 || *p == 0xf3 || *p == 0x3e || *p == 0x2e || *p == 0x64 || *p == 0x65 || (*p >= 0x40 && *p <= 0x4f)) p++;
        if(*p == 0xe8 || (*p == 0xff && ((p[1] >> 3) & 7) == 2)) shadow[shadow_n++] = {sp, *(u*) sp};
    }
    prev_pc = pc; prev_valid = true;
}

extern "C" NI int capture_cpp1(u* b, std::size_t n, std::size_t skip) { int r = (int) cpptrace::safe_generate_raw_trace(b, n, skip + 1); asm volatile(""); return r; }
extern "C" NI int capture_cpp2(u* b, std::size_t n, std::size_t skip, std::size_t d) { int r = (int) cpptrace::safe_generate_raw_trace(b, n, skip + 1, d); asm volatile(""); return r; }
extern "C" NI int capture_c(u* b, std::size_t n, std::size_t skip, std::size_t d) { int r = (int) ctrace_safe_generate_raw_trace(b, n, skip + 1, d); asm volatile(""); return r; }

static NI int walk(u* out, int max) {
    int n = 0;
#ifdef CPPTRACE_UNWIND_WITH_LIBUNWIND
    unw_context_t c; unw_cursor_t cur;
    unw_getcontext(&c); unw_init_local(&cur, &c);
    int skip = 1;
    do {
        unw_word_t pc; unw_get_reg(&cur, UNW_REG_IP, &pc);
        if(skip) skip--; else if(n < max) out[n++] = unw_is_signal_frame(&cur) > 0 ? pc : pc - 1;
    } while(unw_step(&cur) > 0 && n < max);
#endif
    return n;
}

// the interrupted program's stack as it must be reported: the instruction itself, then inside every call
static int expected(ucontext_t* uc, u* out, int max) {
    int n = 0;
    out[n++] = uc->uc_mcontext.gregs[REG_RIP];
    for(int i = shadow_n - 1; i >= 0 && n < max; i--) out[n++] = *(u*) shadow[i].slot - 1; // (an unwinder about to land rewrites it)
    for(int i = 0; i < base_n && n < max; i++) out[n++] = base[i];
    return n;
}

static void sample(ucontext_t* uc, bool keep) {
    u buf[Max];
    const param& q = (*params)[(std::size_t) step_n % params->size()];
    std::size_t size = q.size > 15 * 4096 / 8 - Guard ? 15 * 4096 / 8 - Guard : q.size;
    u* b = (u*) page_end - size;
    for(int i = 1; i <= Guard; i++) b[-i] = 0xabababababababab;
    u untouched = 0xcdcdcdcdcdcdcdcd;
    for(std::size_t i = 0; i < (size < Max ? size : Max); i++) b[i] = untouched;
    long a0 = allocs, l0 = locks;
    on_duty = 1;
    int fn = (int) cpptrace::safe_generate_raw_trace(buf, Max, 0);
    int n = q.entry == 0 ? capture_cpp1(b, size, q.skip) : q.entry == 1 ? capture_cpp2(b, size, q.skip, q.depth) : capture_c(b, size, q.skip, q.depth);
    on_duty = 0;
    int intact = n >= 0 && (u) n <= size;
    for(int i = 1; i <= Guard; i++) intact &= b[-i] == 0xabababababababab;
    for(std::size_t i = n < 0 ? 0 : n; i < (size < Max ? size : Max); i++) intact &= b[i] == untouched;
    u e[Max]; int en = expected(uc, e, Max);
    // a frame here, the trampoline, then the interrupted program
    bool same = fn >= 3 && fn == (en + 3 < Max ? en + 3 : Max);
    for(int i = 3; same && i < fn; i++) same = buf[i] == e[i - 3];
    // in the few instructions where the unwinder itself cannot follow the stack its own walk is what there is
    int wn = 0; u w[Max]; bool dev = false;
    if(!same) { wn = walk(w, Max); dev = wn == fn; for(int i = 1; dev && i < fn; i++) dev = buf[i] == w[i]; }
    if(dev) deviations++;
    bool windowed = true;
    for(int i = 0; windowed && i < n && n <= Max; i++) windowed = q.skip + i == 0 || (q.skip + i < (u) fn && b[i] == buf[q.skip + i]);
    bool bad = !(same || dev) || !windowed || !intact || allocs != a0 || locks != l0;
    if(bad) mismatches++;
    if(!(keep || (bad && mismatches < 200)) || record_n >= record_max) return;
    record& r = records[record_n++];
    r.step = step_n; r.entry = q.entry; r.skip = q.skip; r.depth = q.depth; r.size = size;
    r.n = n < 0 ? 0 : n > Max ? Max : n;
    std::memcpy(r.got, b, sizeof(u) * (r.n < (int) size ? r.n : (int) size));
    r.fn = fn; std::memcpy(r.full, buf, sizeof buf);
    r.en = en; std::memcpy(r.expect, e, sizeof e);
    r.wn = wn; if(wn) std::memcpy(r.walk, w, sizeof w);
    r.dev = !same;
    r.rn = 0;
    if(with_ordinary) {
        auto t = cpptrace::generate_raw_trace();
        for(auto f : t.frames) if(r.rn < Max) r.ord[r.rn++] = f;
    }
    r.intact = intact; r.allocs = allocs - a0; r.locks = locks - l0;
    // objects of some of the frames
    r.on = 0;
    for(int i = 0; i < 3; i++) {
        u a = i == 0 ? e[0] : i == 1 ? (en > 1 ? e[1 + step_n % (en - 1)] : 0) : (u) (step_n % 5 == 0 ? 0 : step_n % 5 == 1 ? (u) buf : step_n % 5 == 2 ? (u) &records : step_n % 5 == 3 ? ~(u) 0 : (u) &errno);
        std::memset((void*) objpage, 0x5a, sizeof *objpage);
        long a1 = allocs, l1 = locks;
        on_duty = 1;
        if(i == 1) ctrace_get_safe_object_frame(a, (ctrace_safe_object_frame*) objpage); else cpptrace::get_safe_object_frame(a, objpage);
        on_duty = 0;
        objrec& o = r.o[r.on++];
        o.raw = objpage->raw_address; o.rel = objpage->address_relative_to_object_start;
        o.nul = std::memchr(objpage->object_path, 0, sizeof objpage->object_path) != nullptr && o.raw == a;
        std::strncpy(o.path, objpage->object_path, sizeof o.path - 1); o.path[sizeof o.path - 1] = 0;
        r.allocs += allocs - a1; r.locks += locks - l1;
    }
}

NI static void on_trap(int, siginfo_t*, void* ctx) {
    int e = errno;
    in_handler = 1;
    ucontext_t* uc = (ucontext_t*) ctx;
    if(!stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; in_handler = 0; errno = e; return; }
    note_step(uc);
    step_n++;
    if(step_n >= step_max) { stepping = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; }
    else sample(uc, step_n % sample_every == 0);
    in_handler = 0;
    errno = e;
}

// a handler that never returns, or dies
static void say(const char* s) { if(write(2, s, std::strlen(s))) {} }
static void on_alarm(int) {
    if(on_duty && last_step == step_n) { say("STUCK in the handler\n"); _exit(9); }
    last_step = on_duty ? step_n : -1;
    alarm(2);
}
static void on_crash(int) { say(on_duty ? "CRASH in the handler\n" : "CRASH\n"); _exit(on_duty ? 9 : 8); }
static void watch(bool faulty) {
    struct sigaction sa{}; sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGALRM, &sa, nullptr);
    sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    if(!faulty) for(int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
    alarm(2);
}

// ----------------------------------------------------------------------------------------------------------- workloads
static volatile u sink;
NI static void leaf(int n) { volatile char b[40]; for(int i = 0; i < n; i++) b[i % 40] = (char) i; sink += b[0]; }
NI static int recurse(int n) { int r = n <= 0 ? (leaf(3), 1) : recurse(n - 1) + recurse(n - 3); asm volatile(""); return r; }
NI static void w_calls() { recurse(5); void (*volatile f)(int) = leaf; f(4); }
NI static void w_malloc() {
    void* p[24] = {};
    for(int i = 0; i < 160; i++) {
        int k = (*rng)() % 24; u n = (*rng)() % 7 == 0 ? 3000 + (*rng)() % 200000 : (*rng)() % 300;
        switch((*rng)() % 5) {
            case 0: p[k] = realloc(p[k], n + 1); break;
            case 1: free(p[k]); p[k] = calloc(n / 16 + 1, 16); break;
            case 2: free(p[k]); p[k] = nullptr; break;
            default: free(p[k]); p[k] = malloc(n);
        }
    }
    for(auto q : p) free(q);
}
NI static void w_strings() {
    std::map<std::string, std::vector<int>> m;
    for(int i = 0; i < 12; i++) { m[std::to_string((*rng)() % 10) + std::string((*rng)() % 40, 'x')].push_back(i); }
    std::ostringstream o;
    for(auto& e : m) o << e.first << ' ' << e.second.size() << '\n';
    sink += o.str().size();
}
// captures that are interrupted by captures come out as if they had not been: the first round is not interrupted
static long disturbed;
NI static void round_of_captures(std::vector<u>& out) {
    u b[32], c[3];
    for(auto& x : b) x = 0;
    int n = (int) cpptrace::safe_generate_raw_trace(b, 32, 0), m = (int) ctrace_safe_generate_raw_trace(c, 3, 1, 2);
    out.assign(b, b + n); out.insert(out.end(), c, c + m);
    auto r = cpptrace::generate_raw_trace();
    out.insert(out.end(), r.frames.begin(), r.frames.end());
    cpptrace::safe_object_frame f; cpptrace::get_safe_object_frame(b[0], &f);
    out.push_back(f.raw_address); out.push_back(f.address_relative_to_object_start);
    for(const char* p = f.object_path; *p; p++) out.push_back((u) *p);
    auto o = f.resolve();
    out.push_back(o.object_address);
    auto t = r.resolve();
    for(auto& x : t.frames) { out.push_back(x.object_address); for(char ch : x.symbol) out.push_back((u) ch); }
}
NI static void w_capture() {
    std::vector<u> first, now;
    for(volatile int i = 0; i < 3; i++) {
        if(i == 0) { trap_off(); paused = 1; }
        round_of_captures(i == 0 ? first : now);
        if(i == 0) { paused = 0; prev_valid = false; trap_on(); }
        else {
            // whether a frame was interrupted is libunwind's to say, and it is wrong once in a while when its walk is interrupted: off by one
            bool same = now.size() == first.size();
            for(std::size_t k = 0; same && k < now.size(); k++) same = now[k] == first[k] || (now[k] > 0x10000 && (now[k] + 1 == first[k] || now[k] == first[k] + 1));
            if(same) continue;
            disturbed++;
            stepping = 0; trap_off();
            return;
        }
    }
}
NI static void thrower(int n) { if(n == 0) throw std::runtime_error("x"); std::string s(40, 'y'); thrower(n - 1); sink += s.size(); }
NI static void w_throw() { try { thrower(3); } catch(std::exception& e) { sink += e.what()[0]; } }
NI static void w_libc() {
    char b[200]; std::snprintf(b, sizeof b, "%d %s %g %lx", 42, "abc", 1.25, (unsigned long) sink);
    sink += std::strlen(b); sink += std::strtol(b, nullptr, 10);
    int v[30]; for(auto& x : v) x = (int) (*rng)(); std::qsort(v, 30, sizeof(int), [](const void* a, const void* c) { return *(const int*) a < *(const int*) c ? -1 : 1; });
    char* e = getenv("HOME"); sink += e ? e[0] : 0; sink += (u) time(nullptr);
}
static const std::map<std::string, void (*)()> workloads = {{"calls", w_calls}, {"malloc", w_malloc}, {"strings", w_strings}, {"capture", w_capture}, {"throw", w_throw}, {"libc", w_libc}};

static void step_handler() {
    struct sigaction sa{}; sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGTRAP, &sa, nullptr);
}
NI static void run(void (*work)()) {
    auto t = cpptrace::generate_raw_trace();
    base_n = 0;
    for(std::size_t i = 1; i < t.frames.size() && i < 256; i++) base[base_n++] = t.frames[i];
    t.frames.clear(); t.frames.shrink_to_fit();
    shadow_n = 0; prev_valid = false; stepping = 1;
    trap_on();
    work();
    trap_off();
    stepping = 0;
    asm volatile("");
}
static void (*chosen)();
static void in_thread(void (*work)()) {
    chosen = work;
    pthread_t th;
    pthread_create(&th, nullptr, [](void*) -> void* {
        stack_t s{}; s.ss_size = 256 * 1024; s.ss_sp = mmap(nullptr, s.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&s, nullptr);
        run(chosen); return nullptr;
    }, nullptr);
    pthread_join(th, nullptr);
}
static void in_signal(void (*work)()) {
    chosen = work;
    struct sigaction sa{}; sa.sa_handler = [](int) { run(chosen); };
    sigaction(SIGUSR1, &sa, nullptr);
    raise(SIGUSR1);
}

// faults: the faulting instruction itself is the frame
static sigjmp_buf back;
static int fault_sig;
NI static void on_fault(int, siginfo_t*, void* ctx) {
    if(on_duty) _exit(9);
    in_handler = 1;
    sample((ucontext_t*) ctx, true);
    in_handler = 0;
    siglongjmp(back, 1);
}
#define FAULT_BASE() do { auto t = cpptrace::generate_raw_trace(); base_n = 0; for(std::size_t i = 1; i < t.frames.size(); i++) base[base_n++] = t.frames[i]; } while(0)
NI static void f_null() { FAULT_BASE(); *(volatile int*) 8 = 1; asm volatile(""); }
NI static void f_ill() { FAULT_BASE(); asm volatile("ud2"); }
NI static void f_div() { FAULT_BASE(); volatile int z = 0; asm volatile("movl $1, %%eax; cltd; idivl %0" :: "m"(z) : "eax", "edx"); }
NI static void f_first() { FAULT_BASE(); asm volatile("int3"); }
NI static void f_deep(int n) { if(n) { f_deep(n - 1); asm volatile(""); } else f_null(); asm volatile(""); }
NI static void f_deep30() { f_deep(30); }
NI static void f_call_bad() { FAULT_BASE(); asm volatile("hlt"); }
static volatile int depth_now;
NI static void faults() {
    for(int alt = 0; alt < 2; alt++) {
        for(int s : {SIGSEGV, SIGILL, SIGFPE, SIGBUS, SIGTRAP}) {
            struct sigaction sa{}; sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | (alt ? SA_ONSTACK : 0);
            sigaction(s, &sa, nullptr);
        }
        for(auto f : {f_null, f_ill, f_div, f_deep30, f_call_bad}) for(std::size_t i = 0; i < params->size(); i++) {
            step_n++;
            shadow_n = 0;
            if(!sigsetjmp(back, 1)) f();
        }
    }
}

static std::string hex(u x) { char b[32]; std::snprintf(b, sizeof b, "\"%lx\"", (unsigned long) x); return b; }
static std::string list(const u* a, int n) { std::string s = "["; for(int i = 0; i < n; i++) s += (i ? "," : "") + hex(a[i]); return s + "]"; }

// paths of any length in the loader's list
static void longnames(std::FILE* out) {
    void* h = dlopen("libm.so.6", RTLD_NOW);
    link_map* m; dlinfo(h, RTLD_DI_LINKMAP, &m);
    char* old = m->l_name;
    u a = (u) dlsym(h, "cos");
    for(std::size_t n : {1ul, 2ul, 100ul, 4000ul, 4094ul, 4095ul, 4096ul, 4097ul, 4098ul, 5000ul, 20000ul}) {
        std::string s(n, 'p');
        m->l_name = &s[0];
        std::memset((void*) objpage, 0x5a, sizeof *objpage);
        cpptrace::get_safe_object_frame(a, objpage);
        m->l_name = old;
        bool nul = std::memchr(objpage->object_path, 0, sizeof objpage->object_path) != nullptr;
        std::size_t len = strnlen(objpage->object_path, sizeof objpage->object_path);
        bool prefix = std::memcmp(objpage->object_path, s.data(), std::min(len, n)) == 0;
        std::fprintf(out, "{\"kind\":\"name\",\"n\":%zu,\"nul\":%s,\"len\":%zu,\"prefix\":%s,\"room\":%zu,\"rawok\":%s}\n", n, nul ? "true" : "false", len, prefix ? "true" : "false",
                     sizeof objpage->object_path - 1, objpage->raw_address == a && objpage->address_relative_to_object_start == a - m->l_addr ? "true" : "false");
    }
}

static void unsupported(std::FILE* out) {
    // must leave the buffers alone
    u* b = (u*) page_end - 8;
    for(int i = -8; i < 8; i++) b[i] = 7;
    int n = (int) (cpptrace::safe_generate_raw_trace(b, 8, 0) + cpptrace::safe_generate_raw_trace(b, 8, 0, 5) + ctrace_safe_generate_raw_trace(b, 8, 0, 5));
    bool intact = true;
    for(int i = -8; i < 8; i++) intact &= b[i] == 7;
    std::fprintf(out, "{\"kind\":\"support\",\"unwind\":%s,\"cunwind\":%s,\"n\":%d,\"intact\":%s,\"object\":%s,\"cobject\":%s,", cpptrace::can_signal_safe_unwind() ? "true" : "false",
                 ctrace_can_signal_safe_unwind() ? "true" : "false", n, intact ? "true" : "false", cpptrace::can_get_safe_object_frame() ? "true" : "false",
                 ctrace_can_get_safe_object_frame() ? "true" : "false");
    std::memset((void*) objpage, 0x5a, sizeof *objpage);
    cpptrace::get_safe_object_frame((u) &unsupported, objpage);
    bool empty = objpage->object_path[0] == 0 && objpage->address_relative_to_object_start == 0;
    auto r = objpage->resolve();
    std::fprintf(out, "\"empty\":%s,\"raw\":%s,\"rempty\":%s}\n", empty ? "true" : "false", objpage->raw_address == (u) &unsupported && r.raw_address == (u) &unsupported ? "true" : "false",
                 r.object_path.empty() && r.object_address == 0 ? "true" : "false");
}

int main(int argc, char** argv) {
    std::string w = argv[1];
    static std::mt19937 gen((unsigned) std::atol(argv[2])); rng = &gen;
    step_max = std::atol(argv[3]); sample_every = std::atol(argv[4]);
    std::FILE* out = std::fopen(argv[5], "w");
    static std::vector<param> ps;
    for(int i = 6; i < argc; i++) {
        param p; unsigned long a, b, c; std::sscanf(argv[i], "%d,%lu,%lu,%lu", &p.entry, &a, &b, &c); p.skip = a; p.depth = b; p.size = c; ps.push_back(p);
    }
    params = &ps;
    page_end = map_end();
    objpage = (cpptrace::safe_object_frame*) ((u) (map_end() - sizeof(cpptrace::safe_object_frame)) & ~7ul);
    shadow = (shadow_frame*) mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    record_max = 6000;
    records = (record*) mmap(nullptr, sizeof(record) * record_max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t st{}; st.ss_size = 512 * 1024; st.ss_sp = mmap(nullptr, st.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&st, nullptr);
    unsupported(out);
    if(w == "support") { if(cpptrace::can_get_safe_object_frame()) longnames(out); std::fclose(out); return 0; }
    { u warm[4]; sink += cpptrace::safe_generate_raw_trace(warm, 4, 0); sink += cpptrace::generate_raw_trace().frames.size(); walk(warm, 4); }
    std::string how = w.substr(0, w.find('/')), what = w.substr(w.find('/') + 1);
    with_ordinary = how == "fault" || what == "calls";
#ifdef CPPTRACE_UNWIND_WITH_LIBUNWIND
    // libunwind's cache is updated by a nested walk under the feet of the interrupted one, once in a while
    if(what == "capture") unw_set_caching_policy(unw_local_addr_space, UNW_CACHE_NONE);
#endif
    watch(how == "fault");
    if(how == "fault") faults();
    else {
        step_handler();
        auto f = workloads.at(what);
        while(step_n < step_max) {
            long before = step_n;
            if(how == "main") run(f); else if(how == "thread") in_thread(f); else in_signal(f);
            if(step_n == before) { std::puts("no steps"); return 3; }
            if(what == "capture" && step_n > step_max / 2) break;
        }
    }
    struct { void* handler; unsigned long flags; void* restorer; unsigned long mask; } ksa{};
    syscall(SYS_rt_sigaction, how == "fault" ? SIGSEGV : SIGTRAP, nullptr, &ksa, 8);
    std::fprintf(out, "{\"kind\":\"sum\",\"steps\":%ld,\"mismatches\":%ld,\"deviations\":%ld,\"disturbed\":%ld,\"records\":%ld,\"tramp\":%s}\n", step_n, mismatches, deviations, disturbed, record_n, hex((u) ksa.restorer).c_str());
    u lo = (u) &__executable_start, hi = (u) &etext;
    for(long i = 0; i < record_n; i++) {
        record& r = records[i];
        std::string o = "[";
        for(int k = 0; k < r.on; k++) {
            auto ord = cpptrace::raw_trace{{r.o[k].raw}}.resolve_object_trace().frames.at(0);
            cpptrace::safe_object_frame s; s.raw_address = r.o[k].raw; s.address_relative_to_object_start = r.o[k].rel; std::memset(s.object_path, 0, sizeof s.object_path); std::strcpy(s.object_path, r.o[k].path);
            auto res = s.resolve();
            o += std::string(k ? "," : "") + "{\"raw\":" + hex(r.o[k].raw) + ",\"rel\":" + hex(r.o[k].rel) + ",\"nul\":" + (r.o[k].nul ? "true" : "false") + ",\"path\":" + mj::quote(r.o[k].path) +
                ",\"ord\":[" + hex(ord.raw_address) + "," + hex(ord.object_address) + "," + mj::quote(ord.object_path) + "],\"res\":[" + hex(res.raw_address) + "," + hex(res.object_address) + "," + mj::quote(res.object_path) + "]}";
        }
        o += "]";
        std::fprintf(out, "{\"kind\":\"at\",\"step\":%ld,\"entry\":%d,\"skip\":%lu,\"depth\":%lu,\"size\":%lu,\"got\":%s,\"full\":%s,\"exp\":%s,\"walk\":%s,\"ord\":%s,\"dev\":%s,\"intact\":%s,\"allocs\":%ld,\"locks\":%ld,\"mine\":%s,\"objs\":%s}\n",
                     r.step, r.entry, r.skip, r.depth, r.size, list(r.got, r.n).c_str(), list(r.full, r.fn).c_str(), list(r.expect, r.en).c_str(), list(r.walk, r.wn).c_str(), list(r.ord, r.rn).c_str(), r.dev ? "true" : "false", r.intact ? "true" : "false", r.allocs, r.locks,
                     r.fn && r.full[0] >= lo && r.full[0] < hi && r.fn > 1 && r.full[1] >= lo && r.full[1] < hi ? "true" : "false", o.c_str());
    }
    std::fclose(out);
}
