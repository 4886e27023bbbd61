// Runs call-stack programs and captures from them with every entry point of the library; the real stack is taken with
// glibc's backtrace() from the very same call instruction. Input lines {"kinds":[..],"entry":e,"skip":"..","depth":".."}
#include <cpptrace/cpptrace.hpp>
#include <ctrace/ctrace.h>
#include "mjson.hpp"
#include <alloca.h>
#include <csignal>
#include <ucontext.h>
#include <execinfo.h>
#include <algorithm>
#include <atomic>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <thread>
#define NOINLINE __attribute__((noinline))
using cpptrace::frame_ptr;
// vleaf(fns, args, results): calls fns[0] and then fns[1], both from this one call instruction.
asm(R"(
.text
.globl vleaf
.type vleaf,@function
vleaf:
 .cfi_startproc
 pushq %rbp
 .cfi_def_cfa_offset 16
 .cfi_offset 6,-16
 movq %rsp,%rbp
 .cfi_def_cfa_register 6
 pushq %rbx
 pushq %r12
 pushq %r13
 pushq %r14
 .cfi_offset 3,-24
 .cfi_offset 12,-32
 .cfi_offset 13,-40
 .cfi_offset 14,-48
 movq %rdi,%rbx
 movq %rsi,%r12
 movq %rdx,%r13
 xorl %r14d,%r14d
1:
 movq (%r12),%rdi
 movq 8(%r12),%rsi
 movq 16(%r12),%rdx
 movq 24(%r12),%rcx
 call *(%rbx)
.globl vleaf_ret
vleaf_ret:
 movq %rax,(%r13)
 movq %rdx,8(%r13)
 addq $8,%rbx
 addq $32,%r12
 addq $16,%r13
 incl %r14d
 cmpl $2,%r14d
 jne 1b
 popq %r14
 popq %r13
 popq %r12
 popq %rbx
 popq %rbp
 .cfi_def_cfa 7,8
 ret
 .cfi_endproc
.size vleaf,.-vleaf
)");
struct two { std::uint64_t a, b; };
extern "C" void vleaf(const void* const* fns, const std::uint64_t* args, two* results);
extern "C" char vleaf_ret[];

static std::vector<frame_ptr> shadow; // return addresses of our own functions, outermost first
static const int MAXBT = 1 << 16;
static std::vector<void*> bt(MAXBT);
struct job {
    std::vector<std::string> kinds; size_t at = 0;
    std::string entry; std::size_t skip, depth, bufsize;
    int n = 0; std::vector<frame_ptr> got; std::string err;
    std::size_t wrote_beyond = 0;
};
static std::atomic<int> logged{0};
static void go(job&);
template<class T> static void collect(job& j, const T& t) { for(auto& f : t.frames) j.got.push_back(f.raw_address); }
static void collect(job& j, const cpptrace::raw_trace& t) { j.got = t.frames; }
template<class T> static const void* fnptr(T* f) { return reinterpret_cast<const void*>(f); }
using namespace cpptrace;
static const void* entry_fn(const std::string& e) {
    if(e == "raw.current") return fnptr(static_cast<raw_trace(*)(std::size_t)>(&raw_trace::current));
    if(e == "raw.current2") return fnptr(static_cast<raw_trace(*)(std::size_t, std::size_t)>(&raw_trace::current));
    if(e == "raw.generate") return fnptr(static_cast<raw_trace(*)(std::size_t)>(&generate_raw_trace));
    if(e == "raw.generate2") return fnptr(static_cast<raw_trace(*)(std::size_t, std::size_t)>(&generate_raw_trace));
    if(e == "obj.current") return fnptr(static_cast<object_trace(*)(std::size_t)>(&object_trace::current));
    if(e == "obj.current2") return fnptr(static_cast<object_trace(*)(std::size_t, std::size_t)>(&object_trace::current));
    if(e == "obj.generate") return fnptr(static_cast<object_trace(*)(std::size_t)>(&generate_object_trace));
    if(e == "obj.generate2") return fnptr(static_cast<object_trace(*)(std::size_t, std::size_t)>(&generate_object_trace));
    if(e == "st.current") return fnptr(static_cast<stacktrace(*)(std::size_t)>(&stacktrace::current));
    if(e == "st.current2") return fnptr(static_cast<stacktrace(*)(std::size_t, std::size_t)>(&stacktrace::current));
    if(e == "st.generate") return fnptr(static_cast<stacktrace(*)(std::size_t)>(&generate_trace));
    if(e == "st.generate2") return fnptr(static_cast<stacktrace(*)(std::size_t, std::size_t)>(&generate_trace));
    if(e == "c.raw") return fnptr(&ctrace_generate_raw_trace);
    if(e == "c.obj") return fnptr(&ctrace_generate_object_trace);
    if(e == "c.st") return fnptr(&ctrace_generate_trace);
    if(e == "safe") return fnptr(static_cast<std::size_t(*)(frame_ptr*, std::size_t, std::size_t)>(&safe_generate_raw_trace));
    if(e == "safe2") return fnptr(static_cast<std::size_t(*)(frame_ptr*, std::size_t, std::size_t, std::size_t)>(&safe_generate_raw_trace));
    if(e == "c.safe") return fnptr(&ctrace_safe_generate_raw_trace);
    abort();
}
typedef std::uint64_t u;
NOINLINE static void capture(job& j) {
    const std::string& e = j.entry;
    const void* fn = entry_fn(e);
    alignas(raw_trace) char sret[sizeof(stacktrace)];
    std::vector<frame_ptr> buf;
    const bool safe = e == "safe" || e == "safe2" || e == "c.safe", c = e[0] == 'c' && !safe;
    u args[4];
    if(safe) { buf.assign(j.bufsize + 8, 0xABABABAB); args[0] = (u)buf.data(); args[1] = j.bufsize; args[2] = j.skip; args[3] = j.depth; }
    else if(c) { args[0] = j.skip; args[1] = j.depth; args[2] = args[3] = 0; }
    else { args[0] = (u)sret; args[1] = j.skip; args[2] = j.depth; args[3] = 0; }
    // first the reference, then the library, through the same call instructions
    two results[2] = {};
    const void* fns[2] = {fnptr(&backtrace), fn};
    u a[8] = {(u)bt.data(), (u)MAXBT, 0, 0, args[0], args[1], args[2], args[3]};
    try { vleaf(fns, a, results); }
    catch(std::exception& ex) { j.err = std::string("exception: ") + ex.what(); }
    catch(...) { j.err = "exception"; }
    j.n = (int)results[0].a;
    const two r = results[1];
    if(j.err.empty()) {
        if(safe) {
            std::size_t k = (std::size_t)r.a;
            if(k > j.bufsize) { j.err = "returned count " + std::to_string(k) + " larger than the buffer"; k = j.bufsize; }
            for(std::size_t i = k; i < buf.size(); i++) if(buf[i] != 0xABABABAB) j.err = "wrote buffer entry " + std::to_string(i) + " beyond the returned count " + std::to_string(k);
            j.got.assign(buf.begin(), buf.begin() + k);
        } else if(e == "c.raw") { ctrace_raw_trace t{(ctrace_frame_ptr*)r.a, r.b}; j.got.assign(t.frames, t.frames + t.count); ctrace_free_raw_trace(&t); }
        else if(e == "c.obj") { ctrace_object_trace t{(ctrace_object_frame*)r.a, r.b}; for(size_t i = 0; i < t.count; i++) j.got.push_back(t.frames[i].raw_address); ctrace_free_object_trace(&t); }
        else if(e == "c.st") { ctrace_stacktrace t{(ctrace_stacktrace_frame*)r.a, r.b}; for(size_t i = 0; i < t.count; i++) j.got.push_back(t.frames[i].raw_address); ctrace_free_stacktrace(&t); }
        else if(e[0] == 'r') { auto* t = (raw_trace*)sret; collect(j, *t); t->~raw_trace(); }
        else if(e[0] == 'o') { auto* t = (object_trace*)sret; collect(j, *t); t->~object_trace(); }
        else { auto* t = (stacktrace*)sret; collect(j, *t); t->~stacktrace(); }
    }
    asm volatile("" ::: "memory");
}
struct guard { guard() { shadow.push_back((frame_ptr)__builtin_extract_return_addr(__builtin_return_address(0))); } ~guard() { shadow.pop_back(); } } ;
#define SHADOW() shadow.push_back((frame_ptr)__builtin_return_address(0))
#define POP() do { shadow.pop_back(); asm volatile("" ::: "memory"); } while(0)
NOINLINE static void k_plain(job& j) { SHADOW(); go(j); POP(); }
template<int N> NOINLINE static void k_template(job& j) { SHADOW(); go(j); POP(); }
struct base { virtual ~base() = default; virtual void f(job&) = 0; };
struct derived : base { NOINLINE void f(job& j) override { SHADOW(); go(j); POP(); } };
NOINLINE static void k_virtual(job& j) { SHADOW(); derived d; base* volatile b = &d; b->f(j); POP(); }
NOINLINE static void k_function(job& j) { SHADOW(); std::function<void()> f = [&] { go(j); asm volatile("" ::: "memory"); }; f(); POP(); }
NOINLINE static void k_alloca(job& j) { SHADOW(); volatile char* p = (volatile char*)alloca(64 + 16 * (shadow.size() % 7)); p[0] = 1; go(j); p[0]++; POP(); }
struct cleanup { job& j; ~cleanup() { asm volatile("" ::: "memory"); } };
NOINLINE static void k_cleanup(job& j) { SHADOW(); cleanup c{j}; std::string s(100, 'x'); go(j); POP(); }
NOINLINE static void k_try(job& j) { SHADOW(); try { go(j); } catch(int) { abort(); } POP(); }
NOINLINE static void k_catch(job& j) { SHADOW(); try { throw 1; } catch(int) { go(j); } POP(); }
struct dtor { job& j; ~dtor() noexcept(false) { go(j); asm volatile("" ::: "memory"); } };
NOINLINE static void k_dtor(job& j) { SHADOW(); { dtor d{j}; } POP(); }
NOINLINE static void k_unwind(job& j) { SHADOW(); try { dtor d{j}; throw 1; } catch(int) {} POP(); } // captured while an exception unwinds
static thread_local job* qj;
static int cmp(const void*, const void*) { if(qj) { job* j = qj; qj = nullptr; go(*j); asm volatile("" ::: "memory"); } return 0; }
NOINLINE static void k_qsort(job& j) { SHADOW(); qj = &j; int a[2] = {1, 2}; qsort(a, 2, sizeof(int), cmp); POP(); }
NOINLINE static void k_recurse(job& j, int n) { SHADOW(); if(n > 0) k_recurse(j, n - 1); else go(j); POP(); }
// captures from a signal handler: after a system call, and at a faulting instruction, on this stack or another
static thread_local job* sigj;
static void* trampoline;
static void on_signal(int sig, siginfo_t*, void* uc) {
    trampoline = __builtin_return_address(0);
    job* j = sigj; sigj = nullptr;
    if(j) go(*j);
    asm volatile("" ::: "memory");
    if(sig == SIGILL) ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP] += 2; // past ud2
}
static void arm_signal(job& j, int sig, bool alt) {
    static thread_local std::vector<char> stack;
    struct sigaction sa{};
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_NODEFER | (alt ? SA_ONSTACK : 0);
    sigaction(sig, &sa, nullptr);
    if(alt && stack.empty()) {
        stack.resize(1 << 20);
        stack_t st{}; st.ss_sp = stack.data(); st.ss_size = stack.size();
        sigaltstack(&st, nullptr);
    }
    sigj = &j;
}
NOINLINE static void k_signal(job& j) { SHADOW(); arm_signal(j, SIGUSR1, false); raise(SIGUSR1); POP(); }
NOINLINE static void k_sigalt(job& j) { SHADOW(); arm_signal(j, SIGUSR2, true); raise(SIGUSR2); POP(); }
NOINLINE static void k_fault(job& j) { SHADOW(); arm_signal(j, SIGILL, false); asm volatile("ud2" ::: "memory"); POP(); }
// the very first instruction of a function: one byte before it is another function
asm(R"(
.text
.globl vfault_first
.type vfault_first,@function
vfault_first:
 .cfi_startproc
 ud2
 ret
 .cfi_endproc
.size vfault_first,.-vfault_first
)");
extern "C" void vfault_first();
NOINLINE static void k_fault0(job& j) { SHADOW(); arm_signal(j, SIGILL, true); vfault_first(); POP(); }
static void thread_main(job* j, std::vector<frame_ptr>* saved) { go(*j); asm volatile("" ::: "memory"); }
NOINLINE static void k_thread(job& j) {
    std::vector<frame_ptr> saved; std::swap(saved, shadow);
    std::thread t(thread_main, &j, &saved); t.join();
    std::swap(saved, shadow);
}
NOINLINE static void go(job& j) {
    if(j.at == j.kinds.size()) { capture(j); asm volatile("" ::: "memory"); return; }
    const std::string& k = j.kinds[j.at++];
    if(k == "plain") k_plain(j);
    else if(k == "template") k_template<3>(j);
    else if(k == "virtual") k_virtual(j);
    else if(k == "function") k_function(j);
    else if(k == "alloca") k_alloca(j);
    else if(k == "cleanup") k_cleanup(j);
    else if(k == "try") k_try(j);
    else if(k == "catch") k_catch(j);
    else if(k == "dtor") k_dtor(j);
    else if(k == "unwind") k_unwind(j);
    else if(k == "qsort") k_qsort(j);
    else if(k == "thread") k_thread(j);
    else if(k == "signal") k_signal(j);
    else if(k == "sigalt") k_sigalt(j);
    else if(k == "fault") k_fault(j);
    else if(k == "fault0") k_fault0(j);
    else if(k.substr(0, 7) == "recurse") k_recurse(j, atoi(k.c_str() + 7));
    else abort();
    asm volatile("" ::: "memory");
}
static std::size_t num(const std::string& s, int n) {
    // "n+K"/"n-K": relative to the height of the stack, "max", or a number
    if(s == "max") return SIZE_MAX;
    if(s[0] == 'm') return SIZE_MAX - (std::size_t)atoi(s.c_str() + 4); // max-K
    if(s[0] == 'n') { long long k = s.size() > 1 ? atoll(s.c_str() + 1) : 0; long long v = n + k; return v < 0 ? 0 : (std::size_t)v; }
    return strtoull(s.c_str(), nullptr, 10);
}
int main(int, char** argv) {
    std::ifstream in(argv[1]); std::ofstream out(argv[2]);
    std::string line;
    absorb_trace_exceptions(false);
    set_log_level(log_level::debug);
    set_log_callback([](log_level, const char*) { logged++; });
    void* warm[1]; backtrace(warm, 1);
    while(std::getline(in, line)) {
        auto v = mj::parse(line);
        job j;
        for(auto& k : v["kinds"].a) j.kinds.push_back(k.s);
        j.entry = v["entry"].s;
        // the height of this program's stack, to place relative arguments (twice: lazy binding changes nothing)
        int n = 0;
        for(int pass = 0; pass < 2; pass++) {
            j.at = 0; j.got.clear(); j.err.clear(); logged = 0;
            j.skip = pass ? num(v["skip"].s, n) : 0; j.depth = pass ? num(v["depth"].s, n) : 1; j.bufsize = pass ? num(v["buf"].s, n) : 1;
            std::string e = j.entry;
            if(pass == 0) j.entry = "c.raw";
            go(j);
            j.entry = e; n = j.n;
        }
        // positions of the returned addresses in the real stack (each one byte before the return address)
        // an interrupted frame's address is the interrupted instruction itself; the trampoline below a handler is not a call
        auto matches = [&](int i, frame_ptr a) {
            if(i < 0 || i >= j.n) return false;
            if(trampoline && i > 0 && bt[i - 1] == trampoline) return (frame_ptr)bt[i] == a;
            return (frame_ptr)bt[i] - 1 == a || (trampoline && bt[i] == trampoline && (frame_ptr)bt[i] == a);
        };
        std::string pos = "[";
        int prev = -2;
        for(size_t i = 0; i < j.got.size(); i++) {
            int p = -1;
            if(i == 0 && matches((int)std::min<std::size_t>(j.skip, 1 << 30), j.got[0])) p = (int)j.skip;
            else if(matches(prev + 1, j.got[i])) p = prev + 1;
            else for(int q = 0; q < j.n && p < 0; q++) if(matches(q, j.got[i])) p = q;
            pos += (i ? "," : "") + std::to_string(p);
            prev = p < 0 ? -2 : p;
        }
        if((frame_ptr)bt[0] != (frame_ptr)vleaf_ret) j.err = "ORACLE";
        auto cl = [](std::size_t x) { return std::to_string(std::min<std::size_t>(x, 1000000000)); };
        out << "{\"n\":" << j.n << ",\"skip\":" << cl(j.skip) << ",\"depth\":" << cl(j.depth) << ",\"buf\":" << cl(j.bufsize) << ",\"entry\":" << mj::quote(j.entry)
            << ",\"pos\":" << pos << "],\"err\":" << mj::quote(j.err) << ",\"logged\":" << logged << ",\"safe\":" << (can_signal_safe_unwind() ? "true" : "false") << "}\n" << std::flush;
    }
}
