// Interprets the tapes of specs/Exc.tla with real language and cpptrace try blocks. exc_lists.hpp (generated by the
// check from the handler lists) defines the try blocks.
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <cpptrace/exceptions.hpp>
#include "mjson.hpp"
#include <atomic>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#define NOINLINE __attribute__((noinline))
#define KEEP() asm volatile("" ::: "memory")
static std::atomic<int> live{0}, logged{0};
struct B { int v; explicit B(int n = 0) : v(n) { live++; } B(const B& o) : v(o.v) { live++; } B& operator=(const B&) = default; virtual ~B() { live--; } };
struct D : B { using B::B; };
struct E : D { using D::D; };
struct M { int w; explicit M(int n = 0) : w(n) {} virtual ~M() = default; };
struct MI : M, B { explicit MI(int n = 0) : M(n), B(n) {} };
struct V : virtual B { int pad = 1; explicit V(int n = 0) : B(n) {} };
struct W : virtual B { int pad = 2; explicit W(int n = 0) : B(n) {} };
struct VW : V, W { explicit VW(int n = 0) : B(n) {} };
struct X1 : B { using B::B; };
struct X2 : B { using B::B; };
struct AM : X1, X2 { explicit AM(int n = 0) : X1(n), X2(n) {} };
struct PB : private B { int pv; explicit PB(int n = 0) : B(n), pv(n) {} };
struct NP { int v; char big[200]; };
enum en { en0 };
enum class ec : short { e0 };
struct XR : std::runtime_error { using std::runtime_error::runtime_error; };
typedef void (*fn)();
#if __cplusplus >= 201703L
typedef void (*fnx)() noexcept;
#endif
static std::map<const void*, int> where;
static int val(const B& b) { return b.v; }
static int val(const M& m) { return m.w; }
static int val(const MI& m) { return m.w == m.B::v || m.B::v > 1000 ? m.B::v : -99; }
static int val(const AM& a) { return a.X1::v; }
static int val(const PB& p) { return p.pv; }
static int val(const NP& p) { return p.v; }
static int val(const std::exception& e) { return std::atoi(e.what()); }
static int val(const cpptrace::exception& e) { return std::atoi(e.message()); }
static int val(int x) { return x; }
static int val(unsigned x) { return (int)x; }
static int val(long x) { return (int)x; }
static int val(char x) { return x; }
static int val(bool x) { return x; }
static int val(double x) { return (int)x; }
static int val(en x) { return x; }
static int val(ec x) { return (int)x; }
static int val(std::nullptr_t) { return -1; }
static int val(const int* p) { return p ? *p : -1; }
static int val(int** p) { return p ? **p : -1; }
static int val(const char* p) { return p ? *p : -1; }
static int val(const void* p);
static int val(void* p) { return val((const void*)p); }
static int val(const void* p) { return p ? where.count(p) ? where[p] : -98 : -1; }
static int val(fn f) { return f ? 7 : -1; }
#if __cplusplus >= 201703L
static int val(fnx f) { return f ? 7 : -1; }
#endif
template<class T> static int val(T* p) { return p ? val(*p) : -1; }
static int* loc_(B* b, int) { return &b->v; }
template<class T, typename std::enable_if<std::is_convertible<T*, B*>::value, int>::type = 0> static int* loc(T& e) { return loc_(static_cast<B*>(&e), 0); }
template<class T, typename std::enable_if<!std::is_convertible<T*, B*>::value, int>::type = 0> static int* loc(T&) { return nullptr; }
static void plain_fn() {}
#if __cplusplus >= 201703L
static void noexcept_fn() noexcept {}
#endif
template<class T> static T* pool(int n) {
    static std::vector<std::unique_ptr<T>> p(128);
    if(!p[n]) { p[n].reset(new T(n)); if(std::is_base_of<B, T>::value) live--; if(std::is_same<T, AM>::value) live--; where[p[n].get()] = n; }
    return p[n].get();
}
static int ints[128]; static int* pints[128]; static char chars[128];

struct raised { bool re; std::vector<cpptrace::frame_ptr> bt; const void* fn; };
struct run {
    std::vector<std::string> tape; size_t at = 0;
    std::vector<std::string> log; int nid = 0, nthr = 0;
    std::exception_ptr slots[2];
    std::vector<raised> raises;
    std::string next() { return at < tape.size() ? tape[at++] : std::string("end"); }
    void say(const std::string& s) { log.push_back(s); }
    int loop();
    int body() { return loop(); }
    int ok(int id) { say("ok " + std::to_string(id)); return 0; }
    int handle(int id, int j, bool has, int v, int* mut) {
        say("catch " + std::to_string(id) + " " + std::to_string(j) + " " + (has ? std::to_string(v) : "-"));
        int* outer = where_mut; where_mut = mut;
        struct restore { run& r; int* o; ~restore() { r.where_mut = o; } } rs{*this, outer};
        int s = loop();
        if(!s) say("after " + std::to_string(id));
        return s;
    }
    int* where_mut = nullptr;
    std::string name(const cpptrace::raw_trace& t);
    void query(bool raw);
    NOINLINE void raise(const std::string& op, int n);
};
static const void* fn_of(cpptrace::frame_ptr pc) { Dl_info i; return dladdr((void*)pc, &i) ? i.dli_saddr : nullptr; }
static const void* exe_base() { static Dl_info i; static int x = dladdr((void*)&fn_of, &i); (void)x; return i.dli_fbase; }
static bool in_rethrow(cpptrace::frame_ptr pc) {
    const auto a = (cpptrace::frame_ptr)static_cast<void(*)()>(&cpptrace::rethrow), b = (cpptrace::frame_ptr)static_cast<void(*)(std::exception_ptr)>(&cpptrace::rethrow);
    return pc - a < 1024 || pc - b < 1024;
}
// which throw a trace is the trace of: the throwing function, then exactly its callers, preceded by nothing but the
// language runtime (and cpptrace::rethrow itself)
std::string run::name(const cpptrace::raw_trace& t) {
    if(t.frames.empty()) return "0";
    std::string why = "nothing matches";
    for(size_t k = 0; k < raises.size(); k++) {
        auto& bt = raises[k].bt;
        if(t.frames.size() < bt.size()) continue;
        size_t i = t.frames.size() - bt.size();
        bool same = fn_of(t.frames[i]) == raises[k].fn;
        for(size_t j = 1; same && j < bt.size(); j++) same = t.frames[i + j] == bt[j];
        if(!same) continue;
        for(size_t j = 0; j < i; j++) {
            Dl_info d;
            if(!dladdr((void*)t.frames[j], &d)) { same = false; why = "unknown leading frame"; break; }
            if(d.dli_fbase == exe_base() && !(raises[k].re && j + 1 == i && in_rethrow(t.frames[j]))) { same = false; why = std::string("leading frame in ") + (d.dli_sname ? d.dli_sname : "the program"); break; }
        }
        if(same) return std::to_string(k + 1);
    }
    std::string s = "?(" + why + ";";
    for(auto f : t.frames) { Dl_info d; s += std::string(" ") + (dladdr((void*)f, &d) && d.dli_sname ? d.dli_sname : ("-" + std::to_string(f - (cpptrace::frame_ptr)d.dli_fbase)).c_str()); if(s.size() > 600) break; }
    return s + ")";
}
static cpptrace::raw_trace addresses(const cpptrace::stacktrace& t) {
    cpptrace::raw_trace r;
    for(auto& f : t.frames) r.frames.push_back(f.raw_address);
    return r;
}
void run::query(bool raw) {
    std::string c, s;
    if(raw) { c = name(cpptrace::raw_trace_from_current_exception()); s = name(cpptrace::raw_trace_from_current_exception_rethrow()); }
    else {
        c = name(addresses(cpptrace::from_current_exception())); s = name(addresses(cpptrace::from_current_exception_rethrow()));
        if(name(addresses(cpptrace::from_current_exception())) != c || name(addresses(cpptrace::from_current_exception_rethrow())) != s) c += " differs when read again";
    }
    say("q " + c + " " + s + " " + (cpptrace::current_exception_was_rethrown() ? "1" : "0"));
}
__attribute__((always_inline)) static inline void throw_it(const std::string& t, int n) {
    ints[n] = n; pints[n] = &ints[n]; chars[n] = (char)n; where[&ints[n]] = n; where[&chars[n]] = n; where[&pints[n]] = n;
    const std::string s = std::to_string(n);
    if(t == "B") throw B(n);
    if(t == "D") throw D(n);
    if(t == "E") throw E(n);
    if(t == "M") throw M(n);
    if(t == "MI") throw MI(n);
    if(t == "V") throw V(n);
    if(t == "W") throw W(n);
    if(t == "VW") throw VW(n);
    if(t == "X1") throw X1(n);
    if(t == "AM") throw AM(n);
    if(t == "PB") throw PB(n);
    if(t == "NP") { NP x{n, {}}; throw x; }
    if(t == "SE") throw std::exception();
    if(t == "RT") throw std::runtime_error(s);
    if(t == "XR") throw XR(s);
    if(t == "CR") throw cpptrace::runtime_error(std::string(s));
    if(t == "int") throw n;
    if(t == "uint") throw (unsigned)n;
    if(t == "long") throw (long)n;
    if(t == "char") throw (char)n;
    if(t == "bool") throw true;
    if(t == "dbl") throw (double)n;
    if(t == "en") throw (en)n;
    if(t == "ec") throw (ec)n;
    if(t == "nullp") throw nullptr;
    if(t == "pB") throw pool<B>(n);
    if(t == "pcB") throw (const B*)pool<B>(n);
    if(t == "pD") throw pool<D>(n);
    if(t == "pcD") throw (const D*)pool<D>(n);
    if(t == "pMI") throw pool<MI>(n);
    if(t == "pM") throw pool<M>(n);
    if(t == "pPB") throw pool<PB>(n);
    if(t == "pAM") throw pool<AM>(n);
    if(t == "pVW") throw pool<VW>(n);
    if(t == "pint") throw &ints[n];
    if(t == "pcint") throw (const int*)&ints[n];
    if(t == "pchar") throw &chars[n];
    if(t == "pcchar") throw (const char*)&chars[n];
    if(t == "pvoid") throw (void*)&ints[n];
    if(t == "pcvoid") throw (const void*)&ints[n];
    if(t == "ppint") throw &pints[n];
    if(t == "fn") throw &plain_fn;
#if __cplusplus >= 201703L
    if(t == "fnx") throw &noexcept_fn;
#endif
    std::cerr << "cannot throw " << t << std::endl; _exit(9);
}
#define RECORD(rethrown) do { void* bt[512]; int k = backtrace(bt, 512); raised r; r.re = rethrown; \
    for(int i = 0; i < k; i++) r.bt.push_back((cpptrace::frame_ptr)bt[i] - 1); r.fn = fn_of(r.bt[0]); raises.push_back(r); } while(0)
// one raise function for each kind; the throw site is told apart by the functions between it and the loop
NOINLINE void run::raise(const std::string& op, int n) {
    (void)n;
    if(op == "rethrow") { RECORD(false); throw; }
    if(op == "crethrow") { RECORD(true); cpptrace::rethrow(); }
    if(op == "raise 1") { RECORD(false); std::rethrow_exception(slots[0]); }
    if(op == "raise 2") { RECORD(false); std::rethrow_exception(slots[1]); }
    if(op == "craise 1") { RECORD(true); cpptrace::rethrow(slots[0]); }
    if(op == "craise 2") { RECORD(true); cpptrace::rethrow(slots[1]); }
    KEEP();
}
NOINLINE static void thrower(run& r, const std::string& t, int n) {
    auto& raises = r.raises;
    RECORD(false);
    throw_it(t, n);
    KEEP();
}
template<int K> NOINLINE static void ones(run& r, const std::string& op, int n) {
    if(op.compare(0, 6, "throw ") == 0) thrower(r, op.substr(6), n); else r.raise(op, n);
    KEEP();
}
template<int K> NOINLINE static void tens(run& r, const std::string& op, int n) {
    static void (*const t[10])(run&, const std::string&, int) = {ones<K * 10>, ones<K * 10 + 1>, ones<K * 10 + 2>, ones<K * 10 + 3>, ones<K * 10 + 4>, ones<K * 10 + 5>, ones<K * 10 + 6>, ones<K * 10 + 7>, ones<K * 10 + 8>, ones<K * 10 + 9>};
    t[n % 10](r, op, n);
    KEEP();
}
static void site(run& r, const std::string& op, int n) {
    static void (*const t[10])(run&, const std::string&, int) = {tens<0>, tens<1>, tens<2>, tens<3>, tens<4>, tens<5>, tens<6>, tens<7>, tens<8>, tens<9>};
    t[n / 10](r, op, n);
}
NOINLINE static int call_frame(run& r) { int s = r.loop(); KEEP(); return s; }
struct object { run& r; int id; ~object() { r.say("dtor " + std::to_string(id)); } };
struct runner { run& r; int id; ~runner() { r.say("dtor " + std::to_string(id)); r.loop(); r.say("dtorend " + std::to_string(id)); } };
typedef int (*tryfn)(run&, int);
#include "exc_lists.hpp"
static void thread_body(run& r, int id) {
    try { r.loop(); r.ok(id); } catch(...) { r.handle(id, 1, false, 0, nullptr); }
}
int run::loop() {
    while(true) {
        std::string op = next();
        int s = 0;
        if(op == "end") return 0;
        if(op == "ret") return 1;
        if(op == "q") query(false);
        else if(op == "qr") query(true);
        else if(op == "clear") cpptrace::clear_current_exception_traces();
        else if(op == "mut") { if(where_mut) *where_mut += 1000; else say("nothing to change"); }
        else if(op == "save 1") slots[0] = std::current_exception();
        else if(op == "save 2") slots[1] = std::current_exception();
        else if(op == "call") { nid++; call_frame(*this); }
        else if(op == "obj") { object o{*this, ++nid}; s = loop(); }
        else if(op == "run") { runner o{*this, ++nid}; s = loop(); }
        else if(op == "thread") { int id = ++nid; std::thread t(thread_body, std::ref(*this), id); t.join(); }
        else if(op.compare(0, 4, "try ") == 0) {
            std::istringstream is(op.substr(4)); std::string form; int l; is >> form >> l;
            s = (form == "plain" ? plain_forms : form == "macro" ? macro_forms : tc_forms)[l](*this, ++nid);
        } else { int n = ++nthr; site(*this, op, n); say("the throw returned"); }
        if(s) return s;
    }
}
int main(int argc, char** argv) {
    if(argc < 3) return 9;
    cpptrace::set_log_level(cpptrace::log_level::debug);
    cpptrace::set_log_callback([](cpptrace::log_level, const char* m) { logged++; std::cerr << "LOG " << m << "\n"; });
    std::ifstream in(argv[1]); std::ofstream out(argv[2]); std::string line;
    while(std::getline(in, line)) {
        mj::val q = mj::parser(line).value();
        std::vector<std::string> log;
        {
            run r;
            for(auto& x : q.a) r.tape.push_back(x.s);
            // every tape runs in a thread of its own, so that it starts with fresh traces
            std::thread t([&] {
                try { r.loop(); r.ok(0); } catch(...) { r.handle(0, 1, false, 0, nullptr); }
            });
            t.join();
            r.slots[0] = r.slots[1] = nullptr;
            log = r.log;
        }
        if(live != 0) { log.push_back("leaked " + std::to_string(live.load()) + " exception objects"); live = 0; }
        if(logged != 0) { log.push_back("logged " + std::to_string(logged.load()) + " internal errors"); logged = 0; }
        out << "[";
        for(size_t i = 0; i < log.size(); i++) out << (i ? "," : "") << mj::quote(log[i]);
        out << "]" << std::endl;
    }
}
