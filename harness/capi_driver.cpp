// Replays histories of C API calls: every line of stdin is a JSON list of operations; every line of output is the record of
// one history: after each call the contents of every structure the caller holds, and at the end what the C++ API says about
// the same inputs.
#include <cpptrace/cpptrace.hpp>
#include <ctrace/ctrace.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>
#include "mjson.hpp"

// ---- accounting
struct header { unsigned long long magic; size_t size; };
static const unsigned long long M1 = 0x51e9a11e0ca11ed1ull, MA = 0x51e9a11e0ca11eaaull, MF = 0xdeaddeaddeaddeadull;
static long live = 0;
static long fail_at = 0, allocs = 0;
static bool counting = false, fired = false;
static void* take(size_t n, unsigned long long m) {
    if(counting) {
        allocs++;
        if(fail_at && allocs == fail_at) { fired = true; throw std::bad_alloc(); }
    }
    auto* h = (header*)std::malloc(n + 32);
    if(!h) throw std::bad_alloc();
    h->magic = m; h->size = n;
    __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED);
    return (char*)h + 32;
}
static void give(void* p, unsigned long long m) {
    if(!p) return;
    auto* h = (header*)((char*)p - 32);
    if(h->magic != m) {
        const char* w = h->magic == MF ? "freed twice\n" : h->magic == M1 || h->magic == MA ? "new and delete do not match\n" : "freed memory that was never allocated\n";
        (void)!write(2, w, strlen(w));
        _exit(97);
    }
    h->magic = MF;
    std::memset(p, 0xdd, h->size);
    __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
    std::free(h);
}
void* operator new(size_t n) { return take(n, M1); }
void* operator new[](size_t n) { return take(n, MA); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n, M1); } catch(...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n, MA); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p, M1); }
void operator delete[](void* p) noexcept { give(p, MA); }
void operator delete(void* p, size_t) noexcept { give(p, M1); }
void operator delete[](void* p, size_t) noexcept { give(p, MA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p, M1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p, MA); }

// ---- text
static std::string quote(const std::string& s) {
    std::string t;
    for(char c : s) { if(c == '\x1b') t += "<ESC>"; else t += c; }
    return mj::quote(t);
}
static std::string hex(unsigned long long v) { char b[32]; std::snprintf(b, sizeof b, "\"0x%016llx\"", v); return b; }
static std::string cstr(const char* s) { return s ? quote(s) : "\"<null>\""; }

// ---- what the addresses point into
namespace tgt {
    __attribute__((noinline)) int alpha(int x) { asm volatile(""); return x * 3 + 1; }
    struct thing { __attribute__((noinline)) static int beta(int x, double) { asm volatile(""); return x + 7; } };
    template <typename T> __attribute__((noinline)) int gamma(T x) { asm volatile(""); return int(x) - 2; }
    int data_word = 5;
}
extern "C" __attribute__((noinline)) int c_delta(int x) { asm volatile(""); return x ^ 1; }
static std::vector<uintptr_t> addrs;
static void init_addrs() {
    addrs = {(uintptr_t)&tgt::alpha + 4, (uintptr_t)&tgt::thing::beta + 4, (uintptr_t)&tgt::gamma<long> + 4, (uintptr_t)&c_delta + 4,
             (uintptr_t)&tgt::data_word, 0, 16, (uintptr_t)dlsym(RTLD_DEFAULT, "qsort") + 8, ~(uintptr_t)0};
}

// ---- the caller's own structures
static std::vector<std::vector<int>> raw_lists = {{}, {0}, {1, 2}, {5, 4, 0, 0, 6}, {7, 3, 2, 8, 1}};
struct uobj { int raw, obj; const char* path; }; // obj: address whose object address it claims
static std::string self_path;
static std::vector<std::vector<uobj>> obj_lists;
static std::string long_name(5000, 'L');
static std::vector<ctrace_stacktrace_frame> frames_table;
static std::vector<std::vector<int>> st_lists = {{}, {0}, {1, 2, 3}, {4, 5, 6, 7}, {8, 9, 10}, {11, 0}, {0, 6, 1, 4, 5, 9, 2, 3, 8, 7, 10}, {12, 13, 6}};
static std::vector<const char*> texts;
static std::vector<const char*> mangled;
static void init_tables() {
    init_addrs();
    // owned strings handed to obj_lists must outlive everything
    self_path = cpptrace::raw_trace{{addrs[0]}}.resolve_object_trace().frames.at(0).object_path;
    const char* sp = self_path.c_str();
    obj_lists = {{}, {{0, 0, sp}}, {{5, 1, sp}, {0, 2, sp}}, {{0, 0, nullptr}, {3, 3, ""}, {2, 2, "/no/such/object"}}, {{8, 3, sp}, {8, 3, sp}, {1, 5, sp}, {6, 8, "odd %s path"}}};
    const uint32_t no = ~0u;
    auto f = [](uintptr_t raw, uintptr_t obj, uint32_t l, uint32_t c, const char* file, const char* sym, int inl) {
        ctrace_stacktrace_frame x; std::memset(&x, 0x5a, sizeof x);
        x.raw_address = raw; x.object_address = obj; x.line = l; x.column = c; x.filename = file; x.symbol = sym; x.is_inline = (ctrace_bool)inl;
        return x;
    };
    frames_table = {f(0x401234, 0x1234, 10, 5, "/src/a.cpp", "foo(int)", 0), f(1, 2, 3, 4, nullptr, "bar()", 0), f(2, 2, 7, no, "b.cpp", nullptr, 0), f(3, 0, no, no, nullptr, nullptr, 0),
                    f(4, 0, no, 5, "c d.cpp", "s", 0), f(5, 0, 0, 0, "z.cpp", "zero", 0), f(0, 0, 12, no, "inl.hpp", "inlined_fn()", 1), f(~(uintptr_t)0, ~(uintptr_t)0, 4294967294u, 1, "m.cpp", "max", 0),
                    f(9, 0, 1, 1, "%s%n.cpp", "%d%s", 0), f(0, 0, 77, 8, "x.hpp", "two", 2), f(10, 0, 4, no, "", "nofile", 0), f(11, 0, 123456, 42, long_name.c_str(), long_name.c_str(), 0),
                    f(12, 0, no, no, "only file", "", 0), f(13, 13, 2147483648u, 2147483647u, "big.cpp", "", -1)};
    texts = {"", "abc", "x y %s", "caf\xc3\xa9", long_name.c_str()};
    mangled = {"_ZN3foo3barEv", "", "main", "_Z1fIiEvT_", "not mangled", "_ZNSt6vectorIiSaIiEE9push_backEOi", "_Z"};
}

// ---- slots
struct slot {
    std::string kind;
    bool owned = true;
    ctrace_raw_trace raw{nullptr, 0};
    ctrace_object_trace obj{nullptr, 0};
    ctrace_stacktrace st{nullptr, 0};
    ctrace_owning_string str{nullptr};
    ctrace_object_frame info{0, 0, nullptr};
};
static std::vector<slot*> slots;
static std::set<uintptr_t> seen_raw;
struct okey { uintptr_t raw, obj; std::string path; bool operator<(const okey& o) const { return std::tie(raw, obj, path) < std::tie(o.raw, o.obj, o.path); } };
static std::set<okey> seen_obj;

static std::string of_json(uintptr_t raw, uintptr_t obj, const std::string& path_json) { return "{\"raw\":" + hex(raw) + ",\"obj\":" + hex(obj) + ",\"path\":" + path_json + "}"; }
static std::string sf_json(uintptr_t raw, uintptr_t obj, const std::string& line, const std::string& col, const std::string& file, const std::string& sym, int inl) {
    return "{\"raw\":" + hex(raw) + ",\"obj\":" + hex(obj) + ",\"line\":\"" + line + "\",\"col\":\"" + col + "\",\"file\":" + file + ",\"sym\":" + sym + ",\"inl\":" + std::to_string(inl) + "}";
}
static std::string dump(const slot& s, bool note) {
    std::string o = "{\"kind\":\"" + s.kind + "\",\"owned\":" + (s.owned ? "true" : "false") + ",";
    auto list = [&](bool null, size_t n, auto fn) {
        o += std::string("\"null\":") + (null ? "true" : "false") + ",\"n\":" + std::to_string(n) + ",\"text\":\"\",\"frames\":[";
        if(!null) for(size_t i = 0; i < n; i++) { if(i) o += ","; o += fn(i); }
        o += "]}";
    };
    if(s.kind == "raw") list(!s.raw.frames, s.raw.count, [&](size_t i) { if(note) seen_raw.insert(s.raw.frames[i]); return "{\"raw\":" + hex(s.raw.frames[i]) + "}"; });
    else if(s.kind == "obj") list(!s.obj.frames, s.obj.count, [&](size_t i) {
        auto& f = s.obj.frames[i];
        if(note) { seen_obj.insert({f.raw_address, f.obj_address, f.obj_path ? f.obj_path : ""}); seen_raw.insert(f.raw_address); }
        return of_json(f.raw_address, f.obj_address, cstr(f.obj_path));
    });
    else if(s.kind == "st") list(!s.st.frames, s.st.count, [&](size_t i) {
        auto& f = s.st.frames[i];
        if(note) seen_raw.insert(f.raw_address);
        return sf_json(f.raw_address, f.object_address, std::to_string(f.line), std::to_string(f.column), cstr(f.filename), cstr(f.symbol), f.is_inline);
    });
    else if(s.kind == "info") list(false, 1, [&](size_t) { return of_json(s.info.raw_address, s.info.obj_address, cstr(s.info.obj_path)); });
    else o += std::string("\"null\":") + (s.str.data ? "false" : "true") + ",\"n\":0,\"frames\":[],\"text\":" + (s.str.data ? quote(s.str.data) : "\"\"") + "}";
    return o;
}

// ---- the C++ counterparts
static cpptrace::stacktrace to_cpp(const ctrace_stacktrace& t) {
    cpptrace::stacktrace r;
    if(!t.frames) return r;
    for(size_t i = 0; i < t.count; i++) {
        auto& f = t.frames[i];
        cpptrace::stacktrace_frame x;
        x.raw_address = f.raw_address; x.object_address = f.object_address;
        if(f.line != ~0u) x.line = f.line; else x.line = cpptrace::nullable<std::uint32_t>::null();
        if(f.column != ~0u) x.column = f.column; else x.column = cpptrace::nullable<std::uint32_t>::null();
        if(f.filename) x.filename = f.filename;
        if(f.symbol) x.symbol = f.symbol;
        x.is_inline = f.is_inline != 0;
        r.frames.push_back(x);
    }
    return r;
}
static std::string cpp_frame(const cpptrace::stacktrace_frame& f) {
    return sf_json(f.raw_address, f.object_address, f.line.has_value() ? std::to_string(f.line.value()) : "none", f.column.has_value() ? std::to_string(f.column.value()) : "none", quote(f.filename), quote(f.symbol), f.is_inline);
}
static std::map<uintptr_t, std::string> w_raw, w_info;
static std::map<okey, std::string> w_obj;
static std::string frames_of(const cpptrace::stacktrace& t) {
    std::string s;
    for(auto& f : t.frames) { if(!s.empty()) s += ","; s += cpp_frame(f); }
    return "[" + s + "]";
}
static void world(uintptr_t a) {
    if(w_raw.count(a)) return;
    w_raw[a] = frames_of(cpptrace::raw_trace{{a}}.resolve());
    cpptrace::stacktrace_frame f;
    f.raw_address = a; f.object_address = 0x1111;
    auto i = f.get_object_info();
    w_info[a] = of_json(i.raw_address, i.object_address, quote(i.object_path));
}
static void world(const okey& k) {
    if(w_obj.count(k)) return;
    w_obj[k] = frames_of(cpptrace::object_trace{{cpptrace::object_frame{k.raw, k.obj, k.path}}}.resolve());
}

// ---- generation: the call sites above the thunk are the same for both APIs
struct gen_out { int what; size_t skip, depth; slot* s; std::vector<uintptr_t> cpp; uintptr_t lo; };
__attribute__((noinline)) static void thunk_raw(gen_out& g) { g.s->raw = ctrace_generate_raw_trace(g.skip, g.depth); asm volatile(""); }
__attribute__((noinline)) static void thunk_obj(gen_out& g) { g.s->obj = ctrace_generate_object_trace(g.skip, g.depth); asm volatile(""); }
__attribute__((noinline)) static void thunk_st(gen_out& g) { g.s->st = ctrace_generate_trace(g.skip, g.depth); asm volatile(""); }
__attribute__((noinline)) static void thunk_safe(gen_out& g) {
    uintptr_t buf[72];
    for(auto& b : buf) b = 0xabababab;
    size_t n = ctrace_safe_generate_raw_trace(buf + 4, g.depth > 64 ? 64 : g.depth, g.skip, g.depth);
    auto* f = new uintptr_t[n ? n : 1];
    std::memcpy(f, buf + 4, n * sizeof *f);
    g.s->raw = {f, n};
    for(size_t i = 0; i < 4; i++) if(buf[i] != 0xabababab) g.s->raw.count = 9999;
    for(size_t i = 4 + n; i < 72; i++) if(buf[i] != 0xabababab) g.s->raw.count = 9998;
    asm volatile("");
}
__attribute__((noinline)) static void thunk_cpp(gen_out& g) { for(auto a : cpptrace::generate_raw_trace(1).frames) g.cpp.push_back(a); asm volatile(""); }
typedef void (*thunk_t)(gen_out&);
static thunk_t thunks[] = {thunk_raw, thunk_obj, thunk_st, thunk_safe, thunk_cpp};
__attribute__((noinline)) static void level1(gen_out& g, bool cpp) {
    for(volatile int i = 0; i < 2; i = i + 1) { thunk_t t = thunks[i == 0 ? 4 : g.what]; if(i == 0 && !cpp) continue; if(i == 1 && cpp) continue; t(g); asm volatile(""); }
}
__attribute__((noinline)) static void level2(gen_out& g, bool cpp) { level1(g, cpp); asm volatile(""); }
__attribute__((noinline)) static void level3(gen_out& g) { for(volatile int i = 0; i < 2; i = i + 1) { level2(g, i == 0); if(i == 0) { counting = true; } asm volatile(""); } counting = false; }

static std::string slurp(FILE* f) {
    std::string s;
    std::rewind(f);
    char b[4096];
    size_t n;
    while((n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    return s;
}

static slot* of(const mj::val& op) { return slots.at((size_t)op["s"].n - 1); }

static std::string run_op(const mj::val& op, bool record) {
    std::string name = op["op"].s, out, extra;
    slot* ns = nullptr;
    auto mk = [&](const char* kind, bool owned = true) { ns = new slot; ns->kind = kind; ns->owned = owned; return ns; };
    size_t a = op.has("a") ? (size_t)op["a"].n : 0, b = op.has("b") ? (size_t)op["b"].n : 0;
    fail_at = record && op.has("oom") ? op["oom"].n : 0;
    allocs = 0; fired = false;
    bool threw = false;
    FILE* f = nullptr;
    std::string cpp_text;
    if(name == "print" || name == "printnull") f = std::tmpfile();
    std::vector<uintptr_t> stack;
    #define CALL(x) do { counting = true; try { x; } catch(...) { threw = true; } counting = false; } while(0)
    if(name == "user_raw") {
        mk("raw", false);
        auto& l = raw_lists.at(a);
        ns->raw.frames = (uintptr_t*)std::malloc(sizeof(uintptr_t) * (l.size() + 1));
        for(size_t i = 0; i < l.size(); i++) ns->raw.frames[i] = addrs[l[i]];
        ns->raw.count = l.size();
    } else if(name == "user_obj") {
        mk("obj", false);
        auto& l = obj_lists.at(a);
        ns->obj.frames = (ctrace_object_frame*)std::malloc(sizeof(ctrace_object_frame) * (l.size() + 1));
        for(size_t i = 0; i < l.size(); i++) {
            uintptr_t o = cpptrace::raw_trace{{addrs[l[i].obj]}}.resolve_object_trace().frames.at(0).object_address;
            ns->obj.frames[i] = {addrs[l[i].raw], o, l[i].path};
        }
        ns->obj.count = l.size();
    } else if(name == "user_st") {
        mk("st", false);
        auto& l = st_lists.at(a);
        ns->st.frames = (ctrace_stacktrace_frame*)std::malloc(sizeof(ctrace_stacktrace_frame) * (l.size() + 1));
        for(size_t i = 0; i < l.size(); i++) ns->st.frames[i] = frames_table[l[i]];
        ns->st.count = l.size();
    } else if(name == "user_null") {
        mk(a == 0 ? "raw" : a == 1 ? "obj" : "st", false);
        ns->raw.count = ns->obj.count = ns->st.count = b;
    } else if(name == "gen") {
        static const char* kinds[] = {"raw", "obj", "st", "raw"};
        mk(kinds[a]);
        gen_out g{(int)a, (size_t)op["skip"].n, op["depth"].n < 0 ? SIZE_MAX : (size_t)op["depth"].n, ns, {}, 0};
        try { level3(g); } catch(...) { threw = true; counting = false; }
        stack = g.cpp;
    } else if(name == "resolve") {
        slot* s = of(op);
        mk("st");
        if(s->kind == "raw") CALL(ns->st = ctrace_resolve_raw_trace(&s->raw)); else CALL(ns->st = ctrace_resolve_object_trace(&s->obj));
    } else if(name == "toobj") {
        slot* s = of(op);
        mk("obj");
        CALL(ns->obj = ctrace_resolve_raw_trace_to_object_trace(&s->raw));
    } else if(name == "free") {
        slot* s = of(op);
        if(s->kind == "raw") CALL(ctrace_free_raw_trace(&s->raw));
        else if(s->kind == "obj") CALL(ctrace_free_object_trace(&s->obj));
        else if(s->kind == "st") CALL(ctrace_free_stacktrace(&s->st));
        else if(s->kind == "str") CALL(ctrace_free_owning_string(&s->str));
        else { ctrace_owning_string o{s->info.obj_path}; CALL(ctrace_free_owning_string(&o)); s->info.obj_path = o.data; }
    } else if(name == "freenull") {
        CALL(ctrace_free_raw_trace(nullptr)); CALL(ctrace_free_object_trace(nullptr)); CALL(ctrace_free_stacktrace(nullptr)); CALL(ctrace_free_owning_string(nullptr));
    } else if(name == "str") {
        slot* s = of(op);
        mk("str");
        cpp_text = to_cpp(s->st).to_string(b != 0);
        CALL(ns->str = ctrace_stacktrace_to_string(&s->st, (ctrace_bool)b));
    } else if(name == "print") {
        slot* s = of(op);
        CALL(ctrace_print_stacktrace(&s->st, f, (ctrace_bool)b));
        out = slurp(f);
    } else if(name == "printnull") {
        CALL(ctrace_print_stacktrace(nullptr, f, (ctrace_bool)b));
        out = slurp(f);
    } else if(name == "null") {
        if(a == 0) { mk("str"); CALL(ns->str = ctrace_generate_owning_string(nullptr)); }
        else if(a == 1) { mk("str"); CALL(ns->str = ctrace_demangle(nullptr)); }
        else if(a == 2) { mk("str"); CALL(ns->str = ctrace_stacktrace_to_string(nullptr, 0)); }
        else if(a == 3) { mk("st"); CALL(ns->st = ctrace_resolve_raw_trace(nullptr)); }
        else if(a == 4) { mk("obj"); CALL(ns->obj = ctrace_resolve_raw_trace_to_object_trace(nullptr)); }
        else if(a == 5) { mk("st"); CALL(ns->st = ctrace_resolve_object_trace(nullptr)); }
        else { mk("info"); CALL(ns->info = ctrace_get_object_info(nullptr)); }
    } else if(name == "text") {
        mk("str");
        cpp_text = texts.at(a);
        std::string copy = texts.at(a);
        CALL(ns->str = ctrace_generate_owning_string(copy.c_str()));
        std::memset(&copy[0], 'Z', copy.size());
    } else if(name == "demangle") {
        mk("str");
        cpp_text = cpptrace::demangle(mangled.at(a));
        CALL(ns->str = ctrace_demangle(mangled.at(a)));
    } else if(name == "info") {
        slot* s = of(op);
        mk("info");
        if(s->st.frames && a < s->st.count) { CALL(ns->info = ctrace_get_object_info(&s->st.frames[a])); }
        else { delete ns; ns = nullptr; ns = new slot; ns->kind = "info"; CALL(ns->info = ctrace_get_object_info(nullptr)); }
    } else if(name == "config") {
        if(a < 6) CALL(ctrace_set_cache_mode((ctrace_cache_mode)a)); else CALL(ctrace_enable_inlined_call_resolution((ctrace_bool)(a - 6)));
    } else if(name == "facts") {
        bool ok = ctrace_stdin_fileno() == cpptrace::stdin_fileno && ctrace_stdout_fileno() == cpptrace::stdout_fileno && ctrace_stderr_fileno() == cpptrace::stderr_fileno
            && ctrace_stdin_fileno() == 0 && ctrace_stdout_fileno() == 1 && ctrace_stderr_fileno() == 2
            && !!ctrace_can_signal_safe_unwind() == cpptrace::can_signal_safe_unwind() && !!ctrace_can_get_safe_object_frame() == cpptrace::can_get_safe_object_frame();
        for(int fd = -1; fd < 20; fd++) ok = ok && !!ctrace_isatty(fd) == !!isatty(fd);
        for(auto x : addrs) {
            static ctrace_safe_object_frame c;
            static cpptrace::safe_object_frame p;
            std::memset((void*)&c, 0x41, sizeof c); std::memset((void*)&p, 0x41, sizeof p);
            ctrace_get_safe_object_frame(x, &c);
            cpptrace::get_safe_object_frame(x, &p);
            ok = ok && c.raw_address == p.raw_address && c.relative_obj_address == p.address_relative_to_object_start
                && !std::memcmp(c.object_path, p.object_path, sizeof c.object_path);
        }
        out = ok ? "same" : "different";
    } else throw std::runtime_error("op " + name);
    bool hit = fired;
    long n = allocs;
    fail_at = 0;
    if(f) std::fclose(f);
    if(ns) slots.push_back(ns);
    std::string j = "{\"op\":\"" + name + "\",\"s\":" + std::to_string(op.has("s") ? op["s"].n : 0) + ",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b)
        + ",\"skip\":" + std::to_string(op.has("skip") ? op["skip"].n : 0) + ",\"depth\":" + std::to_string(op.has("depth") ? op["depth"].n : 0)
        + ",\"oom\":" + std::to_string(record && op.has("oom") ? op["oom"].n : 0) + ",\"fired\":" + (hit ? "true" : "false") + ",\"allocs\":" + std::to_string(n)
        + ",\"threw\":" + (threw ? "true" : "false") + ",\"out\":" + quote(out) + ",\"cpp\":" + quote(cpp_text) + ",\"stack\":[";
    for(size_t i = 0; i < stack.size(); i++) { if(i) j += ","; j += hex(stack[i]); }
    j += "],\"slots\":[";
    for(size_t i = 0; i < slots.size(); i++) { if(i) j += ","; j += dump(*slots[i], true); }
    return j + "]}";
}
static void cleanup() {
    for(auto* s : slots) {
        if(s->owned) {
            ctrace_free_raw_trace(&s->raw); ctrace_free_object_trace(&s->obj); ctrace_free_stacktrace(&s->st); ctrace_free_owning_string(&s->str);
            ctrace_owning_string o{s->info.obj_path}; ctrace_free_owning_string(&o);
        } else { std::free(s->raw.frames); std::free(s->obj.frames); std::free(s->st.frames); }
        delete s;
    }
    slots.clear();
    slots.shrink_to_fit();
}
static std::string history(const mj::val& ops, int fd) {
    std::string rec;
    long grew = 0;
    for(int pass = 0; pass < 2; pass++) {
        long before = live;
        std::string r;
        for(size_t i = 0; i < ops.size(); i++) {
            if(i) r += ",";
            r += run_op(ops.at(i), pass == 1);
            if(pass == 1) { char mark = 'm'; (void)!write(fd, &mark, 1); }
        }
        cleanup();
        // what was seen so far is remembered: its own memory is not the library's
        for(auto a : seen_raw) world(a);
        for(auto& k : seen_obj) world(k);
        if(pass == 1) { rec = r; r = std::string(); r.shrink_to_fit(); grew = live - before - (rec.capacity() > 15 ? 1 : 0); }
    }
    std::string o = "{\"kind\":\"run\",\"steps\":[" + rec + "],\"grew\":" + std::to_string(grew) + ",\"raws\":[";
    bool first = true;
    for(auto a : seen_raw) { o += std::string(first ? "" : ",") + "{\"a\":" + hex(a) + ",\"st\":" + w_raw[a] + ",\"info\":" + w_info[a] + "}"; first = false; }
    o += "],\"objs\":[";
    first = true;
    for(auto& k : seen_obj) { o += std::string(first ? "" : ",") + "{\"k\":" + of_json(k.raw, k.obj, quote(k.path)) + ",\"st\":" + w_obj[k] + "}"; first = false; }
    std::string th;
    uintptr_t t[] = {(uintptr_t)&thunk_raw, (uintptr_t)&thunk_obj, (uintptr_t)&thunk_st, (uintptr_t)&thunk_safe};
    o += "],\"thunks\":[";
    for(int i = 0; i < 4; i++) o += std::string(i ? "," : "") + hex(t[i]);
    return o + "],\"safe\":" + (cpptrace::can_signal_safe_unwind() ? "true" : "false") + "}";
}
int main() {
    cpptrace::use_default_stderr_logger();
    cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
    init_tables();
    for(auto a : addrs) world(a);
    for(auto& l : obj_lists) for(auto& u : l) {
        uintptr_t o = cpptrace::raw_trace{{addrs[u.obj]}}.resolve_object_trace().frames.at(0).object_address;
        world(okey{addrs[u.raw], o, u.path ? u.path : ""});
    }
    {   // warm up what is remembered about our own stack
        slot s; gen_out g{0, 0, SIZE_MAX, &s, {}, 0}; level3(g); for(auto a : g.cpp) world(a); for(auto a : g.cpp) { auto f = cpptrace::raw_trace{{a}}.resolve_object_trace().frames.at(0); world(okey{f.raw_address, f.object_address, f.object_path}); }
        ctrace_free_raw_trace(&s.raw);
    }
    std::string line;
    while(std::getline(std::cin, line)) {
        int p[2], m[2], e[2];
        if(pipe(p) || pipe(m) || pipe(e)) return 3;
        std::cout.flush();
        std::fflush(nullptr);
        pid_t pid = fork();
        if(pid == 0) {
            close(p[0]); close(m[0]); close(e[0]);
            dup2(e[1], 2);
            alarm(60);
            std::string r = history(mj::parse(line), m[1]);
            for(size_t o = 0; o < r.size();) { ssize_t w = write(p[1], r.data() + o, r.size() - o); if(w <= 0) _exit(4); o += (size_t)w; }
            _exit(0);
        }
        close(p[1]); close(m[1]); close(e[1]);
        std::string r, err;
        char b[65536];
        ssize_t n;
        while((n = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)n);
        size_t steps = 0;
        while((n = read(m[0], b, sizeof b)) > 0) steps += (size_t)n;
        while((n = read(e[0], b, sizeof b)) > 0) err.append(b, (size_t)n);
        close(p[0]); close(m[0]); close(e[0]);
        int st;
        waitpid(pid, &st, 0);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) std::cout << r << "\n";
        else std::cout << "{\"kind\":\"crash\",\"status\":" << (WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)) << ",\"after\":" << steps << ",\"err\":" << quote(err.substr(0, 1500)) << "}\n";
    }
}
