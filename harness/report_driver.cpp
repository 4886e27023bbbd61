// Failures inside the library and the messages about them.
//   report_driver hist  < histories (one JSON array per line)      each history in a child of its own
//   report_driver fault OP ABSORB WARM MODE FAULT K1,K2,...        each K in a child of its own; K 0 only counts
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/from_current.hpp>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstring>
#include <iostream>
#include <new>
#include "mjson.hpp"
#ifndef NO_INTERNAL
#include "logging.hpp"
#endif

// ---------------------------------------------------------------- failing steps
static thread_local long step_no = 0, fail_at = 0;
static thread_local bool armed = false, persist = false;
static long fired = 0;
enum fault_kind { NOMEM, PCINFO } fault = NOMEM;
static pid_t me = 0;
static bool step(fault_kind kind) {
    if(!armed || kind != fault || getpid() != me) return false;
    step_no++;
    if(fail_at && (step_no == fail_at || (persist && step_no > fail_at))) { fired++; return true; }
    return false;
}
void* operator new(std::size_t n) {
    if(step(NOMEM)) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
#ifdef WRAP_BACKTRACE
extern "C" {
typedef void (*err_cb)(void*, const char*, int);
int __real_backtrace_pcinfo(void*, uintptr_t, void*, err_cb, void*);
int __real_backtrace_syminfo(void*, uintptr_t, void*, err_cb, void*);
void* __real_backtrace_create_state(const char*, int, err_cb, void*);
int __wrap_backtrace_pcinfo(void* s, uintptr_t pc, void* f, err_cb e, void* d) {
    if(step(PCINFO)) { e(d, "injected failure", 5); return 0; }
    return __real_backtrace_pcinfo(s, pc, f, e, d);
}
int __wrap_backtrace_syminfo(void* s, uintptr_t pc, void* f, err_cb e, void* d) {
    if(step(PCINFO)) { e(d, "injected failure", 5); return 0; }
    return __real_backtrace_syminfo(s, pc, f, e, d);
}
void* __wrap_backtrace_create_state(const char* n, int t, err_cb e, void* d) {
    if(step(PCINFO)) { e(d, "injected failure", 5); return nullptr; }
    return __real_backtrace_create_state(n, t, e, d);
}
}
#endif

// ---------------------------------------------------------------- destinations (no allocation)
struct message { char sink; int level; char text[400]; };
static message got_msgs[400];
static int n_msgs = 0;
static void note(char sink, cpptrace::log_level l, const char* text) {
    if(n_msgs == 400) return;
    auto& m = got_msgs[n_msgs++];
    m.sink = sink; m.level = (int)l;
    strncpy(m.text, text, sizeof m.text - 1); m.text[sizeof m.text - 1] = 0;
}
static void to_a(cpptrace::log_level l, const char* t) { note('A', l, t); }
static void to_b(cpptrace::log_level l, const char* t) { note('B', l, t); }
static int errfd = -1;
static long errpos = 0;
static std::string new_stderr() {
    std::string out; char buf[4096];
    for(;;) {
        ssize_t n = pread(errfd, buf, sizeof buf, errpos);
        if(n <= 0) break;
        out.append(buf, n); errpos += n;
    }
    return out;
}

// ---------------------------------------------------------------- operations
static std::string hex(unsigned long long x) { char b[32]; snprintf(b, sizeof b, "%llx", x); return b; }
static std::string frame_json(const cpptrace::stacktrace_frame& f) {
    return "{\"raw\":\"" + hex(f.raw_address) + "\",\"obj\":\"" + hex(f.object_address) + "\",\"sym\":" + mj::quote(f.symbol) +
        ",\"file\":" + mj::quote(f.filename) + ",\"line\":" + std::to_string(f.line.has_value() ? (long)f.line.value() : -1L) + "}";
}
static std::string frame_json(const cpptrace::object_frame& f) {
    return "{\"raw\":\"" + hex(f.raw_address) + "\",\"obj\":\"" + hex(f.object_address) + "\",\"sym\":\"\",\"file\":" + mj::quote(f.object_path) +
        ",\"line\":-1}";
}
static std::string frame_json(cpptrace::frame_ptr p) {
    return "{\"raw\":\"" + hex(p) + "\",\"obj\":\"0\",\"sym\":\"\",\"file\":\"\",\"line\":-1}";
}
template<typename V> static std::vector<cpptrace::frame_ptr> raws(const V& v) { std::vector<cpptrace::frame_ptr> r; for(auto& f : v) r.push_back(f.raw_address); return r; }
static std::vector<cpptrace::frame_ptr> raws(const std::vector<cpptrace::frame_ptr>& v) { return v; }
static std::string g_paths;
static bool want_paths = false;
template<typename V> static void keep_paths(const V& v) {
    g_paths.clear();
    for(auto p : raws(v)) {
        cpptrace::stacktrace_frame f{};
        f.raw_address = p;
        g_paths += (g_paths.empty() ? "" : ",") + mj::quote(f.get_object_info().object_path);
    }
}
template<typename V> static std::string frames_json(const V& v) {
    if(want_paths) keep_paths(v);
    std::string s = "[";
    for(auto& f : v) { if(s.size() > 1) s += ','; s += frame_json(f); }
    return s + "]";
}
struct result { std::string json; std::string threw; };
static void arm(long k, bool keep) { step_no = 0; fail_at = k; persist = keep; armed = true; }
struct disarm { ~disarm() { armed = false; } };

static cpptrace::raw_trace g_raw;
static cpptrace::object_trace g_obj;
static std::string long_symbol;
#define NOINL __attribute__((noinline, noclone))
struct boom { int x; };

template<typename F> NOINL static result guarded(F f) {
    result r;
    try {
        f(r);
        armed = false;
    } catch(const std::bad_alloc&) { armed = false; r.threw = "std::bad_alloc"; r.json = "[]"; }
    catch(const std::exception& e) { armed = false; r.threw = strstr(e.what(), "injected failure") ? "injected failure" : e.what(); r.json = "[]"; }
    catch(...) { armed = false; r.threw = "something"; r.json = "[]"; }
    return r;
}
NOINL static result run_op(const std::string& op, long k, bool keep) {
    if(op == "raw_gen") return guarded([&](result& r) { arm(k, keep); auto t = cpptrace::generate_raw_trace(); armed = false; r.json = frames_json(t.frames); });
    if(op == "raw_gen2") return guarded([&](result& r) { arm(k, keep); auto t = cpptrace::generate_raw_trace(0, 4); armed = false; r.json = frames_json(t.frames); });
    if(op == "raw_cur") return guarded([&](result& r) { arm(k, keep); auto t = cpptrace::raw_trace::current(); armed = false; r.json = frames_json(t.frames); });
    if(op == "obj_gen") return guarded([&](result& r) { arm(k, keep); auto t = cpptrace::generate_object_trace(); armed = false; r.json = frames_json(t.frames); });
    if(op == "obj_cur") return guarded([&](result& r) { arm(k, keep); auto t = cpptrace::object_trace::current(); armed = false; r.json = frames_json(t.frames); });
    if(op == "st_gen") return guarded([&](result& r) { arm(k, keep); auto t = cpptrace::generate_trace(); armed = false; r.json = frames_json(t.frames); });
    if(op == "st_cur") return guarded([&](result& r) { arm(k, keep); auto t = cpptrace::stacktrace::current(); armed = false; r.json = frames_json(t.frames); });
    if(op == "raw_resolve") return guarded([&](result& r) { arm(k, keep); auto t = g_raw.resolve(); armed = false; r.json = frames_json(t.frames); });
    if(op == "raw_resolve_obj") return guarded([&](result& r) { arm(k, keep); auto t = g_raw.resolve_object_trace(); armed = false; r.json = frames_json(t.frames); });
    if(op == "obj_resolve") return guarded([&](result& r) { arm(k, keep); auto t = g_obj.resolve(); armed = false; r.json = frames_json(t.frames); });
    if(op == "prune") return guarded([&](result& r) {
        arm(k, keep); auto s = cpptrace::prune_symbol(long_symbol); armed = false;
        g_paths = mj::quote(long_symbol);
        r.json = "[{\"raw\":\"0\",\"obj\":\"0\",\"sym\":\"\",\"file\":" + mj::quote(s) + ",\"line\":-1}]";
    });
    if(op == "exc_ctor") return guarded([&](result& r) {
        std::string text(60, 'm');
        arm(k, keep);
        cpptrace::lazy_exception e; // the constructor captures
        armed = false;
        r.json = frames_json(e.trace().frames);
    });
    if(op == "exc_trace") return guarded([&](result& r) {
        cpptrace::lazy_exception e{cpptrace::raw_trace(g_raw)};
        arm(k, keep); auto& t = e.trace(); armed = false; r.json = frames_json(t.frames);
    });
    if(op == "try_capture") return guarded([&](result& r) {
        r.json = "[]";
        std::vector<cpptrace::frame_ptr> fr;
        CPPTRACE_TRY {
            arm(k, keep);
            throw boom{3};
        } CPPTRACE_CATCH(const boom&) {
            armed = false;
            fr = cpptrace::raw_trace_from_current_exception().frames;
        }
        r.json = frames_json(fr);
    });
    fprintf(stderr, "unknown op %s\n", op.c_str());
    exit(3);
}

static void finish(FILE* out) { fclose(out); _exit(0); }
static std::string wait_for(pid_t pid) {
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    return WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
}
static std::string slurp(int fd) {
    std::string s; char b[65536];
    for(;;) { ssize_t n = read(fd, b, sizeof b); if(n < 0 && errno == EINTR) continue; if(n <= 0) break; s.append(b, n); }
    return s;
}
template<typename F> static std::string in_child(F f, std::string& crash) {
    int p[2];
    if(pipe(p)) exit(4);
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
        close(p[0]);
        me = getpid();
        errfd = memfd_create("err", 0);
        if(errfd < 0) _exit(5);
        dup2(errfd, 2);
        alarm(60);
        f(fdopen(p[1], "w"));
        _exit(0);
    }
    close(p[1]);
    auto s = slurp(p[0]);
    close(p[0]);
    crash = wait_for(pid);
    return s;
}

static int serial = 0;
static void emit(int lv, const std::string& text) {
#ifndef NO_INTERNAL
    switch(lv) {
        case 0: cpptrace::detail::log::debug(text.c_str()); break;
        case 1: cpptrace::detail::log::info(text.c_str()); break;
        case 2: cpptrace::detail::log::warn(text.c_str()); break;
        case 3: cpptrace::detail::log::error(text.c_str()); break;
    }
#endif
}
static void history(const mj::val& h, FILE* out) {
    fprintf(out, "{\"kind\":\"hist\",\"events\":[");
    bool first = true;
    for(auto& e : h.a) {
        std::string op = e["op"].s, text, threw, v;
        n_msgs = 0;
        if(op == "level") { cpptrace::set_log_level((cpptrace::log_level)e["v"].n); v = std::to_string(e["v"].n); }
        else if(op == "sink") {
            auto& s = e["v"].s;
            if(s == "A") cpptrace::set_log_callback(to_a);
            else if(s == "B") cpptrace::set_log_callback([tag = std::string("B, a callable with a state too big to be stored inline")]
                (cpptrace::log_level l, const char* t) { (void)tag; to_b(l, t); });
            else if(s == "stderr") cpptrace::use_default_stderr_logger();
            else if(s == "none") cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
            else if(s == "empty") cpptrace::set_log_callback(nullptr);
            v = mj::quote(s);
        }
        else if(op == "absorb") { cpptrace::absorb_trace_exceptions(e["v"].b); v = e["v"].b ? "true" : "false"; }
        else if(op == "emit") {
            text = "message " + std::to_string(++serial) + " {} %s";
            try { emit((int)e["v"].n, text); } catch(...) { threw = "x"; }
            v = std::to_string(e["v"].n);
        } else if(op == "hard") {
            text = "std::bad_alloc";
            fault = NOMEM;
            threw = run_op("raw_gen", 1, false).threw;
            v = "0";
        } else if(op == "soft") {
            static const char garbage[64] = "this is no object file";
            try { cpptrace::register_jit_object(garbage, 64); } catch(...) { threw = "x"; }
            v = "0";
        }
        std::string err = new_stderr();
        std::string msgs;
        for(int i = 0; i < n_msgs; i++) {
            msgs += std::string(msgs.empty() ? "" : ",") + "{\"sink\":\"" + got_msgs[i].sink + "\",\"level\":" + std::to_string(got_msgs[i].level) +
                ",\"text\":" + mj::quote(got_msgs[i].text) + "}";
        }
        size_t at = 0;
        while(at < err.size()) {
            auto nl = err.find('\n', at);
            if(nl == std::string::npos) nl = err.size();
            std::string line = err.substr(at, nl - at);
            at = nl + 1;
            // the default logger names the level and then gives the message
            int lv = -1;
            std::string body = line;
            for(int l = 0; l < 4; l++) {
                std::string p = std::string("[cpptrace ") + cpptrace::to_string((cpptrace::log_level)l) + "] ";
                if(line.compare(0, p.size(), p) == 0) { lv = l; body = line.substr(p.size()); }
            }
            msgs += std::string(msgs.empty() ? "" : ",") + "{\"sink\":\"stderr\",\"level\":" + std::to_string(lv) + ",\"text\":" + mj::quote(body) + "}";
        }
        fprintf(out, "%s{\"op\":\"%s\",\"v\":%s,\"text\":%s,\"threw\":%s,\"out\":[%s]}", first ? "" : ",", op.c_str(), v.c_str(),
            mj::quote(text).c_str(), threw.empty() ? "false" : "true", msgs.c_str());
        first = false;
    }
    fprintf(out, "]}");
    finish(out);
}

NOINL static void capture_here(int n) {
    if(n) { capture_here(n - 1); asm volatile("" ::: "memory"); return; }
    g_raw = cpptrace::generate_raw_trace();
}

int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    long_symbol = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > ns::cls<int, (5 > 3)>::method(std::map<int, "
        "std::vector<double, std::allocator<double> > >, int (*)(char const*))::{lambda(auto:1)#2}::operator()<int>(int) const";
    if(mode == "hist") {
        std::string line;
        while(std::getline(std::cin, line)) {
            auto h = mj::parse(line);
            std::string crash;
            auto s = in_child([&](FILE* out) { history(h, out); }, crash);
            if(!crash.empty()) s = "{\"kind\":\"crash\",\"crash\":" + mj::quote(crash) + "}";
            printf("%s\n", s.c_str());
        }
        return 0;
    }
    std::string op = argv[2];
    bool absorb = argv[3][0] == '1', warm = argv[4][0] == '1', keep = std::string(argv[5]) == "persist";
    fault = std::string(argv[6]) == "nomem" ? NOMEM : PCINFO;
    const char* fault_text = fault == NOMEM ? "std::bad_alloc" : "injected failure";
    std::vector<long> ks;
    for(char* p = strtok(argv[7], ","); p; p = strtok(nullptr, ",")) ks.push_back(atol(p));
    cpptrace::set_log_callback(to_a);
    if(op == "raw_resolve" || op == "raw_resolve_obj" || op == "obj_resolve" || op == "exc_trace") {
        capture_here(6);
        // an address in no object, one in another object, and one twice
        g_raw.frames.insert(g_raw.frames.begin() + 2, {(cpptrace::frame_ptr)16, (cpptrace::frame_ptr)&strlen, g_raw.frames[1]});
        if(op == "obj_resolve") g_obj = g_raw.resolve_object_trace();
    }
    for(long k : ks) {
        std::string crash;
        auto s = in_child([&](FILE* out) {
            cpptrace::absorb_trace_exceptions(absorb);
            result r, again;
            long steps = 0;
            bool f = false;
            int reports = 0;
            std::string texts;
            for(int round = warm ? 0 : 1; round < 3; round++) { // one call site: the traces are to be compared
                n_msgs = 0; fired = 0;
                want_paths = round == 2 && k == 0;
                auto x = run_op(op, round == 1 ? k : 0, round == 1 && keep);
                if(round == 1) {
                    r = x;
                    steps = step_no;
                    f = fired > 0;
                    for(int i = 0; i < n_msgs; i++) {
                        if(got_msgs[i].level != 3) continue;
                        reports++;
                        if(reports < 12) texts += std::string(texts.empty() ? "" : ",") + mj::quote(got_msgs[i].text);
                    }
                } else if(round == 2) again = x;
            }
            fprintf(out, "{\"kind\":\"fault\",\"op\":\"%s\",\"absorb\":%s,\"warm\":%s,\"mode\":\"%s\",\"fault\":\"%s\",\"k\":%ld,\"steps\":%ld,\"fired\":%s,"
                "\"threw\":%s,\"reports\":%d,\"texts\":[%s],\"crash\":\"\",\"got\":%s,\"again\":%s,\"paths\":[%s]}", op.c_str(), absorb ? "true" : "false",
                warm ? "true" : "false", keep ? "persist" : "once", fault_text, k, steps, f ? "true" : "false", mj::quote(r.threw).c_str(), reports,
                texts.c_str(), r.json.c_str(), again.threw.empty() ? again.json.c_str() : "[]", g_paths.c_str());
            finish(out);
        }, crash);
        if(!crash.empty()) {
            s = std::string("{\"kind\":\"fault\",\"op\":\"") + op + "\",\"absorb\":" + (absorb ? "true" : "false") + ",\"warm\":" + (warm ? "true" : "false") +
                ",\"mode\":\"" + (keep ? "persist" : "once") + "\",\"fault\":\"" + fault_text + "\",\"k\":" + std::to_string(k) +
                ",\"steps\":0,\"fired\":true,\"threw\":\"\",\"reports\":0,\"texts\":[],\"crash\":" + mj::quote(crash) + ",\"got\":[],\"again\":[]}";
        }
        printf("%s\n", s.c_str());
        fflush(stdout);
    }
}
