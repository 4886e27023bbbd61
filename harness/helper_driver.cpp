// Replays fault schedules around the external symbolizer and records what the caller sees.
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include "mjson.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <spawn.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

// ------------------------------------------------------------------------------------------------ fault injection
struct shared { std::atomic<int> exec_fail, exec_fired; };
static shared* sh;
static int pipe_fail = -1, fork_fail = -1, read_eintr = -1, read_fail = -1, wait_eintr = 0;
static int n_pipe, n_fork, n_read;
static std::string fired;
static std::atomic<bool> armed{false};
static void fire(const char* w) { fired += w; fired += ' '; }
extern "C" {
int __real_pipe(int*); int __real_pipe2(int*, int); int __real_socketpair(int, int, int, int*);
pid_t __real_fork(); pid_t __real_vfork(); ssize_t __real_read(int, void*, size_t); pid_t __real_waitpid(pid_t, int*, int);
int __real_execv(const char*, char* const*); int __real_execvp(const char*, char* const*);
int __real_execve(const char*, char* const*, char* const*);
int __real_posix_spawn(pid_t*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const*, char* const*);
int __real_posix_spawnp(pid_t*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const*, char* const*);
static bool pf() { if(armed && n_pipe++ == pipe_fail) { fire("pipe-fails"); errno = EMFILE; return true; } return false; }
int __wrap_pipe(int* d) { return pf() ? -1 : __real_pipe(d); }
int __wrap_pipe2(int* d, int f) { return pf() ? -1 : __real_pipe2(d, f); }
int __wrap_socketpair(int a, int b, int c, int* d) { return pf() ? -1 : __real_socketpair(a, b, c, d); }
static bool ff() { if(armed && n_fork++ == fork_fail) { fire("fork-fails"); errno = EAGAIN; return true; } return false; }
pid_t __wrap_fork() { return ff() ? -1 : __real_fork(); }
pid_t __wrap_vfork() { return ff() ? -1 : __real_fork(); }
int __wrap_posix_spawn(pid_t* p, const char* a, const posix_spawn_file_actions_t* b, const posix_spawnattr_t* c, char* const* d, char* const* e) {
    return ff() ? EAGAIN : __real_posix_spawn(p, a, b, c, d, e);
}
int __wrap_posix_spawnp(pid_t* p, const char* a, const posix_spawn_file_actions_t* b, const posix_spawnattr_t* c, char* const* d, char* const* e) {
    return ff() ? EAGAIN : __real_posix_spawnp(p, a, b, c, d, e);
}
ssize_t __wrap_read(int fd, void* p, size_t n) {
    if(armed) {
        int k = n_read++;
        if(k == read_eintr) { fire("read-interrupted"); errno = EINTR; return -1; }
        if(k == read_fail) { fire("read-fails"); errno = EIO; return -1; }
    }
    return __real_read(fd, p, n);
}
pid_t __wrap_waitpid(pid_t p, int* s, int o) {
    if(armed && wait_eintr > 0) { wait_eintr--; fire("wait-interrupted"); errno = EINTR; return -1; }
    return __real_waitpid(p, s, o);
}
static bool xf() { if(sh->exec_fail.load() > 0) { sh->exec_fail--; sh->exec_fired++; errno = ENOENT; return true; } return false; }
int __wrap_execv(const char* p, char* const* a) { return xf() ? -1 : __real_execv(p, a); }
int __wrap_execvp(const char* p, char* const* a) { return xf() ? -1 : __real_execvp(p, a); }
int __wrap_execve(const char* p, char* const* a, char* const* e) { return xf() ? -1 : __real_execve(p, a, e); }
static std::vector<char*> gather(const char* a, va_list l) {
    std::vector<char*> v{const_cast<char*>(a)};
    while(v.back()) v.push_back(va_arg(l, char*));
    return v;
}
int __wrap_execl(const char* p, const char* a, ...) { va_list l; va_start(l, a); auto v = gather(a, l); va_end(l); return xf() ? -1 : __real_execv(p, v.data()); }
int __wrap_execlp(const char* p, const char* a, ...) { va_list l; va_start(l, a); auto v = gather(a, l); va_end(l); return xf() ? -1 : __real_execvp(p, v.data()); }
}

static int open_fds() {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while(readdir(d)) n++;
    closedir(d);
    return n - 3; // ., .., and the directory itself
}
// children that were not reaped, running or not
static int leftover() {
    int n = 0;
    while(true) {
        pid_t p = __real_waitpid(-1, nullptr, 0);
        if(p > 0) { n++; continue; }
        if(p == -1 && errno == EINTR) continue;
        return n;
    }
}

static std::atomic<int> logs;
static std::string frames_json(const std::vector<cpptrace::stacktrace_frame>& fs) {
    std::string s = "[";
    for(auto& f : fs) {
        if(s.size() > 1) s += ",";
        s += "{\"raw\":" + std::to_string(f.raw_address) + ",\"obj\":" + std::to_string(f.object_address)
            + ",\"file\":" + mj::quote(f.filename) + ",\"sym\":" + mj::quote(f.symbol)
            + ",\"line\":" + (f.line.has_value() ? std::to_string(f.line.value()) : "-1")
            + ",\"col\":" + (f.column.has_value() ? std::to_string(f.column.value()) : "-1")
            + ",\"inl\":" + (f.is_inline ? "true" : "false") + "}";
    }
    return s + "]";
}

static cpptrace::object_trace make(const mj::val& fr) {
    cpptrace::object_trace t;
    for(auto& f : fr.a) {
        cpptrace::object_frame o;
        o.raw_address = (cpptrace::frame_ptr)f["raw"].n;
        o.object_address = (cpptrace::frame_ptr)f["obj"].n;
        o.object_path = f["path"].s;
        t.frames.push_back(o);
    }
    return t;
}

static bool has(const mj::val& v, const char* k) { return v.has(k); }
static int num(const mj::val& v, const char* k, int d) { return has(v, k) ? (int)v[k].n : d; }

static std::string one(const mj::val& q) {
    auto t = make(q["frames"]);
    pipe_fail = num(q, "pipe_fail", -1); fork_fail = num(q, "fork_fail", -1);
    read_eintr = num(q, "read_eintr", -1); read_fail = num(q, "read_fail", -1); wait_eintr = num(q, "wait_eintr", 0);
    sh->exec_fail = num(q, "exec_fail", 0); sh->exec_fired = 0;
    n_pipe = n_fork = n_read = 0; fired.clear(); logs = 0;
    cpptrace::absorb_trace_exceptions(num(q, "absorb", 1) != 0);
    int before = open_fds();
    cpptrace::stacktrace r;
    bool threw = false;
    armed = true;
    try { r = t.resolve(); } catch(...) { threw = true; }
    armed = false;
    sh->exec_fail = 0;
    if(sh->exec_fired > 0) fire("exec-fails");
    int after = open_fds();
    int kids = leftover();
    return "{\"threw\":" + std::string(threw ? "true" : "false") + ",\"logs\":" + std::to_string(logs.load()) + ",\"fired\":"
        + mj::quote(fired) + ",\"fds\":" + std::to_string(after - before) + ",\"kids\":" + std::to_string(kids) + ",\"frames\":"
        + frames_json(r.frames) + "}";
}

static void nothing(int) {}

int main(int argc, char** argv) {
    sh = static_cast<shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (sh) shared{};
    cpptrace::set_log_callback([](cpptrace::log_level l, const char*) { if(l == cpptrace::log_level::error) logs++; });
    std::string mode = argv[1];
    std::ifstream in(argv[2]);
    std::ofstream out(argv[3]);
    std::vector<mj::val> reqs;
    for(std::string line; std::getline(in, line);) reqs.push_back(mj::parse(line));
    if(mode == "nofd") { // started like a daemon: with standard streams closed
        close(0); close(1);
        mode = "replay";
    }
    if(mode == "nochld") { signal(SIGCHLD, SIG_IGN); mode = "replay"; }
    if(mode == "replay" || mode == "timer") {
        if(mode == "timer") { // real interruptions of everything, all the time
            struct sigaction sa{}; sa.sa_handler = nothing; sigaction(SIGALRM, &sa, nullptr);
            itimerval tv{{0, 700}, {0, 700}}; setitimer(ITIMER_REAL, &tv, nullptr);
        }
        for(auto& q : reqs) out << one(q) << std::endl;
        if(mode == "timer") { itimerval tv{}; setitimer(ITIMER_REAL, &tv, nullptr); }
        return 0;
    }
    if(mode == "threads") { // each thread resolves its share, several times; another one keeps starting unrelated programs
        unsigned n = (unsigned)atoi(argv[4]), rounds = (unsigned)atoi(argv[5]);
        std::vector<std::string> res(reqs.size() * rounds);
        std::atomic<bool> stop{false};
        int before = open_fds();
        std::thread other([&] {
            std::vector<pid_t> ps;
            while(!stop) {
                pid_t p = __real_fork();
                if(p == 0) { char a[] = "sleep", b[] = "600"; char* v[] = {a, b, nullptr}; __real_execv("/bin/sleep", v); _exit(1); }
                if(p > 0) ps.push_back(p);
                usleep(3000);
            }
            for(auto p : ps) { kill(p, SIGKILL); __real_waitpid(p, nullptr, 0); }
        });
        std::vector<std::thread> ts;
        for(unsigned i = 0; i < n; i++) {
            ts.emplace_back([&, i] {
                for(unsigned r = 0; r < rounds; r++)
                    for(std::size_t k = i; k < reqs.size(); k += n)
                        res[r * reqs.size() + k] = frames_json(make(reqs[k]["frames"]).resolve().frames);
            });
        }
        for(auto& t : ts) t.join();
        stop = true; other.join();
        int after = open_fds(), kids = leftover();
        for(auto& s : res) out << "{\"threw\":false,\"logs\":" << (logs ? -1 : 0) << ",\"fired\":\"\",\"fds\":" << after - before << ",\"kids\":" << kids << ",\"frames\":" << s << "}\n";
        return 0;
    }
    return 2;
}
